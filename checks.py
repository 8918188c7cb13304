def asan(h, **k):
    return dict(flavour="asan", harness=h, **k)


CHECKS = {f"C{i:02d}": dict(level="exploration", runs=[asan(f"c{i:02d}.cxx")]) for i in range(1, 33)}
CHECKS["C05"]["runs"] = [asan("c05.cxx"), dict(flavour="tsan", harness="c05.cxx", scale=0.5)]
CHECKS["C25"]["runs"] = [asan("c25.cxx"), dict(flavour="memcheck", harness="c25.cxx", scale=0.02, thorough_scale=0.05, need_scale=0.015)]
CHECKS["C07"]["runs"] = [dict(flavour="tsan", harness="c07.cxx", shards=24)]
CHECKS["C26"]["runs"] = [dict(flavour="plain", harness="c26.cxx")]

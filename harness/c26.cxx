// C26: failing allocations and callbacks. operator new and delete are replaced:
// they count what is alive and fail on demand.
#include "ops.h"
#include <new>
#include <thread>
using namespace ops;

namespace {
std::atomic<long> g_alive{0}, g_seen{0}, g_fail_at{-1};
std::atomic<bool> g_armed{false}, g_all{false};
std::atomic<long> g_failed{0};
bool fails() {
    if (!g_armed.load(std::memory_order_relaxed)) return false;
    long n = g_seen.fetch_add(1);
    long at = g_fail_at.load();
    if (at < 0 || (g_all ? n < at : n != at)) return false;
    g_failed.fetch_add(1);
    return true;
}
void *take(std::size_t n) {
    if (fails()) return nullptr;
    void *p = std::malloc(n ? n : 1);
    if (p) g_alive.fetch_add(1);
    return p;
}
void *take(std::size_t n, std::size_t al) {
    if (fails()) return nullptr;
    void *p = std::aligned_alloc(al, (n + al - 1) / al * al);
    if (p) g_alive.fetch_add(1);
    return p;
}
void give(void *p) noexcept {
    if (!p) return;
    g_alive.fetch_sub(1);
    std::free(p);
}
} // namespace
void *operator new(std::size_t n) { if (void *p = take(n)) return p; throw std::bad_alloc(); }
void *operator new[](std::size_t n) { if (void *p = take(n)) return p; throw std::bad_alloc(); }
void *operator new(std::size_t n, const std::nothrow_t &) noexcept { return take(n); }
void *operator new[](std::size_t n, const std::nothrow_t &) noexcept { return take(n); }
void *operator new(std::size_t n, std::align_val_t a) { if (void *p = take(n, std::size_t(a))) return p; throw std::bad_alloc(); }
void *operator new[](std::size_t n, std::align_val_t a) { if (void *p = take(n, std::size_t(a))) return p; throw std::bad_alloc(); }
void operator delete(void *p) noexcept { give(p); }
void operator delete[](void *p) noexcept { give(p); }
void operator delete(void *p, std::size_t) noexcept { give(p); }
void operator delete[](void *p, std::size_t) noexcept { give(p); }
void operator delete(void *p, std::align_val_t) noexcept { give(p); }
void operator delete[](void *p, std::align_val_t) noexcept { give(p); }
void operator delete(void *p, std::size_t, std::align_val_t) noexcept { give(p); }
void operator delete[](void *p, std::size_t, std::align_val_t) noexcept { give(p); }

namespace {
struct Arm {  // allocation number `at` of the calls that follow fails (and all later ones)
    Arm(long at, bool all) { g_seen = 0; g_failed = 0; g_fail_at = at; g_all = all; g_armed = true; }
    ~Arm() { g_armed = false; }
};
enum Ended { RESULT, MEMORY, BOOM, OTHER };
// Runs f with a failing allocation; nothing is allocated by the harness while armed
template <class F> Ended attempt(long at, bool all, F &&f) {
    Arm arm(at, all);
    try {
        f();
        return RESULT;
    } catch (const std::bad_alloc &) {
        return MEMORY;
    } catch (const Boom &) {
        return BOOM;
    } catch (const std::exception &) {
        return OTHER;
    }
}
// the places to fail at: all of them, or a sample with the first and last ones
std::vector<long> places(Rng &r, long n, long max) {
    std::vector<long> v;
    if (n <= max) for (long i = 0; i < n; ++i) v.push_back(i);
    else {
        for (long i = 0; i < max / 4; ++i) { v.push_back(i); v.push_back(n - 1 - i); }
        while (long(v.size()) < max) v.push_back(long(r.below(uint64_t(n))));
    }
    return v;
}
} // namespace

VF_DRIVER("allocations", 6000, 150000, "one operation (in turn) on small arguments: each of its allocations (at most 120, sampled) fails in turn, alone or with all later ones; exception or complete result, inputs unchanged, nothing left behind, the call repeated; non-trivial: the operation allocates",
          {{"failures", 80000}, {"repeats", 30000}, {"leak_checks", 80000}, {"operations", 5900}}) {
    Rng &r = c.rng;
    const Op &op = all()[c.index % all().size()];
    Args a = op.make(r, r.chance(0.3) ? 30 : 6);
    if (r.chance(0.15)) unsuit(r, op, a);
    if (op.suit(a) == REFUSE) c.event("unsuitable");
    const Args before = a;
    id(c, a);
    c.hash.s(op.name);
    c.desc = op.name + " " + show(a);
    vf::note(op.name);
    Got want = run(op, a);  // also the first use of anything static
    long n;
    bool refused = false;
    {
        Ended e = attempt(-1, false, [&] { Res x = op.call(a); });
        refused = e == OTHER;
        n = g_seen;
        VF_CHECK(refused == (want.o == THREW), "repeat-" + op.name, op.name << " ends otherwise the second time");
    }
    c.event("operations");
    c.nontrivial = n > 0;
    for (long at : places(r, n, 120)) {
        bool everything = r.chance(0.3);
        Ended e;
        Got g;
        {
            Res res;
            e = attempt(at, everything, [&] { res = op.call(a); });
            if (e == RESULT) { g.r = std::move(res); if (g.r.s.size() && !g.r.s[0].isValid()) g.o = INVALID_SERIE; }
            else g.o = THREW;
        }
        if (!g_failed) continue;  // fewer allocations this time (threads)
        c.event("failures");
        c.event(e == RESULT ? "survived" : "exceptions");
        std::string why = "allocation " + std::to_string(at) + " of " + std::to_string(n) + (everything ? " and all later ones fail" : " fails");
        if (e == RESULT) VF_CHECK(agree(g, want), "partial-" + op.name, op.name << " gives " << show(g.r) << " instead of " << show(want.r) << " when " << why);
        VF_CHECK(e != BOOM, "harness", "boom");
        VF_CHECK(identical(a, before), "input-" + op.name, op.name << " changed its arguments when " << why);
        if (r.chance(0.4)) {
            Got again = run(op, a);
            VF_CHECK(agree(again, want), "repeat-" + op.name, op.name << " gives " << show(again.r) << again.what << " instead of " << show(want.r) << " after allocation " << at << " of " << n << " failed");
            c.event("repeats");
        }
    }
    // leaks, measured without any allocation of the harness in between
    for (long at : places(r, n, 120)) {
        long alive = g_alive;
        Ended e = attempt(at, r.chance(0.3), [&] { Res res = op.call(a); });
        long now = g_alive;
        c.event("leak_checks");
        VF_CHECK(now == alive, "leak-" + op.name, op.name << " leaves " << now - alive << " blocks of memory behind when allocation " << at << " of " << n << " fails" << (e == RESULT ? " (and it returns a result)" : ""));
    }
    VF_CHECK(agree(run(op, a), want), "repeat-" + op.name, op.name << " gives something else after all its failures");
}

VF_DRIVER("callbacks", 7000, 200000, "one operation with callbacks (in turn) on small arguments: each call of its callbacks (at most 80, sampled) throws in turn; the exception arrives, inputs unchanged, nothing left behind, the call repeated; non-trivial: the operation calls back",
          {{"thrown", 60000}, {"repeats", 25000}, {"jobs", 1500}}) {
    Rng &r = c.rng;
    static const std::vector<const Op *> ops = [] { std::vector<const Op *> v; for (auto &o : all()) if (o.flags & CALLS) v.push_back(&o); return v; }();
    const Op &op = *ops[c.index % ops.size()];
    Args a = op.make(r, r.chance(0.5) ? 60 : 10);
    const Args before = a;
    id(c, a);
    c.hash.s(op.name);
    c.desc = op.name + " " + show(a);
    vf::note(op.name);
    Got want = run(op, a);
    const long big = 1l << 40;
    g_boom = big;
    { Got g = run(op, a); VF_CHECK(agree(g, want), "repeat-" + op.name, op.name << " gives something else the second time"); }
    long n = big - g_boom;
    g_boom = -1;
    c.nontrivial = n > 0;
    for (long at : places(r, n, 80)) {
        long alive = g_alive;
        g_boom = at;
        Ended e = attempt(-1, false, [&] { Res res = op.call(a); });
        bool thrown = g_boom < 0;
        g_boom = -1;
        long now = g_alive;
        if (!thrown) continue;
        VF_CHECK(e == BOOM || (e == OTHER && (op.flags & THREADS)), "swallowed-" + op.name, op.name << (e == RESULT ? " returns a result" : " throws something else") << " when call " << at << " of " << n << " of its callback throws");
        VF_CHECK(now == alive, "leak-" + op.name, op.name << " leaves " << now - alive << " blocks of memory behind when call " << at << " of " << n << " of its callback throws");
        VF_CHECK(identical(a, before), "input-" + op.name, op.name << " changed its arguments when call " << at << " of " << n << " of its callback throws");
        c.event("thrown");
        if (op.flags & THREADS) c.event("jobs");
        if (r.chance(0.4)) {
            Got again = run(op, a);
            VF_CHECK(agree(again, want), "repeat-" + op.name, op.name << " gives " << show(again.r) << again.what << " instead of " << show(want.r) << " after its callback threw at call " << at);
            c.event("repeats");
        }
    }
}

VF_DRIVER("objects", 12000, 400000, "one change of a Serie, Dataframe, Manager or memoized function with each of its allocations failing in turn: what it does not concern is as before, what it concerns is as before or as asked for, nothing left behind, and the change succeeds when repeated; non-trivial: the change allocates",
          {{"failures", 50000}, {"serie", 2900}, {"dataframe", 2900}, {"manager", 2900}, {"memoize", 2900}}) {
    Rng &r = c.rng;
    c.event("failures", 0);
    switch (c.index % 4) {
    case 0: {  // a Serie is as before or as asked for
        c.event("serie");
        M m = gen(r, item_size(r), r.chance(0.1) ? 0 : uint32_t(r.range(1, 20)), K_UNI, dim(r)), o = gen(r, item_size(r), uint32_t(r.below(20)), K_UNI, dim(r));
        id(c, m);
        id(c, o);
        int what = int(r.below(4));
        uint32_t k = uint32_t(r.below(30));
        const Serie from = o.serie();
        c.desc = shape(m) + " becomes " + shape(o) + " by way " + std::to_string(what);
        { Serie warm = m.serie(); warm = from; warm.reCount(k); warm = from.clone(); }
        for (long at = 0; at < 20; ++at) {
            Serie s = m.serie();
            long alive = g_alive;
            Ended e = attempt(at, r.chance(0.3), [&] {
                switch (what) {
                case 0: s = from; break;
                case 1: s.reCount(k); break;
                case 2: { Serie t(from); s = t; break; }
                default: s = from.clone();
                }
            });
            const long now = g_alive;
            bool failed = g_failed > 0;
            if (failed) c.event("failures"), c.nontrivial = true;
            if (e != RESULT) {
                VF_CHECK(now == alive, "leak-serie", "a failed change of a Serie leaves " << now - alive << " blocks behind");
                check_unchanged(s, m, "serie", "a Serie whose change failed");
            } else if (what == 1) {
                check_shape(s, m.is, k, "serie", "a Serie after reCount");
            } else {
                check_unchanged(s, o, "serie", "an assigned Serie");
            }
            check_unchanged(from, o, "serie-source", "the assigned Serie");
            s = from;
            check_unchanged(s, o, "serie-repeat", "a Serie assigned after a failure");
            if (!failed) break;
        }
        break;
    }
    case 1: {
        c.event("dataframe");
        Model w;
        uint32_t n = uint32_t(r.range(1, 12));
        static const Strings names = {"a", "b", "positions", "a long name that needs an allocation of its own", "U"};
        for (int k = int(r.below(5)); k > 0; --k) w[r.pick(names)] = gen(r, item_size(r), n, K_UNI, dim(r));
        M o = gen(r, item_size(r), n, K_UNI, dim(r));
        const Serie from = o.serie();
        const std::string name = r.pick(names);
        int what = int(r.below(6));
        if (what == 5 && w.empty()) w["a"] = gen(r, item_size(r), n, K_UNI, dim(r));
        const uint32_t to = n + 1 + uint32_t(r.below(20)) - (r.chance(0.3) ? uint32_t(r.below(n)) : 0);  // for setCount
        for (auto &[k, m] : w) { c.hash.s(k); id(c, m); }
        id(c, o);
        c.desc = std::to_string(w.size()) + " Series, way " + std::to_string(what) + " for " + name;
        { df::Dataframe warm; warm.create(name, o.is, n); warm.setCount(to); warm.add(name, from); warm.set(name, from); df::Dataframe copy(warm); warm.contains(name); warm.series(); copy.del(name); }
        for (long at = 0; at < 40; ++at) {
            df::Dataframe D;
            for (auto &[k, m] : w) D.add(k, m.serie());
            bool had = D.contains(name);
            const long alive = g_alive;
            Ended e = attempt(at, r.chance(0.3), [&] {
                switch (what) {
                case 5: D.setCount(to); break;
                case 0: D.add(name, from); break;
                case 1: D.set(name, from); break;
                case 2: D.create(name, o.is, n); break;
                case 3: D.del(name); break;
                default: { df::Dataframe copy(D); copy.del(name); }
                }
            });
            const long now = g_alive;
            bool failed = g_failed > 0;
            if (failed) c.event("failures"), c.nontrivial = true;
            const df::Dataframe &C = D;
            if (what == 5) {  // all the Series have the new count, or all are as before; and the call can be repeated
                if (failed) c.event("setCount");
                for (int again = 0; again < 2; ++again) {
                    for (auto &[k, m] : w) {
                        if (e != RESULT && !again) { check_unchanged(C[k], m, "setCount", "Serie " + k + " of a Dataframe whose setCount failed"); continue; }
                        if (m.n == to) continue;
                        check_shape(C[k], m.is, to, "setCount", "Serie " + k + " after setCount(" + std::to_string(to) + ")");
                        VF_CHECK(C[k].dimension() == m.dim, "setCount", "setCount changes the dimension of " << k);
                        for (double v : C[k].asArray()) VF_CHECK(v == 0, "setCount", "setCount leaves " << v << " in " << k);
                    }
                    if (!again) D.setCount(to);
                }
                if (!failed) break;
                continue;
            }
            for (auto &[k, m] : w)
                if (k != name || e != RESULT || what == 4) check_unchanged(C[k], m, "dataframe", "Serie " + k + " of a Dataframe whose change failed");
            if (e != RESULT) {
                VF_CHECK(now == alive, "leak-dataframe", "a failed change of a Dataframe leaves " << now - alive << " blocks behind");
                VF_CHECK(C.contains(name) == had && C.series().size() == w.size(), "dataframe-name", "a Dataframe contains " << name << " after adding it failed");
            } else if (what < 2) {
                check_unchanged(C[name], o, "dataframe", "an added Serie");
            }
            check_unchanged(from, o, "dataframe-source", "the added Serie");
            if (w.empty() && e != RESULT && what < 3) {  // its count is still to be given by the first Serie
                df::Dataframe later(D);
                later.add("z", Serie(1, n + 1));
                later.setCount(n);
                VF_CHECK(later["z"].count() == n, "dataframe-count", "a Dataframe remembers the count of a Serie that could not be added");
                c.event("first");
            }
            D.add(name, from);
            check_unchanged(C[name], o, "dataframe-repeat", "a Serie added after a failure");
            if (!failed) break;
        }
        break;
    }
    case 2: {
        c.event("manager");
        Model w;
        uint32_t n = uint32_t(r.range(1, 8));
        w["V"] = gen(r, 3, n, K_UNI, 3);
        w["T"] = gen(r, 6, n, K_UNI, 3);
        df::Dataframe D;
        for (auto &[k, m] : w) { D.add(k, m.serie()); id(c, m); }
        int what = int(r.below(5)), already = int(r.below(4));
        c.hash.u(uint64_t(what * 4 + already));
        c.desc = "decomposer " + std::to_string(what) + " after " + std::to_string(already) + " others";
        auto ask = [&](const df::Manager &m) { Res o; for (uint32_t is = 1; is <= 3; ++is) for (auto &x : m.names(is)) { o.put(x); o.put(m.serie(is, x)); } return o; };
        { df::Manager warm(D); warm.add(new df::Components()); warm.add(new df::EigenValues()); warm.add(new df::Coordinates()); warm.add(new df::Normals("x")); ask(warm); }
        for (long at = 0; at < 30; ++at) {
            long alive = g_alive;
            bool failed = false;
            {
                df::Manager m(D);
                for (int k = 0; k < already; ++k) m.add(new df::Components());
                Res before = ask(m);
                long inner = g_alive;
                auto add = [&] {
                    switch (what) {
                    case 0: m.add(new df::Components()); break;
                    case 1: m.add(new df::EigenValues()); break;
                    case 2: m.add(new df::Coordinates()); break;
                    case 3: m.add(new df::Normals("a rather long name of a decomposer")); break;
                    default: m.add(new df::UserDefinedDecomposer(1, "mine", [](const df::Dataframe &x) { return df::algebra::norm(x["V"]); }));
                    }
                };
                Ended e = attempt(at, r.chance(0.3), add);
                const long now = g_alive;
                failed = g_failed > 0;
                if (failed) c.event("failures"), c.nontrivial = true;
                if (e != RESULT) {
                    VF_CHECK(now == inner, "leak-manager", "a decomposer that could not be added leaves " << now - inner << " blocks behind");
                    VF_CHECK(m.nbDecomposers() == unsigned(already), "manager", "a Manager has " << m.nbDecomposers() << " decomposers after adding one to " << already << " failed");
                    VF_CHECK(same(ask(m), before), "manager", "a Manager answers otherwise after adding a decomposer failed");
                    add();
                }
                VF_CHECK(m.nbDecomposers() == unsigned(already) + 1, "manager", "a Manager has " << m.nbDecomposers() << " decomposers instead of " << already + 1);
                Res a1 = ask(m), a2 = ask(m);
                VF_CHECK(same(a1, a2), "manager", "a Manager answers otherwise the second time");
            }
            VF_CHECK(g_alive == alive, "leak-manager", "a Manager leaves " << g_alive - alive << " blocks behind");
            if (!failed) break;
        }
        break;
    }
    default: {  // a failed call is not remembered
        c.event("memoize");
        M m = gen(r, item_size(r), uint32_t(r.range(1, 12)), K_UNI, dim(r)), o = gen(r, m.is, uint32_t(r.range(1, 12)), K_UNI, dim(r));
        id(c, m);
        id(c, o);
        const Serie s = m.serie(), t = o.serie();
        auto f = [](const Serie &x) { tick(); return df::math::mult(x, 2); };
        const Serie fs = f(s), ft = f(t);
        bool both = r.chance(0.5);
        c.desc = shape(m) + " then " + shape(o);
        { auto warm = df::utils::memoize(f); warm(s); warm(s); warm.clear_cache(); }
        for (long at = 0; at < 60; ++at) {
            const long alive = g_alive;
            bool failed;
            {
                auto memo = df::utils::memoize(f);
                if (both) VF_CHECK(same(memo(t), ft), "memoize", "memoize gives another result");
                attempt(at, r.chance(0.3), [&] { Serie x = memo(s); });
                failed = g_failed > 0;
                if (failed) c.event("failures"), c.nontrivial = true;
                for (int k = 0; k < 2; ++k) {
                    Serie x = memo(s), y = memo(t);
                    VF_CHECK(same(x, fs) && same(y, ft), "memoize", "a memoized function gives " << dfh::show(x) << " instead of " << dfh::show(fs) << " after allocation " << at << " failed");
                }
            }
            const long now = g_alive;
            VF_CHECK(now == alive, "leak-memoize", "a memoized function leaves " << now - alive << " blocks behind");
            if (!failed) break;
        }
        break;
    }
    }
}
VF_MAIN

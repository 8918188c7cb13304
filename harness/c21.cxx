// C21: InSAR projection and fringes.
#include "dfh.h"
#include <dataframe/functional/geo/insar.h>
using namespace dfh;
using LD = long double;

VF_DRIVER("insar", 3000, 60000, "projection of displacements on the line of sight, linearity, order; non-trivial: at least one item", {{"projections", 50000}, {"exact", 10000}}) {
    Huge huge_(0.004);
    Rng &r = c.rng;
    uint32_t n = count1(r, 4000);
    bool exact = r.chance(0.4);
    M u = gen(r, 3, n, exact ? K_DYADIC : tame_kind(r), dim(r)), v = gen(r, 3, n, exact ? K_DYADIC : K_UNI, u.dim);
    Array los = exact ? values(r, 3, K_SMALLINT) : values(r, 3, tame_kind(r));
    if (r.chance(0.2)) los = {r.chance(0.3) ? 1.0 : 0, r.chance(0.3) ? 1.0 : 0, r.chance(0.5) ? 1.0 : 0};
    scale(u.v, pow2(r, 60));
    scale(v.v, pow2(r, 60));
    double ll = std::sqrt(los[0] * los[0] + los[1] * los[1] + los[2] * los[2]);
    if (!exact && ll > 0 && r.chance(0.3)) {  // of length one, or about one
        double f = (r.chance(0.3) ? 1 : 1 + (r.chance(0.5) ? 1 : -1) * std::ldexp(r.uni(1, 2), -int(r.range(2, 50)))) / ll;
        for (double &x : los) x *= f;
    } else scale(los, pow2(r, 60));
    id(c, u);
    c.hash.a(los);
    c.desc = shape(u) + " los " + show(los);
    Serie U = u.serie();
    Array l0 = los;
    Serie s = df::geo::insar(U, los);
    check_unchanged(U, u, "input-changed");
    VF_CHECK(identical(los, l0), "input-changed", "the line of sight was changed");
    check_shape(s, 1, n, "shape", "insar");
    M w = u;
    double f = double(r.range(-4, 4));
    for (size_t i = 0; i < w.v.size(); ++i) w.v[i] = f * u.v[i] + v.v[i];
    Serie sv = df::geo::insar(v.serie(), los), sw = df::geo::insar(w.serie(), los);
    check_shape(sw, 1, n, "shape", "insar");
    for (uint32_t i = 0; i < n; ++i) {
        LD want = 0, g = 0, gw = 0;
        for (int k = 0; k < 3; ++k) {
            LD t = LD(u.v[3 * i + k]) * los[k];
            want += t;
            g += fabsl(t);
            gw += fabsl(t) * fabs(f) + fabsl(LD(v.v[3 * i + k]) * los[k]);
        }
        double got = s.asArray()[i];
        if (exact) { VF_CHECK(got == double(want), "projection", "item " << i << " of " << n << " projects to " << got << " instead of " << double(want)); c.event("exact"); }
        else check_near(got, double(want), double(4 * EPS * g), "projection", "projection of item " + std::to_string(i));
        check_near(sw.asArray()[i], f * got + sv.asArray()[i], double(16 * EPS * gw), "linear", "projection of a combination");
        c.event("projections");
    }
}

VF_DRIVER("fringes", 3000, 60000, "fringes of dyadic values (exact) and any values: range, remainder, shift by whole spacings; non-trivial: at least one item", {{"values", 100000}, {"exact", 30000}, {"negative", 20000}, {"beside", 10000}, {"multiples", 5000}}) {
    Huge huge_(0.004);
    Rng &r = c.rng;
    uint32_t n = count1(r, 4000);
    bool exact = r.chance(0.5);
    double s = exact ? std::ldexp(1, int(r.range(-5, 5))) : r.uni(0.01, 10);
    M m = gen(r, 1, n, exact ? K_DYADIC : tame_kind(r), dim(r));
    if (r.chance(0.3)) for (double &x : m.v) if (r.chance(0.5)) x = s * double(r.range(-20, 20));
    if (r.chance(0.2)) for (double &x : m.v) if (r.chance(0.5)) x = s * double(r.range(-(1 << 20), 1 << 20)) + (exact ? s / 4 * double(r.below(4)) : s * r.unit());
    {
        double f = pow2(r);
        scale(m.v, f);
        s *= f;
        if (!exact) scale(m.v, pow2(r, 16));
    }
    if (!exact && r.chance(0.3))  // just beside a whole number of spacings
        for (double &x : m.v) if (r.chance(0.5)) { x = s * (double(r.range(-30, 30)) + (r.chance(0.5) ? 1 : -1) * std::pow(10, -r.uni(2, 13))); c.event("beside"); }
    bool neg = r.chance(0.2);
    if (neg) s = -s;
    id(c, m);
    c.hash.d(s);
    c.desc = shape(m) + " spacing " + std::to_string(s);
    Serie S = m.serie(), f = df::geo::fringes(S, s);
    check_unchanged(S, m, "input-changed");
    check_shape(f, 1, n, "shape", "fringes");
    double as = fabs(s);
    M w = m;
    Array moved(n);
    for (uint32_t i = 0; i < n; ++i) { w.v[i] = m.v[i] + as * double(r.range(-10, 10)); }
    Serie g = df::geo::fringes(w.serie(), s);
    for (uint32_t i = 0; i < n; ++i) {
        double x = m.v[i], got = f.asArray()[i];
        VF_CHECK(got >= 0 && got <= as, "range", "fringe of " << x << " is " << got << ", spacing " << s);
        LD q = LD(x) / s;
        LD want = fabsl(LD(s) * (q - floorl(q)));
        if (exact) {
            VF_CHECK(got == double(want) && got < as, "fringe", "fringe of " << x << " is " << got << " instead of " << double(want) << ", spacing " << s);
            VF_CHECK(g.asArray()[i] == got, "periodic", "fringe of " << w.v[i] << " is " << g.asArray()[i] << ", of " << x << " " << got << ", spacing " << s);
            c.event("exact");
            if (want == 0) c.event("multiples");
        } else {
            // on the circle: a value next to a whole number of spacings may fall on either side
            double tol = 8 * EPS * (fabs(x) + as), e = fabs(got - double(want));
            VF_CHECK(std::min(e, fabs(as - e)) <= tol, "fringe", "fringe of " << x << " is " << got << " instead of " << double(want) << ", spacing " << s);
            tol = 16 * EPS * (fabs(x) + fabs(w.v[i]) + as);
            e = fabs(got - g.asArray()[i]);
            VF_CHECK(std::min(e, fabs(as - e)) <= tol, "periodic", "fringe of " << w.v[i] << " is " << g.asArray()[i] << ", of " << x << " " << got << ", spacing " << s);
        }
        c.event("values");
        if (x < 0) c.event("negative");
    }
}

VF_DRIVER("refused", 1000, 10000, "unsuitable shapes give an invalid Serie; non-trivial: always", {{"refused", 4000}}) {
    Rng &r = c.rng;
    uint32_t is = std::vector<uint32_t>{1, 2, 4, 5, 6, 9}[r.below(6)];
    M m = gen(r, is, count1(r, 50), K_UNI, dim(r)), u = gen(r, 3, count1(r, 50), K_UNI, 3), f = gen(r, uint32_t(r.range(2, 9)), m.n, K_UNI, 3);
    Array bad = values(r, r.chance(0.5) ? r.below(3) : 4 + r.below(4), K_UNI);
    id(c, m);
    c.hash.a(bad);
    c.nontrivial = true;
    c.desc = shape(m) + " los of size " + std::to_string(bad.size());
    VF_CHECK(!df::geo::insar(m.serie(), {1, 0, 0}).isValid(), "displacement", "displacements of itemSize " << is << " were accepted");
    VF_CHECK(!df::geo::insar(u.serie(), bad).isValid(), "los", "a line of sight of " << bad.size() << " components was accepted");
    VF_CHECK(!df::geo::insar(Serie(), {1, 0, 0}).isValid() && !df::geo::fringes(Serie(), 1).isValid(), "invalid", "an invalid Serie was accepted");
    VF_CHECK(!df::geo::fringes(f.serie(), 1).isValid(), "fringes", "fringes of itemSize " << f.is << " were accepted");
    c.event("refused", 5);
}
VF_MAIN

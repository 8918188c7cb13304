// C23: comparison functions see every difference and nothing else.
#include "dfh.h"
#include <dataframe/functional/math/equals.h>
using namespace dfh;
using namespace df::math;

namespace {
// one that differs from m in exactly one value
M differ(Rng &r, const M &m, size_t at, double by) {
    M o = m;
    o.v[at] += by;
    return o;
}
size_t place(Rng &r, const M &m) {  // first, last, last of an item, any
    double p = r.unit();
    if (p < 0.2) return 0;
    if (p < 0.4) return m.v.size() - 1;
    if (p < 0.6) return size_t(r.below(m.n)) * m.is + m.is - 1;
    return r.below(m.v.size());
}
bool eq(const M &a, const M &b) { return a.is == b.is && a.n == b.n && a.dim == b.dim && a.v == b.v; }
bool near(const M &a, const M &b, double e) {
    if (a.is != b.is || a.n != b.n || a.dim != b.dim) return false;
    for (size_t i = 0; i < a.v.size(); ++i) if (!(std::fabs(a.v[i] - b.v[i]) <= e)) return false;
    return true;
}
} // namespace

VF_DRIVER("equals", 4000, 90000, "equal Series and Series with one difference in one value (any place, any size), itemSize, count or dimension; non-trivial: at least one item", {{"equal", 10000}, {"different", 20000}, {"shape_differs", 6000}, {"nan", 200}}) {
    Huge huge_(0.004);
    Rng &r = c.rng;
    M m = gen(r, item_size(r), count(r, 3000), r.chance(0.1) ? K_SPECIAL : finite_kind(r), dim(r));
    id(c, m);
    c.desc = shape(m);
    bool nan = false;
    for (double x : m.v) nan = nan || std::isnan(x);
    Serie s = m.serie(), t = m.serie();
    auto check = [&](const Serie &a, const Serie &b, bool want, const char *what) {
        VF_CHECK(equals(a, b) == want && equals(b, a) == want, std::string("equals-") + what, "equals is " << equals(a, b) << "/" << equals(b, a) << " for " << what << ": " << show(a) << " and " << show(b));
        c.event(want ? "equal" : "different");
    };
    check(s, t, !nan, "same values");
    check(s, s, !nan, "itself");
    if (nan) c.event("nan");
    M z = m;  // zeros of either sign are equal values
    for (double &x : z.v) if (x == 0) x = -x;
    check(s, z.serie(), !nan, "zeros of other sign");
    if (m.n) {
        size_t at = place(r, m);
        M o = m;
        double x = o.v[at];
        o.v[at] = r.chance(0.4) ? std::nextafter(x, r.chance(0.5) ? INFINITY : -INFINITY) : r.chance(0.5) ? x + 1 : -x + 0.5;
        if (r.chance(0.05)) o.v[at] = NAN;
        if (o.v[at] != x) check(s, o.serie(), false, "one value");
        if (m.n > 1 && m.is <= m.n) {  // the same values in another layout
            M l = m;
            if (m.v.size() % (m.is + 1) == 0) { l.is = m.is + 1; l.n = uint32_t(m.v.size() / l.is); check(s, l.serie(), false, "itemSize"); c.event("shape_differs"); }
        }
        M sh = m;
        sh.n -= 1;
        sh.v.resize(size_t(sh.n) * sh.is);
        check(s, sh.serie(), false, "count");
        c.event("shape_differs");
        if (m.n > 1) {
            M sw = m;
            for (uint32_t k = 0; k < m.is; ++k) std::swap(sw.v[k], sw.v[size_t(m.n - 1) * m.is + k]);
            check(s, sw.serie(), m.v == sw.v && !nan, "items exchanged");
        }
    }
    M d = m;
    d.dim = 5 - m.dim;
    check(s, d.serie(), false, "dimension");
    c.event("shape_differs");
    check(s, Serie(), false, "an invalid Serie");
    check(Serie(), Serie(), false, "invalid Series");
    check_unchanged(s, m, "input-changed");
}

VF_DRIVER("approximately", 4000, 90000, "differences just within, at and beyond epsilon, default epsilon included, at any place; non-trivial: at least one item", {{"within", 3000}, {"beyond", 1200}, {"at_epsilon", 250}, {"default", 2000}}) {
    Huge huge_(0.004);
    Rng &r = c.rng;
    M m = gen(r, item_size(r), count1(r, 2000), tame_kind(r), dim(r));
    double e = r.chance(0.3) ? std::ldexp(1, int(r.range(-10, 2))) : r.chance(0.1) ? 0 : std::pow(10, r.uni(-8, 1));
    {
        double f = pow2(r);
        scale(m.v, f);
        e *= f;
    }
    id(c, m);
    c.desc = shape(m);
    Serie s = m.serie();
    size_t at = place(r, m);
    int how = int(r.below(4));
    M o = m;
    for (double &x : o.v) if (r.chance(0.5)) x += e * r.uni(-0.9, 0.9);
    if (how == 0) o.v[at] = m.v[at] + e * r.uni(1.001, 3) * (r.chance(0.5) ? 1 : -1);
    else if (how == 1) o.v[at] = m.v[at] + e * (r.chance(0.5) ? 1 : -1);
    else if (how == 2) o.v[at] = r.chance(0.5) ? NAN : r.chance(0.5) ? INFINITY : -INFINITY;
    bool want = near(m, o, e);
    Serie t = o.serie();
    VF_CHECK(approximatelyEquals(s, t, e) == want && approximatelyEquals(t, s, e) == want, "approximatelyEquals", "approximatelyEquals is " << !want << " for " << m.v[at] << " and " << o.v[at] << " at value " << at << " of " << m.v.size() << ", epsilon " << e);
    c.event(want ? "within" : "beyond");
    for (double &x : o.v) if (std::fabs(x) == e) c.event("at_epsilon", 0);
    if (how == 1 && std::fabs(o.v[at] - m.v[at]) == e) c.event("at_epsilon");
    // default epsilon
    M p = m;
    double de = DEFAULT_EPSILON;
    for (double &x : p.v) if (std::fabs(x) < 1 && r.chance(0.5)) x += de * r.uni(-0.8, 0.8);
    bool pw = near(m, p, de);
    VF_CHECK(approximatelyEquals(s, p.serie()) == pw && approximatelyEquals(s, p.serie(), de) == pw, "default", "approximatelyEquals with the default epsilon");
    M q = m;
    q.v[at] += 1e-6 + 4 * de * (1 + std::fabs(m.v[at]));
    VF_CHECK(!approximatelyEquals(s, q.serie()), "default", "approximatelyEquals with the default epsilon accepts " << m.v[at] << " and " << q.v[at]);
    c.event(pw ? "within" : "beyond");
    c.event("default");
    VF_CHECK(approximatelyEquals(s, s, 0), "reflexive", "approximatelyEquals is not reflexive");
    M d = m;
    d.dim = 5 - m.dim;
    M sh = m;
    sh.n -= 1;
    sh.v.resize(size_t(sh.n) * sh.is);
    VF_CHECK(!approximatelyEquals(s, d.serie(), 1e9) && !approximatelyEquals(s, sh.serie(), 1e9) && !approximatelyEquals(sh.serie(), s, 1e9) && !approximatelyEquals(s, Serie(), 1e9) && !approximatelyEquals(Serie(), Serie(), 1e9), "shape", "approximatelyEquals accepts another shape");
    if (m.is > 1) { M l = m; l.is = 1; l.n = uint32_t(m.v.size()); VF_CHECK(!approximatelyEquals(s, l.serie(), 1e9), "shape", "approximatelyEquals accepts another itemSize"); }
    check_unchanged(s, m, "input-changed");
}

VF_DRIVER("all", 3000, 60000, "lists of 1 to 5 Series, equal or with one that differs at any position of the list; non-trivial: at least two Series", {{"lists", 4000}, {"different", 800}}) {
    Rng &r = c.rng;
    M m = gen(r, item_size(r), count1(r, 300), tame_kind(r), dim(r));
    size_t k = size_t(r.range(1, 5)), odd = r.below(k);
    bool same = r.chance(0.4);
    std::vector<M> ms(k, m);
    if (!same) ms[odd] = r.chance(0.2) ? M{m.is, m.n, 5 - m.dim, m.v} : differ(r, m, place(r, m), r.chance(0.5) ? 0.001 : -3);
    id(c, m);
    c.hash.u(k * 10 + odd);
    c.hash.u(same);
    c.nontrivial = k > 1;
    c.desc = shape(m) + " " + std::to_string(k) + " Series, " + (same ? "equal" : "number " + std::to_string(odd) + " differs");
    Several s;
    for (auto &x : ms) s.push_back(x.serie());
    if (alias(r, s, ms, 0.2)) c.event("same_object");
    bool want = true, wanta = true;
    for (size_t i = 0; i + 1 < k; ++i) { want = want && eq(ms[i], ms[i + 1]); wanta = wanta && near(ms[i], ms[i + 1], DEFAULT_EPSILON); }
    bool g = k == 1 ? equalsAll(s[0]) : k == 2 ? equalsAll(s[0], s[1]) : k == 3 ? equalsAll(s[0], s[1], s[2]) : k == 4 ? equalsAll(s[0], s[1], s[2], s[3]) : equalsAll(s[0], s[1], s[2], s[3], s[4]);
    VF_CHECK(g == want, "equalsAll", "equalsAll of " << k << " Series is " << g << (same ? "" : ", one differs: ") << odd);
    if (k <= 2) {
        bool h = k == 1 ? approximatelyEqualsAll(s[0]) : approximatelyEqualsAll(s[0], s[1]);
        VF_CHECK(h == wanta, "approximatelyEqualsAll", "approximatelyEqualsAll of " << k << " Series is " << h);
    }
    if (k == 3) {
        bool h = approximatelyEqualsAll<Serie>(s[0], s[1], s[2]);
        VF_CHECK(h == wanta, "approximatelyEqualsAll", "approximatelyEqualsAll of 3 Series is " << h);
        // neighbours within and beyond epsilon
        double e = r.uni(0.1, 2), a = r.uni(0.1, 1.7), b = r.uni(0.1, 1.7);
        if (std::fabs(a - 1) > 1e-6 && std::fabs(b - 1) > 1e-6) {
            M x = m, y = m;
            size_t at = r.below(m.v.size()), bt = r.chance(0.7) ? at : r.below(m.v.size());
            x.v[at] += a * e;
            y.v[at] += a * e;
            y.v[bt] += (r.chance(0.5) ? -b : b) * e;
            bool wn = near(m, x, e) && near(x, y, e);
            bool hn = approximatelyEqualsAll<Serie>(m.serie(), x.serie(), y.serie(), e);
            VF_CHECK(hn == wn, "approximatelyEqualsAll", "approximatelyEqualsAll of 3 Series which differ by " << a << " and " << b << " epsilon is " << hn);
        }
    }
    c.event("lists", 2);
    if (!same && k > 1) c.event("different");
}

VF_DRIVER("masks", 4000, 90000, "masks with differences in some components of some items, within and beyond epsilon; other shapes; non-trivial: both marks occur", {{"items", 50000}, {"equal", 20000}, {"different", 5000}, {"refused", 5000}}) {
    Huge huge_(0.004);
    Rng &r = c.rng;
    M m = gen(r, item_size(r), count1(r, 800), tame_kind(r), dim(r)), o = m, q = m;
    double e = r.chance(0.5) ? std::pow(10, r.uni(-8, 0)) : 0.25;
    std::vector<bool> de(m.n, false), dn(m.n, false);
    for (uint32_t i = 0; i < m.n; ++i)
        if (r.chance(0.3)) {
            size_t at = size_t(i) * m.is + (r.chance(0.4) ? m.is - 1 : r.chance(0.4) ? 0 : r.below(m.is));
            o.v[at] = r.chance(0.2) ? std::nextafter(m.v[at], 1e9) : m.v[at] + (r.chance(0.5) ? 1 : -0.001);
            if (r.chance(0.5)) q.v[at] = m.v[at] + e * (r.chance(0.5) ? 1 : -1) * (r.chance(0.5) ? r.uni(0, 0.9) : r.uni(1.1, 5));
            if (r.chance(0.05)) o.v[at] = q.v[at] = NAN;
            // numbers that are equal but not in their bits, and the reverse
            if (r.chance(0.15)) {
                m.v[at] = r.chance(0.5) ? 0.0 : -0.0;
                o.v[at] = q.v[at] = -m.v[at];
                c.event("zeros");
            } else if (r.chance(0.03)) {
                m.v[at] = o.v[at] = q.v[at] = NAN;
            } else if (r.chance(0.03)) {
                m.v[at] = o.v[at] = HUGE_VAL;
            }
        }
    id(c, m);
    c.hash.a(o.v);
    c.desc = shape(m);
    Serie s = m.serie(), t = o.serie(), u = q.serie();
    Serie g = equalityMask(s, t), h = approximateEqualityMask(s, u, e), g2 = equalityMask(t, s), dm = approximateEqualityMask(s, t);
    check_shape(g, 1, m.n, "shape", "equalityMask");
    check_shape(h, 1, m.n, "shape", "approximateEqualityMask");
    uint32_t ones = 0;
    for (uint32_t i = 0; i < m.n; ++i) {
        bool a = m.item(i) == o.item(i), b = true, d = true;
        for (uint32_t k = 0; k < m.is; ++k) {
            size_t at = size_t(i) * m.is + k;
            b = b && std::fabs(m.v[at] - q.v[at]) <= e;
            d = d && std::fabs(m.v[at] - o.v[at]) <= DEFAULT_EPSILON;
        }
        VF_CHECK(g.asArray()[i] == (a ? 1 : 0) && g2.asArray()[i] == (a ? 1 : 0), "equalityMask", "equalityMask of item " << i << " is " << g.asArray()[i] << ": " << show(m.item(i)) << " and " << show(o.item(i)));
        VF_CHECK(h.asArray()[i] == (b ? 1 : 0), "approximateEqualityMask", "approximateEqualityMask of item " << i << " is " << h.asArray()[i] << ": " << show(m.item(i)) << " and " << show(q.item(i)) << ", epsilon " << e);
        VF_CHECK(dm.asArray()[i] == (d ? 1 : 0), "approximateEqualityMask", "approximateEqualityMask of item " << i << " with the default epsilon");
        ones += a;
        c.event("items");
        c.event(a ? "equal" : "different");
    }
    c.nontrivial = ones > 0 && ones < m.n;
    if (m.dim == o.dim) VF_CHECK(equals(s, t) == (ones == m.n), "consistent", "equals and equalityMask disagree");
    M w = gen(r, m.is + 1, m.n, K_UNI, m.dim), l = gen(r, m.is, m.n + 1, K_UNI, m.dim);
    VF_CHECK(throws([&] { equalityMask(s, w.serie()); }) && throws([&] { equalityMask(s, l.serie()); }) && throws([&] { equalityMask(l.serie(), s); }) && throws([&] { equalityMask(s, Serie()); }), "accepted", "equalityMask accepted other shapes");
    VF_CHECK(throws([&] { approximateEqualityMask(s, w.serie()); }) && throws([&] { approximateEqualityMask(s, l.serie(), e); }) && throws([&] { approximateEqualityMask(l.serie(), s, e); }) && throws([&] { approximateEqualityMask(Serie(), s, e); }), "accepted", "approximateEqualityMask accepted other shapes");
    c.event("refused", 8);
    check_unchanged(s, m, "input-changed");
}
VF_MAIN

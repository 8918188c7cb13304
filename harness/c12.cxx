// C12: mean, covariance and minMax over all the items.
#include "dfh.h"
#include <dataframe/functional/math/minMax.h>
#include <dataframe/functional/stats/covariance.h>
#include <dataframe/functional/stats/mean.h>
using namespace dfh;
using LD = long double;

namespace {
double some(Rng &r, int kind) {
    switch (kind) {
    case 0: return double(r.range(-5, 5));
    case 1: return r.uni(-10, 10);
    case 2: return std::ldexp(r.uni(1, 2), int(r.range(-100, 100))) * (r.chance(0.5) ? 1 : -1);
    case 3: return 1e8 + r.uni(-1, 1);
    case 4: return -r.uni(1, 2);
    case 5: return 3.25;
    default: return r.uni(0, 1);
    }
}
M data(Rng &r, uint32_t is, uint32_t n, unsigned d) {
    M m = gen(r, is, n, K_UNI, d);
    int kind = int(r.below(7));
    for (double &x : m.v) x = some(r, kind);
    // extremes at chosen places
    if (n && r.chance(0.5)) {
        uint32_t at = r.chance(0.35) ? 0 : r.chance(0.5) ? n - 1 : uint32_t(r.below(n));
        uint32_t k = uint32_t(r.below(is));
        m.v[size_t(at) * is + k] = r.chance(0.5) ? 1e7 : -1e7;
    }
    scale(m.v, pow2(r));
    return m;
}
M shuffled(Rng &r, const M &m) {
    std::vector<uint32_t> p(m.n);
    for (uint32_t i = 0; i < m.n; ++i) p[i] = i;
    r.shuffle(p);
    M o{m.is, 0, m.dim, {}};
    o.v.reserve(m.v.size());
    for (uint32_t i : p) o.push(m.item(i));
    return o;
}
} // namespace

VF_DRIVER("mean", 2500, 60000, "mean of each component, also after shuffling the items; non-trivial: at least one item", {{"means", 5000}}) {
    Huge huge_(0.004);
    Rng &r = c.rng;
    uint32_t is = r.chance(0.35) ? 1 : size_between(r, 2, 20), n = fewer(is, count1(r, r.chance(0.03) ? 100000 : 4000));
    M m = data(r, is, n, dim(r));
    id(c, m);
    c.desc = shape(m);
    Serie s = m.serie();
    for (int pass = 0; pass < 2; ++pass) {
        Tuple t = df::stats::mean(pass ? shuffled(r, m).serie() : s);
        VF_CHECK(t.isNumber == (is == 1), "shape", "mean of itemSize " << is << " says isNumber " << t.isNumber);
        VF_CHECK(is == 1 || t.array.size() == is, "shape", "mean has " << t.array.size() << " components instead of " << is);
        for (uint32_t k = 0; k < is; ++k) {
            LD w = 0, g = 0;
            for (uint32_t i = 0; i < n; ++i) { LD x = m.v[size_t(i) * is + k]; w += x; g += fabsl(x); }
            check_near(is == 1 ? t.number : t.array[k], double(w / n), double((n + 8) * EPS * g / n), "mean", "mean of component " + std::to_string(k) + " over " + std::to_string(n) + " items");
            c.event("means");
        }
    }
    check_unchanged(s, m, "input-changed");
}

VF_DRIVER("covariance", 2500, 60000, "covariance of two scalar Series: definition, symmetry, variance, bilinearity, order of the items; non-trivial: at least two items", {{"covariances", 5000}, {"refused", 500}}) {
    Huge huge_(0.004);
    Rng &r = c.rng;
    uint32_t n = count1(r, r.chance(0.03) ? 60000 : 3000);
    M x = data(r, 1, n, dim(r)), y = data(r, 1, n, x.dim);
    if (r.chance(0.2)) for (uint32_t i = 0; i < n; ++i) y.v[i] = 2 * x.v[i] + 1;
    if (r.chance(0.15)) { const double o = pow2(r, 40), p = pow2(r, 40); for (double &v : x.v) v += o; for (double &v : y.v) v -= p; }  // far from zero
    id(c, x);
    id(c, y);
    c.nontrivial = n > 1;
    c.desc = shape(x);
    Serie X = x.serie(), Y = y.serie();
    // reference and error bound of cov(a, b)
    auto ref = [&](const Array &a, const Array &b, LD *tol) {
        LD ma = 0, mb = 0, ga = 0, gb = 0, w = 0, g = 0;
        for (uint32_t i = 0; i < n; ++i) { ma += a[i]; mb += b[i]; ga += fabs(a[i]); gb += fabs(b[i]); }
        ma /= n; mb /= n; ga /= n; gb /= n;
        // relative to the deviations, not to the squares of the values: data far from zero must not cancel
        LD da = 0, db = 0;
        for (uint32_t i = 0; i < n; ++i) { w += (a[i] - ma) * (b[i] - mb); g += fabsl(a[i] - ma) * fabsl(b[i] - mb); da += fabsl(a[i] - ma); db += fabsl(b[i] - mb); }
        const LD f = 4 * (n + 8) * EPS;
        *tol = f * (g + ga * db + gb * da) / n + f * f * ga * gb;
        return w / n;
    };
    LD t, w = ref(x.v, y.v, &t);
    double xy = df::stats::covariance(X, Y);
    check_near(xy, double(w), double(t), "covariance", "covariance of " + std::to_string(n) + " items");
    check_near(df::stats::covariance(Y, X), double(w), double(t), "symmetry", "reversed covariance");
    LD tv, v = ref(x.v, x.v, &tv);
    double xx = df::stats::covariance(X, X);
    check_near(xx, double(v), double(tv), "variance", "variance");
    VF_CHECK(xx >= -double(tv), "variance", "variance " << xx);
    // same items in another order, both Series alike
    M z{2, n, 3, {}};
    for (uint32_t i = 0; i < n; ++i) { z.v.push_back(x.v[i]); z.v.push_back(y.v[i]); }
    z = shuffled(r, z);
    M p{1, n, 3, {}}, q{1, n, 3, {}}, l{1, n, 3, {}};
    double al = double(r.range(-3, 3)), be = r.uni(-2, 2);
    for (uint32_t i = 0; i < n; ++i) { p.v.push_back(z.v[2 * i]); q.v.push_back(z.v[2 * i + 1]); l.v.push_back(al * x.v[i] + be); }
    check_near(df::stats::covariance(p.serie(), q.serie()), double(w), double(t), "order", "covariance of the shuffled items");
    LD tl, wl = ref(l.v, y.v, &tl);
    check_near(df::stats::covariance(l.serie(), Y), double(wl), double(tl), "bilinear", "covariance of a multiple");
    c.event("covariances", 5);
    check_unchanged(X, x, "input-changed");
    check_unchanged(Y, y, "input-changed");
    Serie o = gen(r, 1, n + 1, K_UNI, 3).serie(), o2 = gen(r, 2, n, K_UNI, 3).serie();
    VF_CHECK(throws([&] { df::stats::covariance(X, o); }) && throws([&] { df::stats::covariance(o, X); }), "accepted", "covariance accepted different counts");
    VF_CHECK(throws([&] { df::stats::covariance(X, o2); }) && throws([&] { df::stats::covariance(o2, X); }) && throws([&] { df::stats::covariance(o2, o2); }), "accepted", "covariance accepted itemSize 2");
    c.event("refused", 5);
}

VF_DRIVER("minMax", 4000, 80000, "minMax of each component, extremes (infinite ones too) at every position; non-trivial: at least one item", {{"components", 10000}, {"extreme_first", 500}, {"extreme_last", 500}}) {
    Huge huge_(0.004);
    Rng &r = c.rng;
    uint32_t is = r.chance(0.35) ? 1 : size_between(r, 2, 20), n = fewer(is, count(r, 4000));
    M m = r.chance(0.3) ? gen(r, is, n, finite_kind(r), dim(r)) : data(r, is, n, dim(r));
    if (n && r.chance(0.2)) m.v[r.below(m.v.size())] = r.chance(0.5) ? INFINITY : -INFINITY;
    if (r.chance(0.03)) for (double &x : m.v) x = INFINITY;
    if (r.chance(0.03)) for (double &x : m.v) x = -INFINITY;
    id(c, m);
    c.desc = shape(m);
    Serie s = m.serie();
    auto mm = df::math::minMax(s);
    check_unchanged(s, m, "input-changed");
    if (n == 0) {
        VF_CHECK(mm.min.empty() && mm.max.empty(), "empty", "minMax of no items is not empty");
        return;
    }
    VF_CHECK(mm.min.size() == is && mm.max.size() == is, "shape", "minMax has " << mm.min.size() << " and " << mm.max.size() << " components instead of " << is);
    for (uint32_t k = 0; k < is; ++k) {
        double lo = m.v[k], hi = m.v[k];
        uint32_t il = 0, ih = 0;
        for (uint32_t i = 0; i < n; ++i) {
            double x = m.v[size_t(i) * is + k];
            if (x < lo) lo = x, il = i;
            if (x > hi) hi = x, ih = i;
        }
        VF_CHECK(mm.min[k] == lo, "min", "minimum of component " << k << " is " << mm.min[k] << " expected " << lo << " (item " << il << " of " << n << ")");
        VF_CHECK(mm.max[k] == hi, "max", "maximum of component " << k << " is " << mm.max[k] << " expected " << hi << " (item " << ih << " of " << n << ")");
        if (il == 0 || ih == 0) c.event("extreme_first");
        if (il == n - 1 || ih == n - 1) c.event("extreme_last");
        c.event("components");
    }
    auto ms = df::math::minMax(shuffled(r, m).serie());
    VF_CHECK(ms.min == mm.min && ms.max == mm.max, "order", "minMax depends on the order of the items");
}
VF_DRIVER("large", 2, 8, "mean, covariance and minMax of more than 2^24 or a million values, the extremes at the end; non-trivial: always", {{"values", 15000000}}) {
    Rng &r = c.rng;
    // past the integers a float holds exactly, and past a million
    const uint32_t n = c.index % 2 ? uint32_t(r.range(1000001, 1100000)) : (1u << 24) + uint32_t(r.range(3, 999));

    c.nontrivial = true;
    c.hash.u(n);
    c.desc = std::to_string(n) + " values";
    Array v(n);
    LD sum = 0, sq = 0;
    for (uint32_t i = 0; i < n; ++i) v[i] = double(vf::mix(i) % 1024) / 64;
    v[n - 1] = 1e3;
    v[n - 1 - r.below(500) - 1] = -1e3;
    for (double x : v) sum += x;
    const LD mean = sum / n;
    for (double x : v) sq += (x - mean) * (x - mean);
    const Serie s(1, v);
    c.event("values", n);
    check_near(df::stats::mean(s).number, double(mean), 1e-9, "large", "the mean");
    const auto mm = df::math::minMax(s);
    VF_CHECK(mm.min == Array{-1e3} && mm.max == Array{1e3}, "large", "minMax of " << n << " values misses the extremes");
    const double cov = df::stats::covariance(s, s);
    VF_CHECK(std::abs(cov - double(sq / n)) < 1e-6 * cov || std::abs(cov - double(sq / (n - 1))) < 1e-6 * cov, "large", "the covariance of " << n << " values with themselves is " << cov << " instead of " << double(sq / n));
}
VF_MAIN

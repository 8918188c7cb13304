// C13: quantile, q25, q50, q75, IQR and the outlier functions.
#include "dfh.h"
#include <dataframe/functional/stats/quantile.h>
using namespace dfh;
using LD = long double;

namespace {
M data(Rng &r, uint32_t n, bool dyadic) {
    Kind k = dyadic ? std::vector<Kind>{K_SMALLINT, K_TIES, K_DYADIC}[r.below(3)] : finite_kind(r);
    M m = gen(r, 1, n, k, dim(r));
    if (r.chance(0.2)) std::sort(m.v.begin(), m.v.end());
    if (r.chance(0.1)) std::sort(m.v.rbegin(), m.v.rend());
    if (r.chance(0.05)) for (double &x : m.v) x = m.v[0];
    return m;  // the drivers scale it
}
// the interpolated value and how far off rounding may lead
double ref(const Array &w, double q, double *tol) {
    size_t n = w.size();
    LD pos = LD(n - 1) * q;
    size_t b = size_t(floorl(pos));
    if (b >= n - 1) b = n - 1;
    LD rest = pos - b;
    LD v = w[b];
    if (rest > 0 && b + 1 < n) v += rest * (LD(w[b + 1]) - w[b]);
    double gap = 0, mag = fabs(w[b]);
    size_t lo = b ? b - 1 : 0, hi = std::min(n - 1, b + 2);
    for (size_t i = lo; i < hi; ++i) gap = std::max(gap, w[i + 1] - w[i]);
    for (size_t i = lo; i <= hi; ++i) mag = std::max(mag, fabs(w[i]));
    *tol = 4 * EPS * mag + 4 * EPS * double(n) * gap;
    return double(v);
}
} // namespace

VF_DRIVER("quantile", 4000, 90000, "quantiles of random samples: definition, order of the items, monotony in q, minimum and maximum; non-trivial: at least two values", {{"quantiles", 40000}, {"exact", 4000}, {"infinite", 50}}) {
    Huge huge_(0.004);
    Rng &r = c.rng;
    bool dyadic = r.chance(0.5);
    uint32_t n = r.chance(0.4) ? uint32_t(r.range(1, 12)) : count1(r, 5000);
    if (r.chance(0.2)) n = 4 * uint32_t(r.range(0, 300)) + 1;
    M m = data(r, n, dyadic);
    scale(m.v, pow2(r));
    id(c, m);
    c.nontrivial = n > 1;
    c.desc = shape(m) + " " + show(m.v, 4);
    Array w = m.v;
    std::sort(w.begin(), w.end());
    Serie s = m.serie();
    M p = m;
    r.shuffle(p.v);
    Serie sp = p.serie();
    std::vector<double> qs{0, 0.25, 0.5, 0.75, 1};
    for (int i = 0; i < 4; ++i) qs.push_back(r.unit());
    if (n > 1) {
        double k = double(r.below(n));  // at (or next to) a value
        qs.push_back(std::min(1.0, k / (n - 1)));
        qs.push_back(std::min(1.0, std::nextafter(k / (n - 1), 2)));
        qs.push_back(std::max(0.0, std::nextafter(k / (n - 1), -1)));
    }
    if (n > 1)
        for (int i = 0; i < 2; ++i) {  // little beyond, or little before, a value
            double k = (double(r.below(n)) + (r.chance(0.5) ? 1 : -1) * std::ldexp(r.unit(), -int(r.range(1, 50)))) / (n - 1);
            if (k >= 0 && k <= 1) qs.push_back(k);
        }
    qs.push_back(std::nextafter(1.0, 0));
    qs.push_back(std::numeric_limits<double>::denorm_min());
    std::sort(qs.begin(), qs.end());
    double last = -INFINITY, last_tol = 0;
    for (double q : qs) {
        double g = df::stats::quantile(s, q), tol, want = ref(w, q, &tol);
        check_near(g, want, tol, "quantile", "quantile " + std::to_string(q) + " of " + std::to_string(n) + " values");
        double g2 = df::stats::quantile(sp, q);
        VF_CHECK(same_bits(g, g2) || g == g2, "order", "quantile " << q << " depends on the order of the items: " << g << " and " << g2);
        VF_CHECK(g >= last - tol - last_tol, "monotony", "quantile " << q << " is " << g << ", below " << last);
        last = g;
        last_tol = tol;
        c.event("quantiles");
        if (dyadic && (q == 0.25 || q == 0.5 || q == 0.75)) {
            VF_CHECK(g == want, "quantile-exact", "quantile " << q << " of " << n << " values: " << g << " instead of exactly " << want);
            c.event("exact");
        }
    }
    VF_CHECK(df::stats::quantile(s, 0) == w[0], "minimum", "quantile 0 is not the minimum " << w[0]);
    VF_CHECK(df::stats::quantile(s, 1) == w[n - 1], "maximum", "quantile 1 is not the maximum " << w[n - 1]);
    VF_CHECK(df::stats::q25(s) == df::stats::quantile(s, 0.25), "q25", "q25 is not quantile 0.25");
    VF_CHECK(df::stats::q50(s) == df::stats::quantile(s, 0.5), "q50", "q50 is not quantile 0.5");
    VF_CHECK(df::stats::q75(s) == df::stats::quantile(s, 0.75), "q75", "q75 is not quantile 0.75");
    double iqr = df::stats::q75(s) - df::stats::q25(s);
    check_near(df::stats::IQR(s), iqr, 2 * EPS * fabs(iqr), "IQR", "IQR");
    check_unchanged(s, m, "input-changed");
    if (n > 2 && r.chance(0.2)) {  // infinite extremes do not reach the quantiles at finite values
        M e = m;
        e.v = w;
        bool lo = r.chance(0.5), hi = !lo || r.chance(0.5);
        if (lo) e.v[0] = -INFINITY;
        if (hi) e.v[n - 1] = INFINITY;
        Serie es = e.serie();
        VF_CHECK(df::stats::quantile(es, 0) == e.v[0] && df::stats::quantile(es, 1) == e.v[n - 1], "infinite", "minimum or maximum of a sample with infinite extremes");
        if (n % 2 == 1) VF_CHECK(df::stats::q50(es) == e.v[n / 2], "infinite", "median of a sample with infinite extremes");
        c.event("infinite");
    }
}

VF_DRIVER("outliers", 4000, 90000, "outliers, notOutliers and isOutliers: complementary, in order, and by the bounds; non-trivial: something is an outlier", {{"outlier", 3000}, {"inside", 30000}, {"on_bound", 300}, {"strict", 1000}, {"negative", 80}}) {
    Huge huge_(0.004);
    Rng &r = c.rng;
    bool dyadic = r.chance(0.65);
    uint32_t n = r.chance(0.3) ? uint32_t(r.range(1, 12)) : count1(r, 3000);
    M m = data(r, n, dyadic);
    static const double ms[] = {1.5, 1.5, 1, 0.5, 2, 3, 0, 0.25, 16, 128, 1000, 4096, 1.0 / 64};
    double mu = dyadic || r.chance(0.5) ? ms[r.below(r.chance(0.8) ? 8 : 13)] : r.chance(0.9) ? r.uni(0, 4) : r.uni(0, 1) * std::ldexp(1.0, int(r.range(-10, 12)));
    if (r.chance(0.06)) mu = -mu;  // the bounds move inwards, and may cross
    if (mu < 0) c.event("negative");
    for (uint32_t k = 0; k < n / 20 + (n > 6); ++k)
        if (r.chance(0.6)) m.v[r.below(n)] = r.chance(0.5) ? 1024.0 * double(r.range(1, 8)) : -1024.0 * double(r.range(1, 8));
    auto bounds = [&](double *lo, double *hi) {
        Array w = m.v;
        std::sort(w.begin(), w.end());
        double t, a = ref(w, 0.25, &t), b = ref(w, 0.75, &t);
        *lo = a - mu * (b - a);
        *hi = b + mu * (b - a);
    };
    double lo, hi;
    bounds(&lo, &hi);
    if (dyadic && n >= 5 && r.chance(0.6)) {  // put an extreme value exactly on a bound, or just beside it
        bool up = r.chance(0.5);
        size_t k = size_t((up ? std::max_element(m.v.begin(), m.v.end()) : std::min_element(m.v.begin(), m.v.end())) - m.v.begin());
        M b = m;
        b.v[k] = (up ? hi : lo) + double(r.range(-1, 1)) / 1024;
        std::swap(b, m);
        double l2, h2;
        bounds(&l2, &h2);
        if (l2 != lo || h2 != hi) std::swap(b, m);
    }
    bounds(&lo, &hi);
    {
        double f = pow2(r);
        scale(m.v, f);
        lo *= f;
        hi *= f;
    }
    id(c, m);
    c.hash.d(mu);
    c.desc = shape(m) + " mustache " + std::to_string(mu);
    Serie s = m.serie();
    Serie out = df::stats::outliers(s, mu), in = df::stats::notOutliers(s, mu), is = df::stats::isOutliers(s, mu);
    check_unchanged(s, m, "input-changed");
    check_shape(is, 1, n, "isOutliers-shape", "isOutliers");
    VF_CHECK(out.asArray().size() + in.asArray().size() == n, "complement", out.asArray().size() << " outliers and " << in.asArray().size() << " others of " << n);
    Array wo, wi;
    double scale = std::max({fabs(lo), fabs(hi), fabs(hi - lo)});
    bool strict = dyadic;
    for (uint32_t i = 0; i < n; ++i) {
        double f = is.asArray()[i], x = m.v[i];
        VF_CHECK(f == 0 || f == 1, "isOutliers", "isOutliers holds " << f);
        bool o = f == 1;
        (o ? wo : wi).push_back(x);
        c.event(o ? "outlier" : "inside");
        if (o) c.nontrivial = true;
        bool want = x < lo || x > hi;
        if (strict || std::min(fabs(x - lo), fabs(x - hi)) > 1e-9 * scale)
            VF_CHECK(o == want, "bounds", "value " << x << (o ? " is" : " is not") << " marked as outlier, bounds " << lo << " and " << hi << " (" << n << " values)");
        if (strict && (x == lo || x == hi)) c.event("on_bound");
    }
    if (strict) c.event("strict");
    check_same(out, M{1, uint32_t(wo.size()), m.dim, wo}, "outliers", "outliers");
    check_same(in, M{1, uint32_t(wi.size()), m.dim, wi}, "notOutliers", "notOutliers");
    Serie d = df::stats::notOutliers(s), d2 = df::stats::notOutliers(s, 1.5);
    VF_CHECK(identical(d.asArray(), d2.asArray()), "default", "notOutliers without mustache is not the one of 1.5");
}

VF_DRIVER("refused", 1500, 20000, "empty, invalid, non-scalar Series and q outside [0, 1]; non-trivial: always", {{"refused", 8000}}) {
    Rng &r = c.rng;
    M m = gen(r, r.chance(0.4) ? 1 : uint32_t(r.range(2, 9)), count(r, 300), K_UNI, dim(r));
    static const double qs[] = {-1e-300, -1, 2, NAN, INFINITY, -INFINITY};
    double q = r.unit(), bad = r.chance(0.6) ? qs[r.below(6)] : r.chance(0.5) ? std::nextafter(1.0, 2) : 1 + r.unit();
    id(c, m);
    c.hash.d(q);
    c.hash.d(bad);
    c.nontrivial = true;
    c.desc = shape(m) + " q " + std::to_string(q) + " bad " + std::to_string(bad);
    Serie s = m.serie();
    auto all = [&](const Serie &t, const char *what) {
        VF_CHECK(throws([&] { df::stats::quantile(t, q); }) && throws([&] { df::stats::q25(t); }) && throws([&] { df::stats::q50(t); }) &&
                     throws([&] { df::stats::q75(t); }) && throws([&] { df::stats::IQR(t); }),
                 "quantile-accepted", "a quantile of " << what << " was given");
        VF_CHECK(throws([&] { df::stats::outliers(t, 1.5); }) && throws([&] { df::stats::notOutliers(t, 1.5); }) && throws([&] { df::stats::isOutliers(t, 1.5); }),
                 "outliers-accepted", "outliers of " << what << " were given");
        c.event("refused", 8);
    };
    if (m.is != 1) all(s, "a non-scalar Serie");
    else if (m.n == 0) all(s, "an empty Serie");
    all(Serie(), "an invalid Serie");
    all(Serie(1, Array{}), "an empty Serie");
    VF_CHECK(throws([&] { df::stats::quantile(s, bad); }), "q-accepted", "quantile " << bad << " was given");
    c.event("refused");
    check_unchanged(s, m, "input-changed");
}
VF_DRIVER("large", 2, 8, "quantiles and outliers of more than a million values, the extremes at the end, the beginning and in between; non-trivial: always", {{"values", 2000000}}) {
    Rng &r = c.rng;
    const uint32_t n = uint32_t(r.range(1u << 20, (1u << 20) + 4000));
    c.nontrivial = true;
    c.hash.u(n);
    c.desc = std::to_string(n) + " values";
    M m{1, n, 3, Array(n)};
    for (double &x : m.v) x = double(r.range(-512, 512)) / 64;
    std::set<uint32_t> far = {0, n - 1, n - 2, n / 2, uint32_t(r.below(n)), uint32_t(r.below(n))};
    for (uint32_t i : far) m.v[i] = 100 + i % 3;
    const Serie s = m.serie();
    Array w = m.v, out, in;
    std::sort(w.begin(), w.end());
    for (double q : {0.0, 0.25, 0.5, 0.9, 0.999999, 1.0}) {
        double tol, want = ref(w, q, &tol);
        check_near(df::stats::quantile(s, q), want, tol, "large", "a quantile");
    }
    for (uint32_t i = 0; i < n; ++i) (far.count(i) ? out : in).push_back(m.v[i]);
    const Serie is = df::stats::isOutliers(s, 3);
    check_shape(is, 1, n, "large", "isOutliers");
    for (uint32_t i = 0; i < n; ++i) VF_CHECK(is.asArray()[i] == double(far.count(i)), "large", "value " << i << " of " << n << ", " << m.v[i] << ", is marked with " << is.asArray()[i]);
    VF_CHECK(df::stats::outliers(s, 3).asArray() == out && df::stats::notOutliers(s, 3).asArray() == in, "large", "outliers or the others of " << n << " values");
    c.event("values", n);
}
VF_MAIN

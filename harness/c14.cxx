// C14: bins counts every value exactly once, in the right bin.
#include "dfh.h"
#include <dataframe/functional/stats/bins.h>
using namespace dfh;

namespace {
double total(const Serie &b) {
    double t = 0;
    for (double x : b.asArray()) t += x;
    return t;
}
void check_counts(const Serie &b, uint32_t nb, uint32_t n, const char *what) {
    check_shape(b, 1, nb, "shape", what);
    for (double x : b.asArray()) VF_CHECK(x >= 0 && x == std::floor(x), "count", what << " holds " << x);
    VF_CHECK(total(b) == n, "total", what << " counts " << total(b) << " of " << n << " values");
}
// bin edges are where the number of smaller values is known exactly, up to a
// relative margin around the edge (rounding of the bin size)
void check_cumulated(Ctx &c, const Serie &b, const Array &v, double lo, double hi, uint32_t nb) {
    double mag = std::max(fabs(lo), fabs(hi)), margin = 8 * EPS * mag * 4 + 8 * EPS * (hi - lo);
    Array w = v;
    std::sort(w.begin(), w.end());
    double cum = 0;
    for (uint32_t k = 0; k + 1 < nb; ++k) {
        cum += b.asArray()[k];
        double e = lo + (hi - lo) * (double(k + 1) / nb);
        double least = double(std::lower_bound(w.begin(), w.end(), e - margin) - w.begin());
        double most = double(std::upper_bound(w.begin(), w.end(), e + margin) - w.begin());
        VF_CHECK(cum >= least && cum <= most, "bin", "bins up to " << k << " of " << nb << " hold " << cum << " values, between " << least << " and " << most << " lie below " << e);
        c.event("edges");
    }
}
} // namespace

VF_DRIVER("exact", 4000, 90000, "values and bin edges exact in binary: every count is known, values on the edges included; non-trivial: at least one value", {{"values", 100000}, {"on_edge", 10000}, {"at_start", 500}, {"at_end", 500}, {"beyond", 500}}) {
    Huge huge_(0.004);
    Rng &r = c.rng;
    uint32_t nb = r.chance(0.2) ? 1 : uint32_t(r.range(2, r.chance(0.1) ? 1000 : 40)), n = count(r, 5000);
    double size = std::ldexp(1, int(r.range(-6, 6))) * pow2(r), start = size * double(r.range(-200, 200)), stop = start + nb * size;
    if (r.chance(0.3)) { start = size * double(r.range(0, 4)); stop = start + nb * size; }
    M m{1, n, dim(r), {}};
    double beyond = r.chance(0.5) ? 0.05 : 0;
    for (uint32_t i = 0; i < n; ++i) {
        double p = r.unit(), x;
        if (p < 0.3) x = start + size * double(r.below(nb + 1));
        else if (p < 0.3 + beyond) x = stop + size * double(r.range(0, 1000)) / 16;
        else if (p < 0.5) x = start + size * double(r.below(uint64_t(nb) * 64)) / 64;
        else if (p < 0.6) x = r.chance(0.5) ? start : stop;
        else if (p < 0.7) { x = std::nextafter(start + size * double(1 + r.below(nb)), -INFINITY); }
        else x = start + size * nb * r.unit();
        m.v.push_back(std::max(x, start));
    }
    if (n && r.chance(0.05)) m.v[r.below(n)] = INFINITY;
    id(c, m);
    c.hash.u(nb);
    c.hash.d(start);
    c.desc = shape(m) + " nb=" + std::to_string(nb) + " from " + std::to_string(start) + " to " + std::to_string(stop);
    Array lo(nb, 0), hi(nb, 0);  // sure and possible counts
    double sure = 0;
    for (double x : m.v) {
        double d = x - start;  // exact unless x is a neighbour of an edge, or continuous
        double k = std::floor(d / size);
        bool exact = std::isinf(x) || (double((long double)x - start) == (long double)x - start);
        if (k >= nb) k = nb - 1;
        c.event("values");
        if (x == start) c.event("at_start");
        if (x == stop) c.event("at_end");
        if (x > stop) c.event("beyond");
        if (exact) {
            lo[uint32_t(k)]++;
            hi[uint32_t(k)]++;
            sure++;
            if (d == size * std::floor(d / size)) c.event("on_edge");
        } else {
            for (double j : {k - 1, k, k + 1}) if (j >= 0 && j < nb) hi[uint32_t(j)]++;
        }
    }
    Serie s = m.serie();
    Serie b = df::stats::bins(s, nb, start, stop);
    check_unchanged(s, m, "input-changed");
    check_counts(b, nb, n, "bins");
    for (uint32_t k = 0; k < nb; ++k)
        VF_CHECK(b.asArray()[k] >= lo[k] && b.asArray()[k] <= hi[k], "bin", "bin " << k << " of " << nb << " counts " << b.asArray()[k] << " instead of " << lo[k] << " to " << hi[k] << " (from " << start << " to " << stop << ")");
    M p = m;
    r.shuffle(p.v);
    VF_CHECK(identical(df::stats::bins(p.serie(), nb, start, stop).asArray(), b.asArray()), "order", "the bins depend on the order of the values");
}

VF_DRIVER("general", 3000, 60000, "any values and interval, with and without interval given: sums, and cumulated counts away from the edges; non-trivial: at least two values", {{"edges", 20000}, {"automatic", 1000}, {"same_value", 50}}) {
    Huge huge_(0.004);
    Rng &r = c.rng;
    uint32_t nb = r.chance(0.1) ? 1 : uint32_t(r.range(2, r.chance(0.1) ? 1000 : 40)), n = count1(r, 5000);
    M m = gen(r, 1, n, tame_kind(r), dim(r));
    if (r.chance(0.05)) for (double &x : m.v) x = m.v[0];
    if (r.chance(0.2)) for (double &x : m.v) x = x * 1e-5 + 1000;
    if (r.chance(0.1)) for (double &x : m.v) x *= 1e200;
    scale(m.v, pow2(r));
    id(c, m);
    c.hash.u(nb);
    c.nontrivial = n > 1;
    c.desc = shape(m) + " nb=" + std::to_string(nb);
    double mn = *std::min_element(m.v.begin(), m.v.end()), mx = *std::max_element(m.v.begin(), m.v.end());
    Serie s = m.serie();
    Serie b = df::stats::bins(s, nb);
    check_counts(b, nb, n, "bins");
    c.event("automatic");
    if (mn < mx) check_cumulated(c, b, m.v, mn, mx, nb);
    else c.event("same_value");
    VF_CHECK(identical(df::stats::bins(s, nb, mn, mx).asArray(), b.asArray()), "automatic", "bins without interval differ from bins between minimum and maximum");
    if (mn < mx && (mx - mn) > 1e-6 * std::max(fabs(mn), fabs(mx))) {
        if (b.asArray()[nb - 1] < 1) vf::fail("maximum", "the maximum is not in the last bin");
        if (b.asArray()[0] < 1) vf::fail("minimum", "the minimum is not in the first bin");
    }
    double start = mn - (r.chance(0.3) ? 0 : (mx - mn + 1) * r.unit()), stop = start + (mx - start + (mx == start)) * r.uni(0.3, 1.5);
    Serie g = df::stats::bins(s, nb, start, stop);
    check_counts(g, nb, n, "bins");
    check_cumulated(c, g, m.v, start, stop, nb);
    // scaling all by a power of two changes nothing
    M t = m;
    double f = std::ldexp(1, int(r.range(-20, 20)));
    for (double &x : t.v) x *= f;
    VF_CHECK(identical(df::stats::bins(t.serie(), nb, start * f, stop * f).asArray(), g.asArray()), "scaled", "the bins change when values and interval are scaled by " << f);
    check_unchanged(s, m, "input-changed");
}

VF_DRIVER("refused", 2000, 30000, "values below the start, NaN, non-scalar and empty Series, no bins; non-trivial: always", {{"below", 1000}, {"refused", 2000}, {"empty", 2000}}) {
    Rng &r = c.rng;
    uint32_t nb = uint32_t(r.range(1, 30)), n = count1(r, 300);
    M m = gen(r, 1, n, K_SMALLINT, dim(r));
    id(c, m);
    c.hash.u(nb);
    c.nontrivial = true;
    c.desc = shape(m) + " nb=" + std::to_string(nb);
    double start = -5, stop = 5;
    M w = m;
    double bad = r.chance(0.3) ? std::nextafter(start, -INFINITY) : r.chance(0.4) ? start - 0.01 : r.chance(0.5) ? -1e300 : r.chance(0.5) ? NAN : -INFINITY;
    w.v[r.chance(0.3) ? n - 1 : r.below(n)] = bad;
    Serie s = m.serie(), ws = w.serie();
    VF_CHECK(throws([&] { df::stats::bins(ws, nb, start, stop); }), "below-accepted", "bins accepted " << bad << " below the start " << start);
    check_unchanged(ws, w, "input-changed");
    c.event("below");
    VF_CHECK(!throws([&] { df::stats::bins(s, nb, start, stop); }), "refused", "bins refused values at or above the start");
    Serie o = gen(r, uint32_t(r.range(2, 9)), count(r, 50), K_SMALLINT, 3).serie();
    VF_CHECK(throws([&] { df::stats::bins(o, nb); }) && throws([&] { df::stats::bins(o, nb, start, stop); }), "shape-accepted", "bins accepted itemSize " << o.itemSize());
    VF_CHECK(throws([&] { df::stats::bins(Serie(), nb); }) && throws([&] { df::stats::bins(Serie(), nb, start, stop); }), "shape-accepted", "bins accepted an invalid Serie");
    c.event("refused", 4);
    VF_CHECK(!df::stats::bins(s, 0).isValid() && !df::stats::bins(s, 0, start, stop).isValid(), "zero-bins", "zero bins give a valid Serie");
    Serie e(1, Array{});
    check_same(df::stats::bins(e, nb), M{1, nb, 3, Array(nb, 0)}, "empty", "bins of no values");
    check_same(df::stats::bins(e, nb, start, stop), M{1, nb, 3, Array(nb, 0)}, "empty", "bins of no values");
    c.event("empty", 2);
}
VF_DRIVER("large", 2, 8, "bins of more than 2^24 or a million values, most of them in one bin; non-trivial: always", {{"binned", 15000000}}) {
    Rng &r = c.rng;
    // past the integers a float holds exactly, and past a million
    const uint32_t n = c.index % 2 ? uint32_t(r.range(1000001, 1100000)) : (1u << 24) + uint32_t(r.range(3, 999));

    c.nontrivial = true;
    c.hash.u(n);
    c.desc = std::to_string(n) + " values";
    Array v(n, 4.5);
    const uint32_t other = uint32_t(r.range(1, 5000));
    for (uint32_t i = 0; i < other; ++i) v[r.chance(0.5) ? n - 1 - i : i] = double(i % 2 * 7) + 0.25;
    Array want(8);
    for (double x : v) ++want[size_t(x)];
    const Serie b = df::stats::bins(Serie(1, v), 8, 0, 8);
    check_counts(b, 8, n, "bins");
    VF_CHECK(b.asArray() == want, "large", "the bins are " << show(b.asArray()) << " instead of " << show(want));
    c.event("binned", n);
}
VF_MAIN

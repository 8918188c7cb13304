// C20: Cartesian grids.
#include "dfh.h"
#include <dataframe/functional/geo/cartesian_grid.h>
using namespace dfh;
namespace g = df::grid::cartesian;

namespace {
double coord(Rng &r, int kind) { return kind == 0 ? double(r.range(-8, 8)) : kind == 1 ? r.uni(-100, 100) : kind == 2 ? 1e6 + r.uni(-1, 1) : r.uni(-1e-3, 1e-3); }
std::vector<uint32_t> sizes(Rng &r) {
    std::vector<uint32_t> n(1 + r.below(3));
    if (r.chance(0.004)) {  // one direction beyond 16 bits, or many points
        bool many = n.size() > 1 && r.chance(0.5);
        for (auto &k : n) k = many ? 300 / uint32_t(n.size() - 1) / 2 : uint32_t(r.range(1, 2));
        if (!many) n[r.below(n.size())] = uint32_t(r.range(65530, 70000));
        return n;
    }
    uint32_t budget = r.chance(0.05) ? 20000 : 1500;
    for (auto &k : n) {
        k = r.chance(0.15) ? 1 : r.chance(0.1) ? 2 : uint32_t(r.range(1, std::max<int64_t>(1, std::min<int64_t>(budget, r.chance(0.1) ? 1500 : 14))));
        budget = std::max<uint32_t>(1, budget / k);
    }
    r.shuffle(n);
    return n;
}
std::string text(const std::vector<uint32_t> &n) {
    std::string s;
    for (auto k : n) s += (s.empty() ? "" : "x") + std::to_string(k);
    return s;
}
// every point of the grid against its place between the corners
void check_grid(Ctx &c, const Serie &s, const std::vector<uint32_t> &npts, const Array &a, const Array &b, double extra, const char *what) {
    uint32_t n[3] = {1, 1, 1};
    std::copy(npts.begin(), npts.end(), n);
    uint32_t total = n[0] * n[1] * n[2];
    check_shape(s, 3, total, "shape", what);
    VF_CHECK(s.dimension() == 3, "shape", what << " has dimension " << s.dimension());
    uint32_t at = 0;
    for (uint32_t k = 0; k < n[2]; ++k)
        for (uint32_t j = 0; j < n[1]; ++j)
            for (uint32_t i = 0; i < n[0]; ++i, ++at) {
                uint32_t q[3] = {i, j, k};
                for (int x = 0; x < 3; ++x) {
                    double f = n[x] > 1 ? double(q[x]) / (n[x] - 1) : 0, w = double((long double)a[x] + ((long double)b[x] - a[x]) * f);
                    double tol = 16 * EPS * (fabs(a[x]) + fabs(b[x]) + extra);
                    check_near(s.asArray()[3 * at + x], w, tol, "point", std::string(what) + " " + text(npts) + ": coordinate " + std::to_string(x) + " of point " + std::to_string(at));
                }
            }
    c.event("points", total);
    if (total) for (int x = 0; x < 3; ++x) check_near(s.asArray()[x], a[x], 16 * EPS * extra, "corner", std::string(what) + ": first corner");
}
} // namespace

VF_DRIVER("from_points", 2500, 60000, "grids of 1 to 3 directions between random corners (also reversed and flat); non-trivial: more than one point", {{"points", 100000}, {"one_direction", 300}, {"two_directions", 300}, {"three_directions", 300}}) {
    Rng &r = c.rng;
    auto n = sizes(r);
    int kind = int(r.below(4));
    Array a(3), b(3);
    double f = pow2(r);
    for (int k = 0; k < 3; ++k) { a[k] = f * coord(r, kind); b[k] = r.chance(0.1) ? a[k] : f * coord(r, kind); }
    for (auto k : n) c.hash.u(k);
    c.hash.a(a);
    c.hash.a(b);
    c.desc = text(n) + " from " + show(a) + " to " + show(b);
    uint32_t total = 1;
    for (auto k : n) total *= k;
    c.nontrivial = total > 1;
    Array a0 = a, b0 = b;
    auto n0 = n;
    Serie s = g::from_points(n, a, b);
    VF_CHECK(a == a0 && b == b0 && n == n0, "input-changed", "the arguments were changed");
    check_grid(c, s, n, a, b, 0, "from_points");
    c.event(n.size() == 1 ? "one_direction" : n.size() == 2 ? "two_directions" : "three_directions");
}

VF_DRIVER("from_dims", 2500, 60000, "grids around a center, and the same by from_points; non-trivial: more than one point", {{"points", 100000}, {"defaults", 200}}) {
    Rng &r = c.rng;
    auto n = sizes(r);
    int kind = int(r.below(4));
    Array m(3), d(3), a(3), b(3);
    for (int k = 0; k < 3; ++k) { m[k] = coord(r, kind); d[k] = r.chance(0.1) ? 0 : r.chance(0.2) ? coord(r, kind) : fabs(coord(r, int(r.below(4)))); }
    double f = pow2(r);
    scale(m, f);
    scale(d, f);
    bool dflt = r.chance(0.1);
    if (dflt) { m = {0, 0, 0}; d = {1, 1, 1}; }
    double extra = 0;
    for (int k = 0; k < 3; ++k) { a[k] = m[k] - d[k] / 2; b[k] = m[k] + d[k] / 2; extra = std::max(extra, fabs(m[k]) + fabs(d[k])); }
    for (auto k : n) c.hash.u(k);
    c.hash.a(m);
    c.hash.a(d);
    c.desc = text(n) + " around " + show(m) + " dims " + show(d);
    uint32_t total = 1;
    for (auto k : n) total *= k;
    c.nontrivial = total > 1;
    Serie s = dflt ? g::from_dims(n) : g::from_dims(n, m, d);
    if (dflt) c.event("defaults");
    check_grid(c, s, n, a, b, extra, "from_dims");
    Serie p = g::from_points(n, a, b);
    check_shape(p, 3, s.count(), "agree", "from_points");
    for (size_t i = 0; i < p.asArray().size(); ++i) check_near(s.asArray()[i], p.asArray()[i], 16 * EPS * extra, "agree", "from_dims and from_points");
}

VF_DRIVER("refused", 1000, 10000, "no or too many directions, corners that are not 3D, directions with no point; non-trivial: always", {{"refused", 5000}, {"empty", 1000}}) {
    Rng &r = c.rng;
    std::vector<uint32_t> n = sizes(r), four(4 + r.below(4), 2);
    Array a(3, 0), b(3, 1), bad(r.chance(0.5) ? r.below(3) : 4 + r.below(5), 1);
    for (auto k : n) c.hash.u(k);
    c.hash.a(bad);
    c.nontrivial = true;
    c.desc = text(n) + " with corners of size " + std::to_string(bad.size());
    VF_CHECK(throws([&] { g::from_points({}, a, b); }) && throws([&] { g::from_dims(std::vector<uint32_t>{}); }), "no-direction", "no direction was accepted");
    VF_CHECK(throws([&] { g::from_points(four, a, b); }) && throws([&] { g::from_dims(four, a, b); }), "too-many", four.size() << " directions were accepted");
    VF_CHECK(throws([&] { g::from_points(n, bad, b); }) && throws([&] { g::from_points(n, a, bad); }) && throws([&] { g::from_dims(n, bad, b); }) && throws([&] { g::from_dims(n, a, bad); }), "corner", "a corner of " << bad.size() << " coordinates was accepted");
    c.event("refused", 8);
    n[r.below(n.size())] = 0;
    check_shape(g::from_points(n, a, b), 3, 0, "empty", "a grid without points");
    check_shape(g::from_dims(n, a, b), 3, 0, "empty", "a grid without points");
    c.event("empty", 2);
}
VF_MAIN

// C19: mesh normals, areas and valences.
#include "mgr.h"
#include <dataframe/functional/geo/areas.h>
#include <dataframe/functional/geo/normals.h>
#include <numeric>
using namespace dfh;
using LD = long double;

namespace {
struct Mesh {
    M p, t;
    double f = 1;  // the coordinates are multiples of f / 64
};
// grids, fans and soups; coordinates integral (exact), dyadic or any
Mesh make(Rng &r, bool exact) {
    Mesh m;
    uint32_t n = uint32_t(r.range(3, r.chance(0.05) ? 3000 : 60)), nt = r.chance(0.05) ? uint32_t(r.range(2000, 6000)) : uint32_t(r.range(1, 120));
    if (r.chance(0.0015)) { n = uint32_t(r.range(60000, 140000)); nt = uint32_t(r.range(60000, 140000)); }
    if (r.chance(0.15)) n = uint32_t(r.range(1, 3));
    m.p = gen(r, 3, n, exact ? (r.chance(0.5) ? K_SMALLINT : K_DYADIC) : K_UNI, dim(r));
    scale(m.p.v, m.f = pow2(r));
    m.t = M{3, 0, dim(r), {}};
    int kind = int(r.below(4));
    for (uint32_t i = 0; i < nt; ++i) {
        Array a;
        if (kind == 0) for (int k = 0; k < 3; ++k) a.push_back(double(r.below(n)));
        else if (kind == 1) a = {0, double(i % n), double((i + 1) % n)};
        else if (kind == 2) a = {double(i % n), double((i + 1) % n), double((i + 2) % n)};
        else { uint32_t b = uint32_t(r.below(n)); a = {double(b), double((b + r.below(3)) % n), double(n - 1 - r.below(std::min<uint32_t>(n, 3)))}; }
        m.t.push(a);
    }
    return m;
}
const double *pt(const M &p, double i) { return &p.v[size_t(i) * 3]; }
// normal of one triangle and a bound on rounding
void ref_normal(const Mesh &m, uint32_t i, LD w[3], LD tol[3]) {
    const double *a = pt(m.p, m.t.v[3 * i]), *b = pt(m.p, m.t.v[3 * i + 1]), *c = pt(m.p, m.t.v[3 * i + 2]);
    LD u[3], v[3], mu[3], mv[3];
    for (int k = 0; k < 3; ++k) {
        u[k] = LD(b[k]) - a[k];
        v[k] = LD(c[k]) - a[k];
        mu[k] = fabsl(b[k]) + fabsl(a[k]);
        mv[k] = fabsl(c[k]) + fabsl(a[k]);
    }
    for (int k = 0; k < 3; ++k) {
        int p = (k + 1) % 3, q = (k + 2) % 3;
        w[k] = u[p] * v[q] - u[q] * v[p];
        tol[k] = 8 * EPS * (mu[p] * mv[q] + mu[q] * mv[p]);
    }
}
void ident(Ctx &c, const Mesh &m) {
    id(c, m.p);
    id(c, m.t);
    c.desc = std::to_string(m.p.n) + " nodes, " + std::to_string(m.t.n) + " triangles " + show(m.t.v, 6);
}
} // namespace

VF_DRIVER("normals_areas", 3000, 60000, "normals and areas of every triangle against the definition, by function and by decomposer; non-trivial: a triangle that is not degenerate", {{"triangles", 100000}, {"exact", 30000}, {"degenerate", 1000}}) {
    Rng &r = c.rng;
    bool exact = r.chance(0.5);
    Mesh m = make(r, exact);
    ident(c, m);
    c.nontrivial = false;
    Serie P = m.p.serie(), T = m.t.serie();
    Serie n = df::geo::normals(P, T), a = df::geo::areas(P, T);
    check_unchanged(P, m.p, "input-changed", "positions");
    check_unchanged(T, m.t, "input-changed", "indices");
    check_shape(n, 3, m.t.n, "shape", "normals");
    check_shape(a, 1, m.t.n, "shape", "areas");
    for (uint32_t i = 0; i < m.t.n; ++i) {
        LD w[3], tol[3], len = 0, tl = 0;
        ref_normal(m, i, w, tol);
        for (int k = 0; k < 3; ++k) {
            double g = n.asArray()[3 * i + k];
            if (exact) VF_CHECK(g == double(w[k]), "normal", "component " << k << " of the normal of triangle " << i << " is " << g << " instead of " << double(w[k]));
            else check_near(g, double(w[k]), double(tol[k]), "normal", "component " + std::to_string(k) + " of the normal of triangle " + std::to_string(i));
            len += w[k] * w[k];
            tl += tol[k];
        }
        len = sqrtl(len);
        check_near(a.asArray()[i], double(len / 2), double(4 * EPS * len + tl), "area", "area of triangle " + std::to_string(i));
        VF_CHECK(a.asArray()[i] >= 0, "area", "area " << a.asArray()[i]);
        if (len > 0) c.nontrivial = true;
        else c.event("degenerate");
        c.event("triangles");
        if (exact) c.event("exact");
    }
    df::Dataframe d;
    d.add("positions", P);
    d.add("indices", T);
    d.add("attribute", gen(r, 1, m.p.n, K_UNI).serie());
    VF_CHECK(identical(df::Normals("nn").serie(d, 3, "nn").asArray(), n.asArray()), "decomposer", "the decomposer Normals disagrees with normals");
    VF_CHECK(identical(df::Area("aa").serie(d, 1, "aa").asArray(), a.asArray()), "decomposer", "the decomposer Area disagrees with areas");
    df::Manager mng(d, {new df::Normals, new df::Area, new df::Valence});
    Serie mn = mng.serie(3, "normals"), ma = mng.serie(1, "area");
    VF_CHECK(mn.itemSize() == 3 && identical(mn.asArray(), n.asArray()) && ma.itemSize() == 1 && identical(ma.asArray(), a.asArray()), "decomposer", "the Manager disagrees with normals and areas");
}

VF_DRIVER("invariance", 2000, 40000, "translation, scaling, cyclic renumbering of triangles, exchange of two nodes, permutation of nodes and of triangles; non-trivial: always", {{"relations", 8000}}) {
    Rng &r = c.rng;
    Mesh m = make(r, true);
    ident(c, m);
    Serie n = df::geo::normals(m.p.serie(), m.t.serie()), a = df::geo::areas(m.p.serie(), m.t.serie());
    auto both = [&](const Mesh &o, const char *what, double sign, double f, const std::vector<uint32_t> *perm = nullptr) {
        Serie n2 = df::geo::normals(o.p.serie(), o.t.serie()), a2 = df::geo::areas(o.p.serie(), o.t.serie());
        check_shape(n2, 3, m.t.n, what);
        for (uint32_t i = 0; i < m.t.n; ++i) {
            uint32_t j = perm ? (*perm)[i] : i;
            for (int k = 0; k < 3; ++k)
                VF_CHECK(n2.asArray()[3 * i + k] == sign * f * n.asArray()[3 * j + k], std::string("normal-") + what, what << ": normal of triangle " << i << " is " << n2.asArray()[3 * i + k] << " instead of " << sign * f * n.asArray()[3 * j + k]);
            check_near(a2.asArray()[i], f * a.asArray()[j], 4 * EPS * f * a.asArray()[j], std::string("area-") + what, std::string(what) + ": area");
        }
        c.event("relations");
    };
    Mesh o = m;
    int64_t far = r.chance(0.3) ? int64_t(1) << 20 : r.chance(0.3) ? int64_t(1) << 40 : 64;  // still exact
    double dx[3] = {m.f * double(r.range(-far, far)), m.f * double(r.range(-far, far)), m.f * double(r.range(-far, far))};
    for (size_t i = 0; i < o.p.v.size(); ++i) o.p.v[i] += dx[i % 3];
    both(o, "translated", 1, 1);
    o = m;
    for (double &x : o.p.v) x *= 4;
    both(o, "scaled", 1, 16);
    o = m;
    for (uint32_t i = 0; i < m.t.n; ++i) std::rotate(o.t.v.begin() + 3 * i, o.t.v.begin() + 3 * i + 1 + r.below(2), o.t.v.begin() + 3 * i + 3);
    both(o, "renumbered", 1, 1);
    o = m;
    for (uint32_t i = 0; i < m.t.n; ++i) {
        size_t k = r.below(3);
        std::swap(o.t.v[3 * i + k], o.t.v[3 * i + (k + 1) % 3]);
    }
    both(o, "exchanged", -1, 1);
    std::vector<uint32_t> q(m.p.n), t(m.t.n);
    std::iota(q.begin(), q.end(), 0u);
    std::iota(t.begin(), t.end(), 0u);
    r.shuffle(q);
    r.shuffle(t);
    o = m;
    for (uint32_t i = 0; i < m.p.n; ++i) std::copy_n(m.p.v.begin() + 3 * i, 3, o.p.v.begin() + 3 * q[i]);
    for (double &x : o.t.v) x = q[size_t(x)];
    both(o, "nodes permuted", 1, 1);
    o = m;
    for (uint32_t i = 0; i < m.t.n; ++i) std::copy_n(m.t.v.begin() + 3 * t[i], 3, o.t.v.begin() + 3 * i);
    both(o, "triangles permuted", 1, 1, &t);
    // rotation by a Pythagorean angle, areas to rounding
    o = m;
    double cs = 0.6, sn = 0.8;
    for (uint32_t i = 0; i < m.p.n; ++i) {
        double x = m.p.v[3 * i], y = m.p.v[3 * i + 1];
        o.p.v[3 * i] = cs * x - sn * y;
        o.p.v[3 * i + 1] = sn * x + cs * y;
    }
    Serie a2 = df::geo::areas(o.p.serie(), o.t.serie());
    for (uint32_t i = 0; i < m.t.n; ++i) check_near(a2.asArray()[i], a.asArray()[i], 1e-11 * (a.asArray()[i] + 1e4 * m.f * m.f), "area-rotated", "area of a rotated triangle");
    c.event("relations");
}

VF_DRIVER("valence", 3000, 60000, "valence of every node, their sum, isolated nodes; non-trivial: always", {{"nodes", 50000}, {"isolated", 2000}}) {
    Rng &r = c.rng;
    Mesh m = make(r, true);
    ident(c, m);
    df::Dataframe d;
    d.add("positions", m.p.serie());
    d.add("indices", m.t.serie());
    Array w(m.p.n, 0);
    for (double x : m.t.v) w[size_t(x)]++;
    df::Valence v("v");
    Serie s = v.serie(d, 1, "v");
    check_same(s, M{1, m.p.n, 3, w}, "valence", "the valence");
    VF_CHECK(std::accumulate(s.asArray().begin(), s.asArray().end(), 0.0) == 3.0 * m.t.n, "sum", "the valences do not sum to three times the triangles");
    for (double x : w) if (x == 0) c.event("isolated");
    c.event("nodes", m.p.n);
    VF_CHECK(!v.serie(d, 1, "val").isValid(), "name", "the valence answers for another name");
    df::Manager mng(d, {new df::Valence});
    VF_CHECK(identical(mng.serie(1, "val").asArray(), w), "valence", "through the Manager");
    check_unchanged(d["indices"], m.t, "input-changed", "indices");
}

VF_DRIVER("refused", 2000, 40000, "indices beyond the positions, wrong itemSizes, missing Series; non-trivial: always", {{"beyond", 2000}, {"shapes", 1000}}) {
    Rng &r = c.rng;
    Mesh m = make(r, true);
    static const double wild[] = {4294967295.0, 1e9, 4294967296.0, 4294967297.0, 8589934592.0, 1e300, -1, -2, -4294967296.0, -1e300,
                                  std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()};
    double bad = r.chance(0.4) ? m.p.n : r.chance(0.4) ? m.p.n + double(r.below(1000)) : wild[r.below(13)];
    m.t.v[r.chance(0.3) ? m.t.v.size() - 1 : r.below(m.t.v.size())] = bad;
    ident(c, m);
    Serie P = m.p.serie(), T = m.t.serie();
    df::Dataframe d;
    d.add("positions", P);
    d.add("indices", T);
    VF_CHECK(throws([&] { df::geo::normals(P, T); }), "normals-accepted", "normals accepted index " << bad << " for " << m.p.n << " positions");
    VF_CHECK(throws([&] { df::geo::areas(P, T); }), "areas-accepted", "areas accepted index " << bad << " for " << m.p.n << " positions");
    VF_CHECK(throws([&] { df::Valence("v").serie(d, 1, "v"); }), "valence-accepted", "Valence accepted index " << bad << " for " << m.p.n << " positions");
    VF_CHECK(throws([&] { df::Normals("v").serie(d, 3, "v"); }) && throws([&] { df::Area("v").serie(d, 1, "v"); }), "decomposer-accepted", "a decomposer accepted index " << bad);
    c.event("beyond", 5);
    uint32_t is = std::vector<uint32_t>{1, 2, 4, 6}[r.below(4)];
    M o{is, m.t.n, 3, Array(size_t(is) * m.t.n, 0)};
    Serie O = o.serie();
    VF_CHECK(refused([&] { return df::geo::normals(P, O); }) && refused([&] { return df::geo::areas(P, O); }), "shape", "polygons with " << is << " nodes were accepted");
    M z{3, 1, 3, Array(3, 0)};
    VF_CHECK(refused([&] { return df::geo::normals(O, z.serie()); }) && refused([&] { return df::geo::areas(O, z.serie()); }), "shape", "positions of itemSize " << is << " were accepted");
    VF_CHECK(refused([&] { return df::geo::normals(Serie(), z.serie()); }) && refused([&] { return df::geo::areas(P, Serie()); }), "shape", "an invalid Serie was accepted");
    d.set("indices", O);
    VF_CHECK(refused([&] { return df::Valence("v").serie(d, 1, "v"); }), "shape", "Valence accepted polygons with " << is << " nodes");
    d.del("indices");
    VF_CHECK(refused([&] { return df::Valence("v").serie(d, 1, "v"); }) && refused([&] { return df::Normals("v").serie(d, 3, "v"); }) && refused([&] { return df::Area("v").serie(d, 1, "v"); }), "missing", "a mesh decomposer works without indices");
    c.event("shapes");
}
VF_MAIN

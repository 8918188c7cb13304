// C11: dot, cross, norm, norm2 and normalize against their definitions.
#include "dfh.h"
#include <dataframe/functional/algebra/cross.h>
#include <dataframe/functional/algebra/dot.h>
#include <dataframe/functional/algebra/norm.h>
#include <dataframe/functional/math/normalize.h>
using namespace dfh;
using LD = long double;
namespace al = df::algebra;

namespace {
// finite, squares neither overflow nor underflow
double vec_value(Rng &r, int kind) {
    switch (kind) {
    case 0: return double(r.range(-5, 5));
    case 1: return r.uni(-10, 10);
    case 2: return std::ldexp(r.uni(1, 2), int(r.range(-200, 200))) * (r.chance(0.5) ? 1 : -1);
    case 3: return r.chance(0.5) ? 0.0 : r.uni(-1, 1);
    case 4: return r.uni(-1, 1) * 1e100;
    case 5: return r.uni(-1, 1) * 1e-139;
    default: return r.uni(-1, 1) * 1e145;
    }
}
M vectors(Rng &r, uint32_t is, uint32_t n, unsigned d) {
    M m{is, 0, d, {}};
    int kind = int(r.below(7));
    for (uint32_t i = 0; i < n; ++i) {
        if (r.chance(0.2)) kind = int(r.below(7));
        Array a(is);
        for (double &x : a) x = vec_value(r, kind);
        if (r.chance(0.1)) for (double &x : a) if (r.chance(0.7)) x = 0;
        if (r.chance(0.08)) {  // of length 1, or nearly
            LD q = 0;
            for (double x : a) q += LD(x) * x;
            if (q > 0) {
                const LD f = (1 + std::ldexp(r.uni(-1, 1), -int(r.range(0, 52)))) / sqrtl(q);
                for (double &x : a) x = double(x * f);
            }
        }
        m.push(a);
    }
    return m;
}
// mostly small; sometimes around the sizes where narrow counters wrap
uint32_t vec_size(Rng &r) {
    if (r.chance(0.96)) return uint32_t(r.range(2, 20));
    return r.chance(0.5) ? uint32_t(r.range(21, 140)) : uint32_t(r.range(250, 520));
}
// the message is made only when needed
#define near(got_, want_, tol_, key, what)                                                                                     \
    do {                                                                                                                       \
        const double g_ = got_;                                                                                                   \
        const LD w_ = want_, t_ = tol_;                                                                                        \
        VF_CHECK(std::isfinite(double(g_)) && fabsl(g_ - w_) <= t_, key,                                                       \
                 what << ": got " << double(g_) << " expected " << double(w_) << " (tolerance " << double(t_) << ")");         \
    } while (0)
} // namespace

VF_DRIVER("dot", 3000, 80000, "dot of two Series and of a Serie with an Array, norm and norm2; non-trivial: at least one item", {{"dots", 20000}, {"norms", 20000}, {"refused", 500}}) {
    Huge huge_(0.004);
    Rng &r = c.rng;
    uint32_t is = r.chance(0.2) ? 1 : vec_size(r), n = is > 20 ? uint32_t(r.below(20)) : count(r, 2000);
    M a = vectors(r, is, n, dim(r)), b = vectors(r, is, n, a.dim);
    bool twice = r.chance(0.1);
    if (twice) b = a;
    else if (r.chance(0.2)) b.v = a.v;  // parallel
    else if (r.chance(0.15)) for (uint32_t i = 0; i < n; ++i) for (uint32_t k = 0; k < is; ++k) if (k % 2) b.v[i * is + k] = 0; else a.v[i * is + k] = 0;  // orthogonal
    Serie A = a.serie(), B_ = b.serie();
    const Serie &B = twice ? A : B_;
    id(c, a);
    id(c, b);
    c.desc = shape(a);
    Serie ab = al::dot(A, B), ba = al::dot(B, A), n2 = al::norm2(A), nn = al::norm(A);
    Array w(is);
    for (double &x : w) x = vec_value(r, int(r.below(7)));
    Serie aw = al::dot(A, w);
    for (const Serie *s : {&ab, &ba, &aw, &n2, &nn}) VF_CHECK(s->count() == n && (n == 0 || s->itemSize() == 1) && s->asArray().size() == n, "shape", "dot or norm of " << n << " items gave " << show(*s));
    for (uint32_t i = 0; i < n; ++i) {
        LD d = 0, g = 0, q = 0, e = 0, h = 0;
        for (uint32_t k = 0; k < is; ++k) {
            LD x = a.v[size_t(i) * is + k], y = b.v[size_t(i) * is + k];
            d += x * y;
            g += fabsl(x * y);
            q += x * x;
            e += x * w[k];
            h += fabsl(x * w[k]);
        }
#define at " of item " << i << " of " << n << ": " << show(a.item(i)) << " and " << show(b.item(i))
        LD f = 2 * (is + 4) * EPS;
        near(ab.scalar(i), d, f * g, "dot", "dot" << at);
        near(ba.scalar(i), d, f * g, "dot", "reversed dot" << at);
        near(ab.scalar(i), ba.scalar(i), f * g, "symmetry", "dot" << at);
        near(aw.scalar(i), e, f * h, "dot-array", "dot with " << show(w) << at);
        near(n2.scalar(i), q, f * q, "norm2", "norm2" << at);
        near(nn.scalar(i), sqrtl(q), f * sqrtl(q), "norm", "norm" << at);
        VF_CHECK(nn.scalar(i) >= 0 && n2.scalar(i) >= 0, "norm", "negative norm" << at);
#undef at
        c.event("dots", 3);
        c.event("norms", 2);
    }
    check_unchanged(A, a, "input-changed");
    check_unchanged(B, b, "input-changed");
    // refusals
    Serie other = gen(r, is + 1, n, K_UNI, 3).serie();
    VF_CHECK(refused([&] { return al::dot(A, other); }) && refused([&] { return al::dot(other, A); }), "accepted", "dot accepted item sizes " << is << " and " << is + 1);
    Serie longer = gen(r, is, n + 1, K_UNI, 3).serie();
    VF_CHECK(refused([&] { return al::dot(A, longer); }) && refused([&] { return al::dot(longer, A); }), "accepted", "dot accepted counts " << n << " and " << n + 1);
    Array w2 = w;
    w2.push_back(1);
    VF_CHECK(refused([&] { return al::dot(A, w2); }), "accepted", "dot accepted an Array of " << is + 1 << " for items of " << is);
    c.event("refused", 5);
}

VF_DRIVER("cross", 2500, 60000, "cross products of 3D vectors: definition, orthogonality, length, antisymmetry; non-trivial: at least one item", {{"crosses", 20000}, {"refused", 500}}) {
    Huge huge_(0.004);
    Rng &r = c.rng;
    uint32_t n = count(r, 2000);
    M a = vectors(r, 3, n, dim(r)), b = vectors(r, 3, n, a.dim);
    for (uint32_t i = 0; i < n; ++i)
        if (r.chance(0.15)) {  // parallel, or nearly so
            double f = double(r.range(-3, 3));
            for (int k = 0; k < 3; ++k) b.v[3 * i + k] = f * a.v[3 * i + k];
            if (r.chance(0.6)) b.v[3 * i + r.below(3)] *= 1 + std::ldexp(r.chance(0.5) ? 1.0 : -1.0, -int(r.range(1, 51)));
        }
    bool twice = r.chance(0.1);
    if (twice) b = a;
    Serie A = a.serie(), B_ = b.serie();
    const Serie &B = twice ? A : B_;
    id(c, a);
    id(c, b);
    c.desc = shape(a);
    Serie x = al::cross(A, B), y = al::cross(B, A);
    VF_CHECK(x.count() == n && y.count() == n && (n == 0 || (x.itemSize() == 3 && y.itemSize() == 3)), "shape", "cross gave " << show(x));
    for (uint32_t i = 0; i < n; ++i) {
        const double *p = &a.v[3 * i], *q = &b.v[3 * i];
        Array g = x.value(i), h = y.value(i);
        LD d = 0, dm = 0, e = 0, em = 0, na = 0, nb = 0, ng = 0, pq = 0;
        for (int k = 0; k < 3; ++k) {
            int u = (k + 1) % 3, v = (k + 2) % 3;
            LD t1 = LD(p[u]) * q[v], t2 = LD(p[v]) * q[u], tol = 4 * EPS * (fabsl(t1) + fabsl(t2));
            near(g[k], t1 - t2, tol, "cross", "component " + std::to_string(k) + " of item " + std::to_string(i) + ", " + show(a.item(i)) + " x " + show(b.item(i)));
            near(h[k], t2 - t1, tol, "antisymmetry", "component " + std::to_string(k) + " of the reversed product, item " + std::to_string(i));
            d += LD(g[k]) * p[k];
            e += LD(g[k]) * q[k];
            dm += (fabsl(t1) + fabsl(t2)) * fabsl(p[k]);
            em += (fabsl(t1) + fabsl(t2)) * fabsl(q[k]);
            na += LD(p[k]) * p[k];
            nb += LD(q[k]) * q[k];
            ng += LD(g[k]) * g[k];
            pq += LD(p[k]) * q[k];
        }
        VF_CHECK(fabsl(d) <= 16 * EPS * dm && fabsl(e) <= 16 * EPS * em, "orthogonal", "the cross product of item " << i << " is not orthogonal to its operands");
        VF_CHECK(fabsl(ng - (na * nb - pq * pq)) <= 64 * EPS * na * nb, "length", "the length of the cross product of item " << i << " is wrong");
        c.event("crosses");
    }
    check_unchanged(A, a, "input-changed");
    check_unchanged(B, b, "input-changed");
    for (uint32_t is : {1u, 2u, 4u, 6u}) {
        Serie o = gen(r, is, n, K_UNI, 3).serie();
        VF_CHECK(refused([&] { return al::cross(A, o); }) && refused([&] { return al::cross(o, A); }), "accepted", "cross accepted itemSize " << is);
    }
    Serie longer = gen(r, 3, n + 1, K_UNI, 3).serie();
    VF_CHECK(refused([&] { return al::cross(A, longer); }) && refused([&] { return al::cross(longer, A); }), "accepted", "cross accepted counts " << n << " and " << n + 1);
    c.event("refused", 10);
}

VF_DRIVER("infinite", 1200, 25000, "dot, norm and cross of vectors with infinite or NaN components: each result is the finite, infinite or NaN value its definition gives; non-trivial: at least one item", {{"special", 3000}}) {
    Rng &r = c.rng;
    uint32_t is = r.chance(0.5) ? 3 : r.chance(0.2) ? 1 : size_between(r, 2, 12), n = r.chance(0.5) ? uint32_t(r.range(1, 8)) : fewer(is, count(r, 80));
    auto vectors3 = [&](unsigned d) {
        M m{is, n, d, Array(size_t(is) * n)};
        for (double &x : m.v) x = r.chance(0.2) ? INFINITY * (r.chance(0.5) ? 1 : -1) : r.chance(0.05) ? NAN : double(r.range(-3, 3));
        return m;
    };
    M a = vectors3(dim(r)), b = vectors3(a.dim);
    for (uint32_t i = 0; i < n; ++i)  // the same, opposite or nearly the same vector
        if (r.chance(0.3)) {
            const double f = r.chance(0.5) ? 1 : double(r.range(-2, 2));
            for (uint32_t k = 0; k < is; ++k) if (!r.chance(0.1)) b.v[i * is + k] = f * a.v[i * is + k];
        }
    id(c, a);
    id(c, b);
    c.desc = shape(a) + " " + show(a.v, 6);
    Serie A = a.serie(), B = b.serie();
    Serie ab = al::dot(A, B), n2 = al::norm2(A), nn = al::norm(A), x;
    if (is == 3) x = al::cross(A, B);
    auto like = [&](double got, double want, const char *what, uint32_t i) {
        VF_CHECK(std::isnan(want) ? std::isnan(got) : got == want || std::fabs(got - want) <= 1e-12 * std::fabs(want), "infinite",
                 what << " of item " << i << ", " << show(a.item(i)) << " and " << show(b.item(i)) << ", is " << got << " instead of " << want);
        if (!std::isfinite(want)) c.event("special");
    };
    for (uint32_t i = 0; i < n; ++i) {
        double d = 0, q = 0;
        const double *p = &a.v[i * is], *o = &b.v[i * is];
        for (uint32_t k = 0; k < is; ++k) { d += p[k] * o[k]; q += p[k] * p[k]; }
        like(ab.scalar(i), d, "dot", i);
        like(n2.scalar(i), q, "norm2", i);
        like(nn.scalar(i), std::sqrt(q), "norm", i);
        if (is == 3)
            for (uint32_t k = 0; k < 3; ++k) {
                const uint32_t u = (k + 1) % 3, v = (k + 2) % 3;
                like(x.value(i)[k], p[u] * o[v] - p[v] * o[u], "a component of cross", i);
            }
    }
}

VF_DRIVER("normalize", 2500, 60000, "normalize of vector Series (unit length, same direction) and of scalar Series (minimum to 0, maximum to 1, affine); non-trivial: at least one item", {{"unit", 10000}, {"affine", 10000}}) {
    Huge huge_(0.004);
    Rng &r = c.rng;
    bool scalar = r.chance(0.4);
    uint32_t is = scalar ? 1 : vec_size(r), n = is > 20 ? uint32_t(r.below(20)) : count(r, 4000);
    M m = scalar ? gen(r, 1, n, tame_kind(r), dim(r)) : vectors(r, is, n, dim(r));
    if (scalar && r.chance(0.3)) { double sh = r.uni(-1000, 1000) * pow2(r, 30); for (double &x : m.v) x += sh; }
    if (scalar && n > 1) {  // extremes at chosen places
        if (r.chance(0.4)) m.v[r.chance(0.5) ? 0 : n - 1] = r.chance(0.5) ? 5000 : -5000;
    }
    if (scalar) scale(m.v, pow2(r));
    id(c, m);
    c.desc = shape(m);
    Serie s = m.serie();
    Serie o = df::math::normalize(s);
    check_unchanged(s, m, "input-changed");
    VF_CHECK(o.count() == n && (n == 0 || o.itemSize() == is), "shape", "normalize gave " << show(o));
    if (scalar) {
        if (n == 0) return;
        auto [lo, hi] = std::minmax_element(m.v.begin(), m.v.end());
        LD a = *lo, b = *hi;
        if (a == b) return;  // no affine map
        for (uint32_t i = 0; i < n; ++i) {
            LD w = (LD(m.v[i]) - a) / (b - a);
            near(o.scalar(i), w, 8 * EPS * (fabsl(w) + (fabsl(a) + fabsl(LD(m.v[i]))) / (b - a) * 0.5L), "affine", "normalized value " + std::to_string(i) + " of " + std::to_string(m.v[i]));
            if (m.v[i] == *lo) VF_CHECK(o.scalar(i) == 0, "affine", "the minimum became " << o.scalar(i));
            c.event("affine");
        }
    } else
        for (uint32_t i = 0; i < n; ++i) {
            LD q = 0;
            for (uint32_t k = 0; k < is; ++k) q += LD(m.v[size_t(i) * is + k]) * m.v[size_t(i) * is + k];
            if (q == 0) continue;
            q = sqrtl(q);
            LD len = 0;
            for (uint32_t k = 0; k < is; ++k) {
                double g = o.asArray()[size_t(i) * is + k];
                near(g, m.v[size_t(i) * is + k] / q, 2 * (is + 4) * EPS * fabsl(m.v[size_t(i) * is + k] / q) + 1e-300L, "direction", "component " + std::to_string(k) + " of normalized item " + std::to_string(i) + " " + show(m.item(i)));
                len += LD(g) * g;
            }
            VF_CHECK(fabsl(sqrtl(len) - 1) <= 2 * (is + 4) * EPS, "unit", "normalized item " << i << " has length " << double(sqrtl(len)));
            c.event("unit");
        }
}
VF_MAIN

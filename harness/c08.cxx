// C08: det, inv and transpose against long double linear algebra.
#include "dfh.h"
#include <dataframe/functional/algebra/det.h>
#include <dataframe/functional/algebra/inv.h>
#include <dataframe/functional/algebra/transpose.h>
using namespace dfh;
using LD = long double;

namespace {
struct Mat {
    int n;
    LD a[3][3];
    double at(int i, int j) const { return double(a[i][j]); }
};
// a random matrix in full form
Mat gen_mat(Rng &r, int n, bool sym) {
    Mat m{n, {}};
    auto rot = [&](Mat &q) {
        // composed Givens rotations
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) q.a[i][j] = i == j;
        for (int k = 0; k < (n == 2 ? 1 : 3); ++k) {
            int x = n == 2 ? 0 : k == 2 ? 1 : 0, y = n == 2 ? 1 : k == 0 ? 1 : 2;
            double t = r.uni(-3.2, 3.2);
            LD cs = cosl(t), sn = sinl(t);
            for (int j = 0; j < 3; ++j) { LD u = q.a[x][j], v = q.a[y][j]; q.a[x][j] = cs * u - sn * v; q.a[y][j] = sn * u + cs * v; }
        }
    };
    switch (r.below(10)) {
    case 0: for (int i = 0; i < n; ++i) m.a[i][i] = r.uni(-5, 5); break;  // diagonal
    case 1: {  // permutation with signs
        std::vector<int> p{0, 1, 2};
        p.resize(n);
        r.shuffle(p);
        for (int i = 0; i < n; ++i) m.a[i][p[i]] = r.chance(0.5) ? 1 : -1;
        if (sym) for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) m.a[i][j] = m.a[j][i];
        break;
    }
    case 2: for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) m.a[i][j] = r.uni(-5, 5); break;  // triangular
    case 3: rot(m); break;
    case 4: {  // badly scaled
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m.a[i][j] = r.uni(-1, 1);
        for (int i = 0; i < n; ++i) { LD s = powl(10, r.range(-4, 6)); for (int j = 0; j < n; ++j) m.a[i][j] *= s; }
        // rows and columns of very different magnitudes, the determinant stays of order 1
        if (r.chance(0.5)) {
            LD w[3], v[3];
            int a = int(r.range(-9, 9)), b = int(r.range(-9, 9));
            LD pw[3] = {powl(10, a), powl(10, b), powl(10, -a - b)}, pv[3] = {powl(10, b), powl(10, -a), powl(10, a - b)};
            if (n == 2) { pw[1] = 1 / pw[0]; pv[1] = 1 / pv[0]; }
            for (int i = 0; i < 3; ++i) { w[i] = pw[i]; v[i] = r.chance(0.5) ? pv[i] : 1; }
            if (sym) for (int i = 0; i < 3; ++i) v[i] = w[i];
            for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m.a[i][j] = r.uni(0.5, 1) * (r.chance(0.5) ? 1 : -1) * w[i] * v[j];
        }
        break;
    }
    case 5: for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m.a[i][j] = r.range(-6, 6); break;
    case 6: {  // one zero row or a pair of equal entries
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m.a[i][j] = r.uni(-3, 3);
        m.a[r.below(n)][r.below(n)] = 0;
        m.a[r.below(n)][r.below(n)] = 1;
        break;
    }
    case 8: {  // nearly symmetric, diagonal, singular, integral, orthogonal: a special matrix with small perturbations
        LD s = powl(10, r.range(-3, 3)), e = powl(10, r.range(-15, -4));
        int kind = int(r.below(5));
        if (kind == 4) rot(m);
        else for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
            m.a[i][j] = kind == 0 ? (j < i ? m.a[j][i] : s * r.uni(-3, 3)) : kind == 1 ? (i == j ? s * r.uni(-3, 3) : 0)
                      : kind == 2 ? (i == n - 1 ? m.a[0][j] : s * r.uni(-3, 3)) : LD(r.range(-5, 5));
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (r.chance(0.7)) m.a[i][j] += (r.chance(0.5) ? s : 1) * e * r.uni(-1, 1);
        break;
    }
    case 7: { LD s = powl(10, r.range(-3, 30)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m.a[i][j] = s * r.uni(-1, 1); break; }
    default: for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m.a[i][j] = r.uni(-10, 10);
    }
    if (sym) for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) m.a[i][j] = m.a[j][i];
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m.a[i][j] = double(m.a[i][j]);  // exactly as stored
    return m;
}
Array store(const Mat &m, bool sym) {
    Array a;
    for (int i = 0; i < m.n; ++i) for (int j = sym ? i : 0; j < m.n; ++j) a.push_back(m.at(i, j));
    return a;
}
Mat load(const Array &a, int n, bool sym) {
    Mat m{n, {}};
    size_t k = 0;
    for (int i = 0; i < n; ++i) for (int j = sym ? i : 0; j < n; ++j) { m.a[i][j] = a[k++]; if (sym) m.a[j][i] = m.a[i][j]; }
    return m;
}
LD det_ref(const Mat &m, LD *mag = nullptr) {
    LD d = 0, s = 0;
    auto add = [&](LD x) { d += x; s += fabsl(x); };
    if (m.n == 2) { add(m.a[0][0] * m.a[1][1]); add(-m.a[0][1] * m.a[1][0]); }
    else {
        static const int p[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {1, 0, 2}, {2, 1, 0}};
        for (int k = 0; k < 6; ++k) add((k < 3 ? 1 : -1) * m.a[0][p[k][0]] * m.a[1][p[k][1]] * m.a[2][p[k][2]]);
    }
    if (mag) *mag = s;
    return d;
}
LD cof(const Mat &m, int i, int j, LD *mag) {  // cofactor (i, j) of a 3x3 matrix
    int i1 = (i + 1) % 3, i2 = (i + 2) % 3, j1 = (j + 1) % 3, j2 = (j + 2) % 3;
    LD x = m.a[i1][j1] * m.a[i2][j2], y = m.a[i1][j2] * m.a[i2][j1];
    *mag = fabsl(x) + fabsl(y);
    return x - y;
}
std::string show(const Mat &m) { return dfh::show(store(m, false)); }
// the message is made only when needed
#define near(got_, want_, tol_, key, what)                                                                                     \
    do {                                                                                                                       \
        const LD g_ = got_;                                                                                                   \
        const LD w_ = want_, t_ = tol_;                                                                                        \
        VF_CHECK(std::isfinite(double(g_)) && fabsl(g_ - w_) <= t_, key,                                                       \
                 what << ": got " << double(g_) << " expected " << double(w_) << " (tolerance " << double(t_) << ")");         \
    } while (0)
struct Items {
    int n;
    bool sym;
    M m;
    std::vector<Mat> mats;
};
Items items(Ctx &c, int n, bool sym, uint32_t count, bool invertible) {
    Rng &r = c.rng;
    Items o{n, sym, M{uint32_t(sym ? n * (n + 1) / 2 : n * n), 0, unsigned(n), {}}, {}};
    while (o.m.n < count) {
        Mat m = gen_mat(r, n, sym);
        if (invertible) {
            LD mag, d = det_ref(m, &mag);
            if (fabsl(d) < 1e-7L || fabsl(d) < 1e-9L * mag) continue;
        }
        o.m.push(store(m, sym));
        o.mats.push_back(m);
    }
    id(c, o.m);
    return o;
}
} // namespace

VF_DRIVER("det", 3000, 100000, "det of a Serie of 2x2 or 3x3 matrices, full or symmetric storage, against long double; product, transpose and storage identities; non-trivial: at least one matrix", {{"dets", 10000}, {"products", 2000}}) {
    Huge huge_(0.003);
    Rng &r = c.rng;
    int n = r.chance(0.4) ? 2 : 3;
    bool sym = r.chance(0.5);
    Items x = items(c, n, sym, count(r, 400), false);
    c.desc = "det " + shape(x.m);
    Serie s = x.m.serie();
    Serie d = df::algebra::det(s);
    VF_CHECK(d.count() == x.m.n && (x.m.n == 0 || d.itemSize() == 1), "shape", "det gave " << show(d));
    std::vector<LD> want, tol;
    for (uint32_t i = 0; i < x.m.n; ++i) {
        LD mag, w = det_ref(x.mats[i], &mag);
        near(d.scalar(i), w, 32 * EPS * mag, "det", "det of " + show(x.mats[i]) + " (item " + std::to_string(i) + ")");
        want.push_back(w);
        tol.push_back(32 * EPS * mag);
        c.event("dets");
    }
    if (sym && x.m.n) {  // the same matrices in full storage
        M f{uint32_t(n * n), 0, unsigned(n), {}};
        for (auto &m : x.mats) f.push(store(m, false));
        Serie df_ = df::algebra::det(f.serie());
        for (uint32_t i = 0; i < f.n; ++i) near(df_.scalar(i), d.scalar(i), 2 * tol[i], "storage", "det in full storage differs");
    }
    if (!sym && x.m.n) {
        Serie t = df::algebra::transpose(s);
        Serie dt = df::algebra::det(t);
        for (uint32_t i = 0; i < x.m.n; ++i) near(dt.scalar(i), d.scalar(i), 2 * tol[i], "transpose", "det of the transpose differs");
        // det(AB) = det(A) det(B), small entries
        M ab{uint32_t(n * n), 0, unsigned(n), {}};
        for (uint32_t i = 0; i + 1 < x.m.n; ++i) {
            Mat p{n, {}};
            for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) { LD z = 0; for (int k = 0; k < n; ++k) z += x.mats[i].a[a][k] * x.mats[i + 1].a[k][b]; p.a[a][b] = double(z); }
            ab.push(store(p, false));
        }
        if (ab.n) {
            Serie dab = df::algebra::det(ab.serie());
            for (uint32_t i = 0; i < ab.n; ++i) {
                // bound on the effect of rounding the product: permanents of absolute values
                Mat pa{n, {}}, pb{n, {}}, q{n, {}};
                for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) { pa.a[a][b] = fabsl(x.mats[i].a[a][b]); pb.a[a][b] = fabsl(x.mats[i + 1].a[a][b]); }
                for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) for (int k = 0; k < n; ++k) q.a[a][b] += pa.a[a][k] * pb.a[k][b];
                LD mag;
                det_ref(q, &mag);
                near(dab.scalar(i), LD(d.scalar(i)) * d.scalar(i + 1), 64 * EPS * mag + fabsl(want[i] * tol[i + 1]) + fabsl(want[i + 1] * tol[i]), "product", "det of a product");
                c.event("products");
            }
        }
    }
    check_unchanged(s, x.m, "input-changed");
}

VF_DRIVER("inv", 3000, 100000, "inv of a Serie of well-conditioned and badly scaled 3x3 matrices, against long double and by multiplication; a singular item among regular ones must be refused; non-trivial: at least one matrix", {{"inverses", 10000}, {"singular", 300}}) {
    Huge huge_(0.003);
    Rng &r = c.rng;
    bool sym = r.chance(0.5);
    Items x = items(c, 3, sym, count(r, 300), true);
    c.desc = "inv " + shape(x.m);
    Serie s = x.m.serie();
    Serie v = df::algebra::inv(s);
    VF_CHECK(v.count() == x.m.n && (x.m.n == 0 || v.itemSize() == x.m.is), "shape", "inv gave " << show(v));
    for (uint32_t i = 0; i < x.m.n; ++i) {
        const Mat &a = x.mats[i];
        Mat b = load(v.value(i), 3, sym);
        LD sd, d = det_ref(a, &sd);
        LD tol[3][3], binf = 0, ainf = 0;
        for (int p = 0; p < 3; ++p) {
            LD s1 = 0, s2 = 0;
            for (int q = 0; q < 3; ++q) { s1 += fabsl(a.a[p][q]); LD t; s2 += fabsl(cof(a, q, p, &t) / d); }
            ainf = std::max(ainf, s1);
            binf = std::max(binf, s2);
        }
        for (int p = 0; p < 3; ++p)
            for (int q = 0; q < 3; ++q) {
                LD sc, k = cof(a, q, p, &sc);
                tol[p][q] = 64 * EPS * (sc / fabsl(d) + fabsl(k) * sd / (d * d)) + 4 * EPS * ainf * binf * binf;
                near(b.a[p][q], k / d, tol[p][q], "inv", "entry " + std::to_string(p) + std::to_string(q) + " of the inverse of " + show(a));
            }
        for (int side = 0; side < 2; ++side)
            for (int p = 0; p < 3; ++p)
                for (int q = 0; q < 3; ++q) {
                    LD z = 0, t = 0;
                    for (int k = 0; k < 3; ++k) {
                        LD l = side ? a.a[p][k] : b.a[p][k], rr = side ? b.a[k][q] : a.a[k][q];
                        z += l * rr;
                        t += fabsl(l * rr) * EPS + (side ? fabsl(l) * tol[k][q] : tol[p][k] * fabsl(rr));
                    }
                    near(z, p == q, 4 * t, "identity", std::string(side ? "A inv(A)" : "inv(A) A") + " entry " + std::to_string(p) + std::to_string(q) + " for " + show(a));
                }
        c.event("inverses");
    }
    if (x.m.n) {  // det(inv(A)) det(A) = 1
        Serie dv = df::algebra::det(v), d = df::algebra::det(s);
        for (uint32_t i = 0; i < x.m.n; ++i) {
            LD mag, w;
            Mat b = load(v.value(i), 3, sym);
            w = det_ref(b, &mag);
            near(LD(dv.scalar(i)), w, 32 * EPS * mag, "det", "det of the inverse");
        }
    }
    if (sym && x.m.n) {
        M f{9, 0, 3, {}};
        for (auto &m : x.mats) f.push(store(m, false));
        Serie vf_ = df::algebra::inv(f.serie());
        VF_CHECK(vf_.count() == x.m.n, "shape", "inv in full storage");
        for (uint32_t i = 0; i < f.n; ++i) {
            Mat b = load(vf_.value(i), 3, false), a = load(v.value(i), 3, true);
            LD sd, d = det_ref(x.mats[i], &sd);
            for (int p = 0; p < 3; ++p)
                for (int q = 0; q < 3; ++q) {
                    LD sc, k = cof(x.mats[i], q, p, &sc);
                    LD big = 0;
                    for (int u = 0; u < 3; ++u) for (int w = 0; w < 3; ++w) big = std::max(big, fabsl(a.a[u][w]));
                    near(b.a[p][q], a.a[p][q], 128 * EPS * (sc / fabsl(d) + fabsl(k) * sd / (d * d) + big * big), "storage", "the inverse in full storage differs");
                }
        }
    }
    check_unchanged(s, x.m, "input-changed");
    // one singular item, anywhere
    Mat z{3, {}};
    uint64_t kind = r.below(4);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) z.a[i][j] = kind == 0 ? 0 : LD(r.range(-4, 4));
    if (sym) {
        if (kind == 1) { LD w[3] = {LD(r.range(-3, 3)), LD(r.range(-3, 3)), LD(r.range(-3, 3))}; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) z.a[i][j] = w[i] * w[j]; }
        else if (kind >= 2) { int k = int(r.below(3)); for (int j = 0; j < 3; ++j) z.a[k][j] = z.a[j][k] = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) z.a[i][j] = z.a[j][i]; }
    } else {
        int p = int(r.below(3)), q = (p + 1 + int(r.below(2))) % 3;
        LD f = LD(r.range(-2, 2));
        if (kind == 1) for (int j = 0; j < 3; ++j) z.a[p][j] = f * z.a[q][j];
        if (kind >= 2) for (int j = 0; j < 3; ++j) z.a[j][p] = f * z.a[j][q];
    }
    M w = x.m;
    size_t at = r.below(w.n + 1) * w.is;
    Array za = store(z, sym);
    w.v.insert(w.v.begin() + long(at), za.begin(), za.end());
    ++w.n;
    Serie ws = w.serie();
    VF_CHECK(throws([&] { df::algebra::inv(ws); }), "singular-accepted", "inv accepted the singular matrix " << show(z) << " at item " << at / w.is << " of " << w.n);
    c.event("singular");
}

VF_DRIVER("transpose", 2000, 40000, "transpose of 2x2 and 3x3 matrices, bit for bit, twice the identity; non-trivial: at least one matrix", {{"transposes", 10000}}) {
    Huge huge_(0.004);
    Rng &r = c.rng;
    uint32_t n = r.chance(0.4) ? 2 : 3;
    M m = gen(r, n * n, count(r, 2000), any_kind(r), dim(r));
    id(c, m);
    c.desc = shape(m);
    Serie s = m.serie();
    Serie t = df::algebra::transpose(s);
    M e = m;
    for (uint32_t i = 0; i < m.n; ++i)
        for (uint32_t p = 0; p < n; ++p)
            for (uint32_t q = 0; q < n; ++q) e.v[(size_t(i) * n + p) * n + q] = m.v[(size_t(i) * n + q) * n + p];
    if (m.n == 0) { VF_CHECK(t.count() == 0, "shape", "transpose of no items"); return; }
    check_same(t, e, "transpose", "transpose");
    check_same(df::algebra::transpose(t), m, "transpose", "transpose of the transpose");
    c.event("transposes", m.n);
    check_unchanged(s, m, "input-changed");
}

VF_DRIVER("shapes", 600, 6000, "every item size and dimension: supported ones are accepted, others refused; non-trivial: at least one item", {{"refused", 500}, {"accepted", 100}}) {
    Rng &r = c.rng;
    uint32_t is = uint32_t(c.index % 13);
    unsigned d = c.index / 13 % 2 ? 2 : 3;
    uint32_t n = 1 + uint32_t(r.below(5));
    M m = is ? gen(r, is, n, K_POS, d) : M{0, 0, d, {}};
    if (is == 9) for (uint32_t i = 0; i < n; ++i) for (uint32_t k = 0; k < 9; k += 4) m.v[i * 9 + k] += 100;  // regular
    if (is == 6) for (uint32_t i = 0; i < n; ++i) for (uint32_t k : {0u, 3u, 5u}) m.v[i * 6 + k] += 100;
    id(c, m);
    c.desc = shape(m);
    Serie s = is ? m.serie() : Serie(0, 0, d);
    auto want = [&](bool ok, const char *op, auto &&f) {
        bool ref = refused(f);
        VF_CHECK(ref != ok, ok ? "refused" : "accepted", op << (ok ? " refused " : " accepted ") << shape(m));
        c.event(ok ? "accepted" : "refused");
    };
    want((d == 2 && (is == 3 || is == 4)) || (d == 3 && (is == 6 || is == 9)), "det", [&] { return df::algebra::det(s); });
    want(d == 3 && (is == 6 || is == 9), "inv", [&] { return df::algebra::inv(s); });
    want(is == 4 || is == 9, "transpose", [&] { return df::algebra::transpose(s); });
}
VF_MAIN

// C09: eigenvalues and eigenvectors belong to the given symmetric matrix.
#include "dfh.h"
#include <dataframe/functional/algebra/eigen.h>
using namespace dfh;
using LD = long double;

namespace {
struct Sym {
    int n;
    LD a[3][3];
    std::vector<LD> spectrum;  // decreasing, when known
};
void rotate(Rng &r, Sym &m) {  // m := Q m Q^T
    int n = m.n;
    LD q[3][3];
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) q[i][j] = i == j;
    double tiny = r.chance(0.3) ? std::pow(10, -r.uni(2, 10)) : 1;
    for (int k = 0; k < (n == 2 ? 1 : 3); ++k) {
        int x = n == 2 ? 0 : k == 2 ? 1 : 0, y = n == 2 ? 1 : k == 0 ? 1 : 2;
        double t = r.uni(-3.2, 3.2) * tiny;
        LD cs = cosl(t), sn = sinl(t);
        for (int j = 0; j < n; ++j) { LD u = q[x][j], v = q[y][j]; q[x][j] = cs * u - sn * v; q[y][j] = sn * u + cs * v; }
    }
    LD b[3][3];
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { b[i][j] = 0; for (int k = 0; k < n; ++k) for (int l = 0; l < n; ++l) b[i][j] += q[i][k] * m.a[k][l] * q[j][l]; }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m.a[i][j] = b[i][j];
}
Sym gen_sym(Rng &r, int n, std::string *what) {
    Sym m{n, {}, {}};
    auto diag = [&](std::vector<LD> d) {
        for (int i = 0; i < n; ++i) m.a[i][i] = d[i];
        d.resize(n);
        std::sort(d.rbegin(), d.rend());
        m.spectrum = d;
    };
    uint64_t kind = r.below(12);
    static const char *names[] = {"diagonal", "diagonal, ties", "zero", "random", "integers", "known spectrum", "repeated", "nearly repeated", "rank one", "scaled", "one off-diagonal entry", "rounded off"};
    *what = names[kind];
    switch (kind) {
    case 0: diag({r.uni(-5, 5), r.uni(-5, 5), r.uni(-5, 5)}); break;
    case 1: { LD x = r.range(-3, 3), y = r.range(-3, 3); diag({x, y, x}); break; }
    case 2: diag({0, 0, 0}); break;
    case 3: for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) m.a[i][j] = m.a[j][i] = r.uni(-10, 10); break;
    case 4: for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) m.a[i][j] = m.a[j][i] = r.range(-4, 4); break;
    case 5: diag({r.uni(-9, 9), r.uni(-9, 9), r.uni(-9, 9)}); rotate(r, m); break;
    case 6: { LD x = r.uni(-5, 5); diag({x, x, r.chance(0.5) ? x : LD(r.uni(-5, 5))}); rotate(r, m); break; }
    case 7: { LD x = r.uni(1, 5), e = std::pow(10, -r.uni(3, 13)); diag({x, x + e, r.uni(-5, 5)}); rotate(r, m); break; }
    case 8: { LD w[3] = {r.uni(-3, 3), r.uni(-3, 3), r.uni(-3, 3)}; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m.a[i][j] = w[i] * w[j]; break; }
    case 9: {
        LD s = powl(10, r.range(-100, 100));
        for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) m.a[i][j] = m.a[j][i] = s * r.uni(-1, 1);
        break;
    }
    case 10: {
        for (int i = 0; i < n; ++i) m.a[i][i] = r.range(-3, 3);
        int i = int(r.below(n)), j = (i + 1 + int(r.below(n - 1))) % n;
        m.a[i][j] = m.a[j][i] = r.uni(-3, 3);
        break;
    }
    default: {  // entries of very different sizes
        for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) m.a[i][j] = m.a[j][i] = r.uni(-1, 1) * std::pow(10, r.uni(-6, 6));
    }
    }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m.a[i][j] = double(m.a[i][j]);
    return m;
}
} // namespace

VF_DRIVER("spectra", 4000, 200000, "eigen decomposition of Series of symmetric matrices of many kinds (2D and 3D); non-trivial: at least one matrix that is not diagonal", {{"matrices", 20000}, {"nondiagonal", 10000}, {"known", 2000}}) {
    Huge huge_(0.001);
    Rng &r = c.rng;
    int n = r.chance(0.35) ? 2 : 3;
    uint32_t cnt = count(r, 200);
    M m{uint32_t(n * (n + 1) / 2), 0, unsigned(n), {}};
    std::vector<Sym> mats;
    std::string what;
    bool nondiag = false;
    for (uint32_t i = 0; i < cnt; ++i) {
        Sym s = gen_sym(r, n, &what);
        Array a;
        for (int p = 0; p < n; ++p) for (int q = p; q < n; ++q) a.push_back(double(s.a[p][q]));
        m.push(a);
        mats.push_back(s);
    }
    id(c, m);
    c.desc = shape(m) + (cnt ? ", last: " + what : "");
    Serie s = m.serie();
    Serie val = df::algebra::eigenValues(s), vec = df::algebra::eigenVectors(s);
    auto [val2, vec2] = df::algebra::eigenSystem(s);
    VF_CHECK(identical(val.asArray(), val2.asArray()) && identical(vec.asArray(), vec2.asArray()), "agree", "eigenSystem differs from eigenValues or eigenVectors");
    check_unchanged(s, m, "input-changed");
    if (!cnt) return;
    check_shape(val, uint32_t(n), cnt, "shape", "eigenValues");
    check_shape(vec, uint32_t(n * n), cnt, "shape", "eigenVectors");
    check_shape(val2, uint32_t(n), cnt, "shape", "eigenSystem values");
    check_shape(vec2, uint32_t(n * n), cnt, "shape", "eigenSystem vectors");
    for (uint32_t i = 0; i < cnt; ++i) {
        const Sym &A = mats[i];
        Array l = val.value(i), v = vec.value(i);
        LD off = 0, all = 0, tr = 0;
        for (int p = 0; p < n; ++p) for (int q = 0; q < n; ++q) { LD x = A.a[p][q] * A.a[p][q]; all += x; if (p != q) off += x; else tr += A.a[p][p]; }
        off = sqrtl(off);
        all = sqrtl(all);
        std::string where = " for " + show(m.item(i)) + " (item " + std::to_string(i) + "): values " + show(l) + " vectors " + show(v);
        for (int k = 0; k < n; ++k) VF_CHECK(std::isfinite(l[k]), "finite", "eigenvalue not finite" << where);
        for (int k = 1; k < n; ++k) VF_CHECK(l[k - 1] >= l[k], "order", "eigenvalues not in decreasing order" << where);
        for (int k = 0; k < n; ++k)
            for (int h = k; h < n; ++h) {
                LD z = 0;
                for (int p = 0; p < n; ++p) z += LD(v[k * n + p]) * v[h * n + p];
                VF_CHECK(fabsl(z - (k == h)) <= 1e-12L, "orthonormal", "vectors " << k << " and " << h << " have product " << double(z) << where);
            }
        LD sum = 0;
        for (int k = 0; k < n; ++k) {
            LD w[3], q = 0, res = 0;
            for (int p = 0; p < n; ++p) { w[p] = 0; for (int h = 0; h < n; ++h) w[p] += A.a[p][h] * v[k * n + h]; q += w[p] * v[k * n + p]; }
            for (int p = 0; p < n; ++p) { LD z = w[p] - LD(l[k]) * v[k * n + p]; res += z * z; }
            res = sqrtl(res);
            VF_CHECK(fabsl(q - l[k]) <= 1e-12L * all, "rayleigh", "eigenvalue " << k << " is not the Rayleigh quotient " << double(q) << " of its vector" << where);
            VF_CHECK(res <= 0.005L * off + 1e-12L * all, "residual", "A v - l v has norm " << double(res) << ", off-diagonal norm " << double(off) << ", vector " << k << where);
            sum += l[k];
        }
        VF_CHECK(fabsl(sum - tr) <= 1e-12L * all, "trace", "the eigenvalues sum to " << double(sum) << ", the trace is " << double(tr) << where);
        if (!A.spectrum.empty()) {
            for (int k = 0; k < n; ++k)
                VF_CHECK(fabsl(A.spectrum[k] - l[k]) <= 0.005L * off + 1e-12L * all, "spectrum", "eigenvalue " << k << " should be " << double(A.spectrum[k]) << where);
            c.event("known");
        }
        c.event("matrices");
        if (off > 0) { c.event("nondiagonal"); nondiag = true; }
    }
    c.nontrivial = nondiag;
}

VF_DRIVER("independence", 600, 20000, "each item is decomposed on its own: alone, in any place and after any other item it gives the same bits; non-trivial: at least two items", {{"items", 2000}}) {
    Rng &r = c.rng;
    int n = r.chance(0.35) ? 2 : 3;
    uint32_t cnt = 2 + uint32_t(r.below(12));
    M m{uint32_t(n * (n + 1) / 2), 0, unsigned(n), {}};
    std::string what;
    for (uint32_t i = 0; i < cnt; ++i) {
        Sym s = gen_sym(r, n, &what);
        Array a;
        for (int p = 0; p < n; ++p) for (int q = p; q < n; ++q) a.push_back(double(s.a[p][q]));
        m.push(a);
    }
    id(c, m);
    c.desc = shape(m);
    auto [val, vec] = df::algebra::eigenSystem(m.serie());
    for (uint32_t i = 0; i < cnt; ++i) {
        M one{m.is, 1, m.dim, m.item(i)};
        auto [a, b] = df::algebra::eigenSystem(one.serie());
        VF_CHECK(identical(a.asArray(), val.value(i)) && identical(b.asArray(), vec.value(i)), "context", "item " << i << " gives another result alone");
        c.event("items");
    }
}

VF_DRIVER("shapes", 400, 4000, "every item size and dimension: supported ones are accepted, others refused; non-trivial: at least one item", {{"refused", 300}, {"accepted", 50}}) {
    Rng &r = c.rng;
    uint32_t is = 1 + uint32_t(c.index % 12);
    unsigned d = c.index / 12 % 2 ? 2 : 3;
    M m = gen(r, is, 1 + uint32_t(r.below(5)), K_POS, d);
    id(c, m);
    c.desc = shape(m);
    Serie s = m.serie();
    bool ok = (d == 2 && is == 3) || (d == 3 && is == 6);
    auto want = [&](const char *op, bool t) {
        VF_CHECK(t != ok, ok ? "refused" : "accepted", op << (ok ? " refused " : " accepted ") << shape(m));
        c.event(ok ? "accepted" : "refused");
    };
    want("eigenValues", throws([&] { df::algebra::eigenValues(s); }));
    want("eigenVectors", throws([&] { df::algebra::eigenVectors(s); }));
    want("eigenSystem", throws([&] { df::algebra::eigenSystem(s); }));
}
VF_MAIN

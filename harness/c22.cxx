// C22: Matrix and Vector views.
#include "dfh.h"
#include <dataframe/view/Matrix.h>
#include <dataframe/view/Vector.h>
#include <memory>
using namespace dfh;
using LD = long double;

namespace {
struct Sq {  // reference matrix
    uint32_t m;
    Array a;
    double operator()(uint32_t i, uint32_t j) const { return a[size_t(i) * m + j]; }
};
Sq sq(Rng &r, uint32_t m, Kind k, bool sym) {
    Sq s{m, values(r, size_t(m) * m, k)};
    if (sym) for (uint32_t i = 0; i < m; ++i) for (uint32_t j = 0; j < i; ++j) s.a[size_t(i) * m + j] = s(j, i);
    return s;
}
bool symmetric(const Sq &s) {
    for (uint32_t i = 0; i < s.m; ++i) for (uint32_t j = 0; j < i; ++j) if (s(i, j) != s(j, i)) return false;
    return true;
}
Array upper(const Sq &s) {
    Array u;
    for (uint32_t i = 0; i < s.m; ++i) for (uint32_t j = i; j < s.m; ++j) u.push_back(s(i, j));
    return u;
}
void check_entries(const df::Matrix &M, const Sq &s, const std::string &key, const char *what) {
    VF_CHECK(M.length() == s.a.size(), key, what << " has length " << M.length() << " instead of " << s.a.size());
    for (uint32_t i = 0; i < s.m; ++i)
        for (uint32_t j = 0; j < s.m; ++j)
            VF_CHECK(same_bits(M.at(i, j), s(i, j)), key, what << " " << s.m << "x" << s.m << ": entry " << i << "," << j << " is " << M.at(i, j) << " instead of " << s(i, j));
}
} // namespace

VF_DRIVER("sizes", 400, 4000, "arrays of 0 to 400 values (by case number) given to squaredMatrix and symSquaredMatrix; non-trivial: at least one value", {{"refused", 500}, {"accepted", 30}}) {
    Rng &r = c.rng;
    uint32_t n = uint32_t(c.index % 401);
    const Array a = values(r, n, tame_kind(r)), before = a;
    c.hash.a(a);
    c.nontrivial = n > 0;
    c.desc = std::to_string(n) + " values";
    uint32_t q = 0, t = 0;
    while (q * q < n) ++q;
    while (t * (t + 1) / 2 < n) ++t;
    for (int sym = 0; sym < 2; ++sym) {
        bool good = sym ? t * (t + 1) / 2 == n : q * q == n;
        bool refused = throws([&] {
            df::Matrix M = sym ? df::symSquaredMatrix(a) : df::squaredMatrix(a);
            VF_CHECK(good, "size-accepted", (sym ? "symSquaredMatrix" : "squaredMatrix") << " accepted " << n << " values");
            VF_CHECK(M.length() == (sym ? t * t : n), "size-length", (sym ? "symSquaredMatrix" : "squaredMatrix") << " of " << n << " values has length " << M.length());
            if (sym && t) { Array u = M.array().array(); VF_CHECK(same_bits(u, a), "size-entries", "symSquaredMatrix of " << n << " values has the upper triangle " << show(u)); }
        });
        VF_CHECK(refused == !good, "size-refused", (sym ? "symSquaredMatrix" : "squaredMatrix") << " refused " << n << " values");
        c.event(refused ? "refused" : "accepted");
    }
    VF_CHECK(identical(a, before), "size-changed", "the array was changed");
}

VF_DRIVER("special", 1500, 30000, "matrices of size 1 to 8 with NaN, infinities and negative zeros, symmetric but for one entry or not: entries, transpose and array bit for bit, symmetry where it is beyond doubt; non-trivial: size above 1", {{"unlike", 300}, {"alike", 100}}) {
    Rng &r = c.rng;
    const uint32_t m = uint32_t(r.range(1, 8));
    Sq s = sq(r, m, K_UNI, r.chance(0.8));
    static const double odd[] = {std::nan(""), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), -0.0, 0.0, 5e-324};
    const uint64_t k = r.below(4);
    for (uint64_t q = 0; q < k; ++q) {
        const uint32_t i = uint32_t(r.below(m)), j = uint32_t(r.below(m));
        const double x = odd[r.below(6)];
        s.a[size_t(i) * m + j] = x;
        if (r.chance(0.5) && !std::isnan(x)) s.a[size_t(j) * m + i] = x;
    }
    c.hash.u(m);
    c.hash.a(s.a);
    c.nontrivial = m > 1;
    c.desc = std::to_string(m) + "x" + std::to_string(m) + " " + show(s.a, 64);
    bool unlike = false, nan = false;
    for (uint32_t i = 0; i < m; ++i)
        for (uint32_t j = 0; j < m; ++j) {
            nan |= std::isnan(s(i, j));
            if (std::isnan(s(i, j)) != std::isnan(s(j, i)) || s(i, j) < s(j, i) || s(i, j) > s(j, i)) unlike = true;
        }
    const df::Matrix M = df::squaredMatrix(s.a);
    check_entries(M, s, "entry", "matrix");
    Sq t{m, Array(s.a.size())};
    for (uint32_t i = 0; i < m; ++i) for (uint32_t j = 0; j < m; ++j) t.a[size_t(i) * m + j] = s(j, i);
    check_entries(M.transpose(), t, "transpose", "transpose");
    if (unlike) {
        VF_CHECK(!M.isSymmetric() && !M.transpose().isSymmetric(), "isSymmetric", "a matrix with unlike entries counts as symmetric");
        VF_CHECK(same_bits(M.array().array(), s.a), "array", "array is " << show(M.array().array(), 64));
        c.event("unlike");
    } else if (!nan) {
        VF_CHECK(M.isSymmetric(), "isSymmetric", "a symmetric matrix does not count as symmetric");
        VF_CHECK(M.array().array() == upper(s), "array", "array is " << show(M.array().array(), 64));
        c.event("alike");
    }
}

VF_DRIVER("matrix", 4000, 90000, "matrices of size 1 to 12, some to 70, from full and symmetric arrays: entries, transpose, trace, products, symmetry, array; non-trivial: size above 1", {{"entries", 20000}, {"symmetric", 1000}, {"products", 5000}, {"near_symmetric", 150}}) {
    Rng &r = c.rng;
    uint32_t m = r.chance(0.6) ? uint32_t(r.range(2, 3)) : r.chance(0.1) ? uint32_t(r.range(13, 70)) : uint32_t(r.range(1, 12));
    bool sym = r.chance(0.4);
    Kind k = tame_kind(r);
    Sq s = sq(r, m, k, sym);
    scale(s.a, pow2(r, 60));
    if (sym && m > 1 && r.chance(0.3)) {  // one entry differs slightly
        uint32_t i = uint32_t(r.below(m)), j = uint32_t(r.below(m));
        if (i != j) { s.a[size_t(i) * m + j] = std::nextafter(s(i, j), 1e300); c.event("near_symmetric"); }
    }
    sym = symmetric(s);
    c.hash.u(m);
    c.hash.a(s.a);
    c.nontrivial = m > 1;
    c.desc = std::to_string(m) + "x" + std::to_string(m) + " " + show(s.a, 9);
    std::unique_ptr<df::Matrix> M;
    {
        auto arr = std::make_unique<Array>(sym && r.chance(0.5) ? upper(s) : s.a);  // gone before the matrix is used
        if (arr->size() != s.a.size() || m == 1) M.reset(new df::Matrix(df::symSquaredMatrix(*arr)));
        else if (r.chance(0.5)) M.reset(new df::Matrix(df::squaredMatrix(*arr)));
        else M.reset(new df::Matrix(*arr, m));
        if (r.chance(0.5)) for (double &x : *arr) x = 555;
    }
    check_entries(*M, s, "entry", "matrix");
    c.event("entries", m * m);
    if (sym) c.event("symmetric");
    VF_CHECK(M->isSymmetric() == sym, "isSymmetric", "isSymmetric is " << M->isSymmetric() << " for a matrix that is " << (sym ? "" : "not ") << "symmetric");
    Sq t{m, Array(s.a.size())};
    for (uint32_t i = 0; i < m; ++i) for (uint32_t j = 0; j < m; ++j) t.a[size_t(i) * m + j] = s(j, i);
    {
        df::Matrix T = M->transpose();
        check_entries(T, t, "transpose", "transpose");
        check_entries(T.transpose(), s, "transpose", "transpose of the transpose");
    }
    VF_CHECK(M->array().array() == (sym ? upper(s) : s.a), "array", "array is " << show(M->array().array()));
    LD tr = 0, g = 0;
    for (uint32_t i = 0; i < m; ++i) { tr += s(i, i); g += fabs(s(i, i)); }
    check_near(M->trace(), double(tr), double(m * EPS * g), "trace", "trace");
    Array v = values(r, m, k);
    scale(v, pow2(r, 60));
    df::Vector V(v);
    df::Vector P = M->multVec(V);
    VF_CHECK(P.length() == m, "multVec", "the product has length " << P.length());
    for (uint32_t i = 0; i < m; ++i) {
        LD w = 0, q = 0;
        for (uint32_t j = 0; j < m; ++j) { LD x = LD(s(i, j)) * v[j]; w += x; q += fabsl(x); }
        check_near(P[i], double(w), double((m + 2) * EPS * q), "multVec", "component " + std::to_string(i) + " of the product with a vector");
    }
    VF_CHECK(identical(V.array(), v), "input-changed", "multVec changed the vector");
    Sq o = sq(r, m, k, r.chance(0.3));
    scale(o.a, pow2(r, 60));
    df::Matrix O(o.a, m);
    df::Matrix Q = M->multMat(O);
    VF_CHECK(Q.length() == m * m, "multMat", "the product has length " << Q.length());
    for (uint32_t i = 0; i < m; ++i)
        for (uint32_t j = 0; j < m; ++j) {
            LD w = 0, q = 0;
            for (uint32_t l = 0; l < m; ++l) { LD x = LD(s(i, l)) * o(l, j); w += x; q += fabsl(x); }
            check_near(Q.at(i, j), double(w), double((m + 2) * EPS * q), "multMat", "entry " + std::to_string(i) + "," + std::to_string(j) + " of the product");
        }
    c.event("products", 2);
    check_entries(*M, s, "input-changed", "matrix");
    check_entries(O, o, "input-changed", "matrix");
    // a copy lives on its own
    {
        df::Matrix C(*M);
        M.reset();
        check_entries(C, s, "copy", "copy of a matrix");
    }
    // other sizes are refused
    Sq b = sq(r, m + 1, k, false);
    df::Matrix B(b.a, m + 1);
    VF_CHECK(throws([&] { O.multMat(B); }) && throws([&] { B.multMat(O); }), "size-accepted", "multMat accepted sizes " << m << " and " << m + 1);
    VF_CHECK(throws([&] { B.multVec(V); }), "size-accepted", "multVec accepted sizes " << m + 1 << " and " << m);
}

VF_DRIVER("vector", 4000, 90000, "vectors of length 0 to 60: norm, dot, normalize, add, sub, mult, chained and with themselves; non-trivial: length above 1", {{"operations", 20000}, {"mismatch", 10000}}) {
    Rng &r = c.rng;
    uint32_t n = r.chance(0.5) ? uint32_t(r.range(1, 4)) : uint32_t(r.below(61));
    Kind k = tame_kind(r);
    Array a = values(r, n, k), b = values(r, n, k);
    scale(a, pow2(r, 60));
    scale(b, pow2(r, 60));
    Array a0 = a, b0 = b;
    c.hash.a(a);
    c.hash.a(b);
    c.nontrivial = n > 1;
    c.desc = show(a, 4) + " and " + show(b, 4);
    LD nn = 0, d = 0, g = 0;
    for (uint32_t i = 0; i < n; ++i) { nn += LD(a[i]) * a[i]; d += LD(a[i]) * b[i]; g += fabsl(LD(a[i]) * b[i]); }
    df::Vector A(a), B(b);
    for (double &x : a) x = 9;  // the vector has its own values
    for (double &x : b) x = 9;
    VF_CHECK(A.length() == n && identical(A.array(), a0), "copy", "a vector does not hold its values");
    for (uint32_t i = 0; i < n; ++i) VF_CHECK(same_bits(A[i], a0[i]) && same_bits(A.at(i), a0[i]), "entry", "component " << i);
    double norm = A.norm();
    check_near(norm, double(sqrtl(nn)), double((n + 4) * EPS * sqrtl(nn)), "norm", "norm of " + std::to_string(n) + " components");
    check_near(A.dot(B), double(d), double((n + 2) * EPS * g), "dot", "dot");
    check_near(B.dot(A), double(d), double((n + 2) * EPS * g), "dot", "dot reversed");
    check_near(A.dot(A), double(nn), double((n + 2) * EPS * nn), "dot", "dot with itself");
    VF_CHECK(identical(A.array(), a0) && identical(B.array(), b0), "input-changed", "norm or dot changed a vector");
    double f = value(r, k);
    auto comp = [&](const df::Vector &v, auto &&fn, double ulps, const char *what) {
        VF_CHECK(v.length() == n, what, what << " has length " << v.length());
        for (uint32_t i = 0; i < n; ++i) {
            LD w = fn(i);
            check_near(v[i], double(w), ulps * EPS * double(fabsl(w)), what, std::string(what) + ": component " + std::to_string(i) + " of " + std::to_string(n));
        }
        c.event("operations");
    };
    { df::Vector v(a0); df::Vector &q = v.add(B); VF_CHECK(&q == &v, "chain", "add does not return its vector"); comp(v, [&](uint32_t i) { return LD(a0[i] + b0[i]); }, 1, "add"); }
    { df::Vector v(a0); df::Vector &q = v.sub(B); VF_CHECK(&q == &v, "chain", "sub does not return its vector"); comp(v, [&](uint32_t i) { return LD(a0[i] - b0[i]); }, 1, "sub"); }
    { df::Vector v(a0); df::Vector &q = v.mult(B); VF_CHECK(&q == &v, "chain", "mult does not return its vector"); comp(v, [&](uint32_t i) { return LD(a0[i] * b0[i]); }, 1, "mult"); }
    { df::Vector v(a0); df::Vector &q = v.mult(f); VF_CHECK(&q == &v, "chain", "mult does not return its vector"); comp(v, [&](uint32_t i) { return LD(a0[i] * f); }, 1, "mult by a number"); }
    { df::Vector v(a0); v.add(v); comp(v, [&](uint32_t i) { return LD(2 * a0[i]); }, 1, "add to itself"); }
    { df::Vector v(a0); v.mult(v); comp(v, [&](uint32_t i) { return LD(a0[i] * a0[i]); }, 1, "mult by itself"); }
    { df::Vector v(a0); v.sub(v); comp(v, [&](uint32_t) { return LD(0); }, 1, "sub from itself"); }
    {  // components which are no numbers, or infinite, stay where they are
        Array x = values(r, n, K_SPECIAL), y = values(r, n, r.chance(0.5) ? K_SPECIAL : k);
        df::Vector X(x), Y(y), p(x), s(x), t(x), u(x);
        double num = value(r, K_SPECIAL);
        p.add(Y); s.sub(Y); t.mult(Y); u.mult(num);
        auto like = [](double g, double w) { return std::isnan(w) ? std::isnan(g) : g == w; };
        for (uint32_t i = 0; i < n; ++i)
            VF_CHECK(like(p[i], x[i] + y[i]) && like(s[i], x[i] - y[i]) && like(t[i], x[i] * y[i]) && like(u[i], x[i] * num), "special",
                     "component " << i << " of " << show(x) << " and " << show(y) << ": sum " << p[i] << ", difference " << s[i] << ", product " << t[i] << ", times " << num << ": " << u[i]);
        VF_CHECK(identical(Y.array(), y), "input-changed", "an operation changed its argument");
        c.event("operations", 4);
    }
    { df::Vector v(a0); v.add(B).sub(B).mult(2.0); for (uint32_t i = 0; i < n; ++i) check_near(v[i], 2 * a0[i], 8 * EPS * (fabs(a0[i]) + fabs(b0[i])), "chain", "chained operations"); }
    if (nn > 0) {
        df::Vector v(a0);
        df::Vector &q = v.normalize();
        VF_CHECK(&q == &v, "chain", "normalize does not return its vector");
        LD len = sqrtl(nn);
        for (uint32_t i = 0; i < n; ++i) check_near(v[i], double(a0[i] / len), double((n + 8) * EPS * fabsl(a0[i] / len)), "normalize", "component " + std::to_string(i) + " of a normalized vector");
        check_near(v.norm(), 1, (2 * n + 10) * EPS, "normalize", "length of a normalized vector");
    }
    VF_CHECK(identical(B.array(), b0), "input-changed", "an operation changed its argument");
    // text: every component once
    {
        std::istringstream in(A.toString());
        double x;
        uint32_t i = 0;
        for (; in >> x; ++i) { if (i < n) check_near(x, a0[i], 1e-6 + 2 * EPS * fabs(a0[i]), "toString", "printed component"); }
        VF_CHECK(i == n, "toString", "toString lists " << i << " of " << n << " components");
    }
    // other lengths are refused, and nothing is changed
    Array o = values(r, n + 1 + r.below(3), k);
    df::Vector O(o);
    VF_CHECK(throws([&] { A.add(O); }) && throws([&] { O.add(A); }) && throws([&] { A.sub(O); }) && throws([&] { O.sub(A); }) && throws([&] { A.mult(O); }) && throws([&] { O.mult(A); }) &&
                 throws([&] { A.dot(O); }) && throws([&] { O.dot(A); }),
             "size-accepted", "vectors of lengths " << n << " and " << O.length() << " were combined");
    VF_CHECK(identical(A.array(), a0) && identical(O.array(), o), "input-changed", "a refused operation changed a vector");
    c.event("mismatch", 8);
}
VF_MAIN

// C10: arithmetic on Series against component-wise long double arithmetic.
#include "dfh.h"
#include <cfloat>
#include <dataframe/functional/math/add.h>
#include <dataframe/functional/math/div.h>
#include <dataframe/functional/math/mult.h>
#include <dataframe/functional/math/negate.h>
#include <dataframe/functional/math/scale.h>
#include <dataframe/functional/math/sub.h>
#include <dataframe/functional/math/weightedSum.h>
using namespace dfh;
using LD = long double;
namespace mt = df::math;

namespace {
// The forms for a number of Series known when the program is compiled: f gets
// an index_sequence of s.size()
template <class F> Serie of_size(size_t k, F &&f) {
    switch (k) {
    case 1: return f(std::make_index_sequence<1>{});
    case 2: return f(std::make_index_sequence<2>{});
    case 3: return f(std::make_index_sequence<3>{});
    case 4: return f(std::make_index_sequence<4>{});
    case 5: return f(std::make_index_sequence<5>{});
    case 6: return f(std::make_index_sequence<6>{});
    case 7: return f(std::make_index_sequence<7>{});
    case 8: return f(std::make_index_sequence<8>{});
    case 9: return f(std::make_index_sequence<9>{});
    case 10: return f(std::make_index_sequence<10>{});
    case 13: return f(std::make_index_sequence<13>{});
    case 17: return f(std::make_index_sequence<17>{});
    case 33: return f(std::make_index_sequence<33>{});
    default: return f(std::make_index_sequence<70>{});
    }
}
Serie list_add(const Several &s) {
    return of_size(s.size(), [&]<size_t... K>(std::index_sequence<K...>) { return mt::add({s[K]...}); });
}
Serie list_sub(const Several &s) {
    return of_size(s.size(), [&]<size_t... K>(std::index_sequence<K...>) { return mt::sub({s[K]...}); });
}
Serie list_ws(const Several &s, const Array &w, bool il) {
    return of_size(s.size(), [&]<size_t... K>(std::index_sequence<K...>) { return il ? mt::weigthedSum({s[K]...}, {w[K]...}) : mt::weigthedSum({s[K]...}, w); });
}
Serie var_add(const Several &s) {
    return of_size(s.size(), [&]<size_t... K>(std::index_sequence<K...>) { return mt::add(s[K]...); });
}
Serie var_sub(const Several &s) {
    return of_size(s.size(), [&]<size_t... K>(std::index_sequence<K...>) {
        if constexpr (sizeof...(K) > 1) return mt::sub(s[K]...);
        else return Serie();
    });
}
double opv(Rng &r, Kind k) {
    if (k == K_SPECIAL) {
        static const double p[] = {0, -0.0, 1, -1, INFINITY, -INFINITY, 1e150, -1e150, 1e-150, 2.5, 3};
        return p[r.below(11)];
    }
    return value(r, k);
}
M operand(Rng &r, uint32_t is, uint32_t n, unsigned d) {
    Kind k = any_kind(r);
    M m = gen(r, is, n, K_UNI, d);
    for (double &x : m.v) x = opv(r, k == K_WIDE ? K_WIDE : k);
    if (k != K_SPECIAL && r.chance(0.1) && !m.v.empty()) m.v[r.below(m.v.size())] = r.chance(0.5) ? INFINITY : -INFINITY;
    return m;
}
void compare(Ctx &c, const std::string &op, const Serie &got, const M &shape_of, const std::vector<LD> &want, const std::vector<LD> &mag, size_t terms = 1) {
    if (shape_of.n == 0) {
        VF_CHECK(got.count() == 0, "shape", op << " of no items has " << got.count());
        return;
    }
    check_shape(got, shape_of.is, shape_of.n, "shape", op);
    const Array &g = got.asArray();
    for (size_t i = 0; i < g.size(); ++i) {
        double w = double(want[i]);
        bool ok = std::isnan(w) ? std::isnan(g[i]) : std::isinf(w) ? g[i] == w : fabsl(g[i] - want[i]) <= double(8 + terms) * EPS * mag[i] + double(2 + terms) * 1e-323L;
        VF_CHECK(ok, "value:" + op.substr(0, op.find(' ')), op << ": component " << i % shape_of.is << " of item " << i / shape_of.is << " of " << shape_of.n << " is " << g[i] << " expected " << w);
    }
    c.event("values", g.size());
    c.event("op:" + op);
}
} // namespace

VF_DRIVER("binary", 6000, 200000, "one arithmetic operation on one or two Series, or a Serie and numbers; non-trivial: at least one item", {{"values", 200000}, {"below_threshold", 500}, {"extreme", 300}}) {
    Huge huge_(0.004);
    Rng &r = c.rng;
    uint64_t op = r.below(12);
    uint32_t is = r.chance(0.35) ? 1 : size_between(r, 2, 14), n = fewer(is, count(r, 3000));
    unsigned d = dim(r);
    if (op < 2) is = 1;
    M a = operand(r, is, n, d), b = operand(r, is, n, r.chance(0.8) ? d : 5 - d);
    double x = opv(r, any_kind(r));
    if (r.chance(0.12)) {  // at the ends of the range of double; one operation each, nothing overflows on the way
        static const double p[] = {5e-324, 1e-310, DBL_MIN, 3e-300, 1e300, DBL_MAX, 1, 3};
        auto ext = [&] { return p[r.below(8)] * r.uni(0.5, 1) * (r.chance(0.5) ? 1 : -1); };
        for (double &v : a.v) if (r.chance(0.6)) v = ext();
        for (double &v : b.v) if (r.chance(0.6)) v = ext();
        x = ext();
        c.event("extreme");
    }
    bool twice = r.chance(0.12);  // the same object as both arguments
    if (twice) { b = a; c.event("same_object"); }
    Serie A = a.serie(), B_ = b.serie();
    const Serie &B = twice ? A : B_;
    id(c, a);
    c.hash.u(op);
    c.hash.d(x);
    std::vector<LD> w(a.v.size()), g(a.v.size());
    auto each = [&](auto &&f) { for (size_t i = 0; i < w.size(); ++i) { w[i] = f(i, uint32_t(i / is), uint32_t(i % is)); g[i] = fabsl(w[i]); } };
    std::string name;
    auto done = [&](const std::string &nm, const Serie &s) { c.desc = nm + " " + shape(a); compare(c, nm, s, a, w, g); };
    switch (op) {
    case 0: each([&](size_t i, uint32_t, uint32_t) { return LD(a.v[i]) + x; }); for (size_t i = 0; i < w.size(); ++i) g[i] = fabsl(w[i]); done("add number", mt::add(A, x)); break;
    case 1: each([&](size_t i, uint32_t, uint32_t) { return LD(a.v[i]) - x; }); done("sub number", mt::sub(A, x)); break;
    case 2: each([&](size_t i, uint32_t, uint32_t) { return LD(a.v[i]) + b.v[i]; }); done("add Serie", mt::add(A, B)); break;
    case 3: each([&](size_t i, uint32_t, uint32_t) { return LD(a.v[i]) - b.v[i]; }); done("sub Serie", mt::sub(A, B)); break;
    case 4: each([&](size_t i, uint32_t, uint32_t) { return LD(a.v[i]) * x; }); done("mult number", mt::mult(A, x)); break;
    case 5: each([&](size_t i, uint32_t, uint32_t) { return LD(a.v[i]) * b.v[i]; }); done("mult Serie", mt::mult(A, B)); break;
    case 6: {  // vector by scalar Serie
        M k = operand(r, 1, n, d);
        if (twice && is == 1) k = a;
        each([&](size_t i, uint32_t it, uint32_t) { return LD(a.v[i]) * k.v[it]; });
        Serie K_ = k.serie();
        const Serie &K = twice && is == 1 ? A : K_;
        done("mult scalar-Serie", mt::mult(A, K));
        check_unchanged(K, k, "input-changed");
        break;
    }
    case 7: if (std::isinf(x)) x = 3; each([&](size_t i, uint32_t, uint32_t) { return LD(double(a.v[i] / x)); }); done("div number", mt::div(x, A)); break;
    case 8: {
        M k = operand(r, 1, n, d);
        static const double t[] = {1e-10, -1e-10, 0, -0.0, 9.9e-11, -9.9e-11, 1.01e-10, -1.01e-10, 1e-11, 5e-324, 1e-9, -1e-9};
        for (double &v : k.v) {
            if (r.chance(0.3)) v = t[r.below(12)];
            if (r.chance(0.05)) v = std::nextafter(1e-10, r.chance(0.5) ? 0 : 1) * (r.chance(0.5) ? -1 : 1);
            if (std::fabs(v) < 1e-10) c.event("below_threshold");
        }
        if (twice && is == 1) k = a;
        each([&](size_t i, uint32_t it, uint32_t) { return std::fabs(k.v[it]) < 1e-10 ? LD(0) : LD(double(a.v[i] / k.v[it])); });
        Serie K_ = k.serie();
        const Serie &K = twice && is == 1 ? A : K_;
        done("div Serie", mt::div(K, A));
        check_unchanged(K, k, "input-changed");
        break;
    }
    case 9: each([&](size_t i, uint32_t, uint32_t) { return LD(a.v[i]) * x; }); done("scale number", mt::scale(A, x)); break;
    case 10: {
        Array sc(is);
        for (double &v : sc) v = opv(r, any_kind(r));
        each([&](size_t i, uint32_t, uint32_t k) { return LD(a.v[i]) * sc[k]; });
        done("scale Array", mt::scale(A, sc));
        break;
    }
    default: each([&](size_t i, uint32_t, uint32_t) { return -LD(a.v[i]); }); done("negate", mt::negate(A));
    }
    check_unchanged(A, a, "input-changed");
    check_unchanged(B, b, "input-changed");
}

VF_DRIVER("lists", 4000, 100000, "add, sub and weigthedSum of 1 to 8, sometimes up to 70, Series in list, variadic and weighted forms; non-trivial: at least one item", {{"values", 100000}, {"refused", 300}}) {
    Huge huge_(0.003);
    Rng &r = c.rng;
    static const size_t more[] = {9, 10, 13, 17, 33, 70};
    size_t k = r.chance(0.9) ? 1 + r.below(8) : more[r.below(6)];
    uint32_t is = r.chance(0.35) ? 1 : size_between(r, 2, 9), n = fewer(is, count(r, k > 8 ? 40 : 400));
    if (k > 8 && n > 1000) n = 1000;
    unsigned d = dim(r);
    std::vector<M> m;
    Several s;
    Array w;
    for (size_t i = 0; i < k; ++i) { m.push_back(operand(r, is, n, d)); s.push_back(m.back().serie()); id(c, m.back()); w.push_back(opv(r, any_kind(r))); }
    if (alias(r, s, m)) c.event("same_object");
    c.hash.a(w);
    c.desc = std::to_string(k) + " Series " + shape(m[0]);
    size_t sz = m[0].v.size();
    std::vector<LD> sum(sz), dif(sz), ws(sz), g(sz), gw(sz);
    for (size_t i = 0; i < sz; ++i)
        for (size_t j = 0; j < k; ++j) {
            LD v = m[j].v[i];
            sum[i] += v;
            dif[i] += j ? -v : v;
            LD p = v * w[j];
            ws[i] += p;
            g[i] += fabsl(v);
            gw[i] += fabsl(p);
        }
    compare(c, "add list", list_add(s), m[0], sum, g, k);
    compare(c, "add variadic", var_add(s), m[0], sum, g, k);
    compare(c, "sub list", list_sub(s), m[0], dif, g, k);
    if (k > 1) compare(c, "sub variadic", var_sub(s), m[0], dif, g, k);
    compare(c, "weigthedSum", list_ws(s, w, false), m[0], ws, gw, k);
    compare(c, "weigthedSum of lists", list_ws(s, w, true), m[0], ws, gw, k);
    for (size_t i = 0; i < k; ++i) check_unchanged(s[i], m[i], "input-changed");
    // shapes that do not match
    if (k > 1 && n > 0) {
        auto bad = s;
        size_t at = r.below(k);
        bad.set(at, r.chance(0.5) ? gen(r, is, r.chance(0.5) ? n + 1 : n - 1, K_UNI, d).serie() : gen(r, is + 1, n, K_UNI, d).serie());
        VF_CHECK(throws([&] { list_add(bad); }), "accepted", "add list accepted a Serie of another shape at " << at);
        VF_CHECK(throws([&] { var_add(bad); }), "accepted", "add accepted a Serie of another shape at " << at);
        VF_CHECK(throws([&] { list_sub(bad); }), "accepted", "sub list accepted a Serie of another shape at " << at);
        VF_CHECK(throws([&] { var_sub(bad); }), "accepted", "sub accepted a Serie of another shape at " << at);
        VF_CHECK(throws([&] { list_ws(bad, w, false); }), "accepted", "weigthedSum accepted a Serie of another shape at " << at);
        Array w2 = w;
        if (r.chance(0.5)) w2.push_back(1); else w2.pop_back();
        VF_CHECK(throws([&] { list_ws(s, w2, false); }), "accepted", "weigthedSum accepted " << w2.size() << " weights for " << k << " Series");
        c.event("refused", 6);
    }
}
VF_MAIN

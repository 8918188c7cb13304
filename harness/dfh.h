// Generators, reference values and comparisons shared by the harnesses.
#pragma once
#include "vf.h"

#include <dataframe/Serie.h>
#include <dataframe/Dataframe.h>

namespace dfh {
using df::Serie;
using df::Series;
using vf::Ctx;
using vf::Rng;

inline bool same_bits(double a, double b) {
    if (std::isnan(a) && std::isnan(b)) return true;  // payloads may legitimately differ
    return std::bit_cast<uint64_t>(a) == std::bit_cast<uint64_t>(b);
}
inline bool same_bits(const Array &a, const Array &b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (!same_bits(a[i], b[i])) return false;
    return true;
}
// exact including NaN payloads
inline bool identical(const Array &a, const Array &b) {
    return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0);
}
inline std::string show(const Array &a, size_t max = 12) {
    std::ostringstream o;
    o << std::setprecision(17) << "{";
    for (size_t i = 0; i < a.size() && i < max; ++i) o << (i ? "," : "") << a[i];
    if (a.size() > max) o << ",..." << a.size();
    o << "}";
    return o.str();
}
inline std::string show(const Serie &s) {
    std::ostringstream o;
    o << "Serie(itemSize=" << s.itemSize() << ",count=" << s.count() << ",dim=" << s.dimension() << "," << show(s.asArray()) << ")";
    return o.str();
}

// yes and no as said by a predicate which does not return bool
inline int truthy_int(uint64_t salt, bool b) {
    static const int yes[] = {1, 2, -1, 256, 3, 65536, -2, std::numeric_limits<int>::min(), 100};
    return b ? yes[vf::mix(salt ^ 0x77) % 9] : 0;
}
inline double truthy_double(uint64_t salt, bool b) {
    static const double yes[] = {1, 0.5, -1, 1e-300, -0.25, 2, 1e300, 4294967296.0};
    static const double no[] = {0.0, -0.0};
    return b ? yes[vf::mix(salt ^ 0x77) % 8] : no[vf::mix(salt) & 1];
}

// -------------------------------------------------------------- model
struct M {
    uint32_t is = 1, n = 0;
    unsigned dim = 3;
    Array v;
    Array item(uint32_t i) const { return Array(v.begin() + size_t(i) * is, v.begin() + size_t(i + 1) * is); }
    void push(const Array &a) { v.insert(v.end(), a.begin(), a.end()); ++n; }
    Serie serie() const { return Serie(int(is), v, dim); }
};
inline M model(const Serie &s) { return M{s.itemSize(), s.count(), s.dimension(), s.asArray()}; }

enum Kind { K_SMALLINT, K_UNI, K_WIDE, K_TIES, K_DYADIC, K_SPECIAL, K_POS, K_NKINDS };
// One finite value (K_SPECIAL may give infinities and NaN)
inline double value(Rng &r, Kind k) {
    switch (k) {
    case K_SMALLINT: return double(r.range(-5, 5));
    case K_UNI: return r.uni(-10, 10);
    case K_WIDE: {
        double m = r.uni(1, 2) * (r.chance(0.5) ? -1 : 1);
        return std::ldexp(m, int(r.range(-300, 300)));
    }
    case K_TIES: { static const double p[] = {0, 1, -1, 0.5, 2, 2, 1}; return p[r.below(7)]; }
    case K_DYADIC: return double(r.range(-4096, 4096)) / 64.0;
    case K_POS: return r.uni(0.1, 10);
    default: {
        static const double p[] = {0.0, -0.0, 1.0, -1.0, std::numeric_limits<double>::infinity(),
                                   -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(),
                                   std::numeric_limits<double>::denorm_min(), -std::numeric_limits<double>::denorm_min(),
                                   std::numeric_limits<double>::max(), std::numeric_limits<double>::lowest(),
                                   std::numeric_limits<double>::min(), 1e-10, -1e-10, 4294967296.0, 1e300};
        return p[r.below(16)];
    }
    }
}
inline Kind any_kind(Rng &r) { return Kind(r.below(K_NKINDS)); }
inline Kind finite_kind(Rng &r) {
    static const Kind k[] = {K_SMALLINT, K_UNI, K_TIES, K_DYADIC, K_POS, K_WIDE};
    return k[r.below(6)];
}
inline Kind tame_kind(Rng &r) {
    static const Kind k[] = {K_SMALLINT, K_UNI, K_TIES, K_DYADIC, K_POS};
    return k[r.below(5)];
}
inline Array values(Rng &r, size_t n, Kind k) {
    Array a(n);
    for (double &x : a) x = value(r, k);
    return a;
}
// Share of the counts that go beyond 16 bits, whatever maximum the caller asks for
// (a driver that can afford it holds a Huge).
inline double &huge_chance() { static double d = 0; return d; }
struct Huge {
    double old;
    explicit Huge(double d) : old(huge_chance()) { huge_chance() = d; }
    ~Huge() { huge_chance() = old; }
};
// the item size drawn last: wide items are not combined with huge counts
inline uint32_t &last_size() { static thread_local uint32_t n = 1; return n; }
inline uint32_t count(Rng &r, uint32_t max = 65537) {
    if (last_size() > 20) max = std::min(max, 16000 / last_size());
    if (last_size() <= 20 && huge_chance() > 0 && r.chance(huge_chance())) {
        static const uint32_t h[] = {32767, 32768, 32769, 65535, 65536, 65537, 65793, 70001, 80000, 100000, 131072, 131073, 262145, 1048577};
        return h[last_size() <= 3 ? r.below(14) : r.below(12)];
    }
    double p = r.unit();
    uint32_t c;
    if (p < 0.06) c = 0;
    else if (p < 0.12) c = 1;
    else if (p < 0.22) c = uint32_t(r.range(2, 3));
    else if (p < 0.75) c = uint32_t(r.range(4, 40));
    else if (p < 0.95) {
        static const uint32_t b[] = {31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 777, 999, 1000, 1001, 1023, 1024, 1025};
        c = b[r.below(25)];
    } else {
        static const uint32_t b[] = {2047, 2048, 2049, 4095, 4096, 4097, 5000, 8192, 9999, 10000, 10001, 16384, 20000};
        c = b[r.below(13)];
        if (r.chance(0.04)) { static const uint32_t h[] = {65535, 65536, 65537, 100000, 131072}; c = h[r.below(5)]; }
    }
    if (c > max) c = uint32_t(r.below(max + 1));
    return c;
}
inline uint32_t count1(Rng &r, uint32_t max = 65537) { return std::max<uint32_t>(1, count(r, max)); }
inline uint32_t item_size(Rng &r) {
    double p = r.unit();
    uint32_t is;
    if (p < 0.25) is = 1;
    else if (p < 0.88) is = uint32_t(r.range(2, 9));
    else if (p < 0.96) is = uint32_t(r.range(10, 20));
    else if (p < 0.98) is = uint32_t(r.range(21, 40));
    else {
        static const uint32_t w[] = {63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 1000};
        is = r.chance(0.7) ? w[r.below(13)] : uint32_t(r.range(41, 150));
    }
    return last_size() = is;
}
inline unsigned dim(Rng &r) { return r.chance(0.4) ? 2 : 3; }
// items that occur again, next to each other or further away
inline void recur(Rng &r, M &m) {
    double p = r.uni(0.1, 0.9), near = r.unit();
    for (uint32_t i = 1; i < m.n; ++i)
        if (r.chance(p)) { size_t j = r.chance(near) ? i - 1 : r.below(i); std::copy_n(m.v.begin() + std::ptrdiff_t(j * m.is), m.is, m.v.begin() + std::ptrdiff_t(size_t(i) * m.is)); }
}
inline M gen(Rng &r, uint32_t is, uint32_t n, Kind k, unsigned d = 3) {
    M m{is, n, d, values(r, size_t(is) * n, k)};
    if (r.chance(0.08)) recur(r, m);
    return m;
}
inline M gen(Rng &r, uint32_t max = 20000) {
    uint32_t is = item_size(r);
    uint32_t n = count(r, std::max<uint32_t>(40, max / is));
    return gen(r, is, n, any_kind(r), dim(r));
}
// Between lo and hi, and now and then far more
inline uint32_t size_between(Rng &r, uint32_t lo, uint32_t hi) {
    static const uint32_t w[] = {15, 16, 17, 18, 20, 25, 31, 32, 33, 40, 63, 64, 65, 70, 100, 127, 128, 129, 255, 256, 257, 300, 1000};
    return r.chance(0.94) ? uint32_t(r.range(lo, hi)) : w[r.below(23)];
}
// n items of that size, or fewer when the items are long
inline uint32_t fewer(uint32_t is, uint32_t n) { return is > 14 ? std::min(n, 60000 / is + 1) : n; }
// Usually 1, else a power of two: scales data without rounding to other magnitudes
inline double pow2(Rng &r, int lim = 100, double share = 0.3) { return r.chance(share) ? std::ldexp(1, int(r.range(-lim, lim))) : 1; }
inline void scale(Array &a, double f) {
    if (f != 1) for (double &x : a) x *= f;
}
// Several Series as the arguments of one call; an argument may be the very object another one is
struct Several {
    std::vector<Serie> own;
    std::vector<size_t> at;
    void push_back(const Serie &x) { at.push_back(own.size()); own.push_back(x); }
    size_t size() const { return at.size(); }
    const Serie &operator[](size_t i) const { return own[at[i]]; }
    void set(size_t i, const Serie &x) { at[i] = own.size(); own.push_back(x); }
    void same(size_t i, size_t j) { at[i] = at[j]; }
    std::vector<Serie> list() const { std::vector<Serie> v; for (size_t i : at) v.push_back(own[i]); return v; }
};
// Makes some arguments the same object as an earlier one (its model too)
template <class Ms> bool alias(Rng &r, Several &s, Ms &m, double share = 0.12) {
    if (s.size() < 2 || !r.chance(share)) return false;
    size_t j = r.below(s.size());
    bool all = r.chance(0.3);
    size_t i = (j + 1 + r.below(s.size() - 1)) % s.size();
    for (size_t k = 0; k < s.size(); ++k)
        if (k != j && (all || k == i)) { s.same(k, j); m[k] = m[j]; }
    return true;
}
// values which identify their position: a result shows where each came from
inline M tagged(uint32_t is, uint32_t n, double base, unsigned d = 3) {
    M m{is, n, d, Array(size_t(is) * n)};
    for (size_t i = 0; i < m.v.size(); ++i) m.v[i] = base + double(i);
    return m;
}
inline void id(Ctx &c, const M &m) {
    c.hash.u(m.is);
    c.hash.u(m.n);
    c.hash.u(m.dim);
    c.hash.a(m.v);
    if (m.n > 0) c.nontrivial = true;
}
inline std::string shape(const M &m) {
    return "is=" + std::to_string(m.is) + " n=" + std::to_string(m.n) + " dim=" + std::to_string(m.dim);
}

// -------------------------------------------------------------- comparisons
inline void check_same(const Serie &s, const M &m, const std::string &key, const std::string &what = "") {
    VF_CHECK(s.count() == m.n, key, what << " count " << s.count() << " expected " << m.n);
    VF_CHECK(s.itemSize() == m.is, key, what << " itemSize " << s.itemSize() << " expected " << m.is);
    const Array &a = s.asArray();
    VF_CHECK(a.size() == m.v.size(), key, what << " has " << a.size() << " values, expected " << m.v.size());
    for (size_t i = 0; i < a.size(); ++i)
        VF_CHECK(same_bits(a[i], m.v[i]), key, what << " value " << i << " is " << a[i] << " expected " << m.v[i] << " (itemSize " << m.is << ", count " << m.n << ")");
}
inline void check_unchanged(const Serie &s, const M &m, const std::string &key, const std::string &what = "input") {
    VF_CHECK(s.count() == m.n && s.itemSize() == m.is && s.dimension() == m.dim && identical(s.asArray(), m.v), key,
             what << " was changed: " << show(s) << " instead of " << show(m.v));
}
inline void check_shape(const Serie &s, uint32_t is, uint32_t n, const std::string &key, const std::string &what = "") {
    VF_CHECK(s.itemSize() == is && s.count() == n && s.asArray().size() == size_t(is) * n, key,
             what << " has itemSize " << s.itemSize() << ", count " << s.count() << ", " << s.asArray().size() << " values; expected itemSize " << is << ", count " << n);
}
inline bool near_enough(double got, double want, double tol) {
    return std::isnan(want) ? std::isnan(got) : std::isinf(want) ? got == want : std::fabs(got - want) <= tol;
}
#define check_near(got_, want_, tol_, key, what)                                                                            \
    do {                                                                                                                    \
        const double g_ = got_, w_ = want_, t_ = tol_;                                                                      \
        VF_CHECK(near_enough(g_, w_, t_), key, what << ": got " << g_ << " expected " << w_ << " (tolerance " << t_ << ")"); \
    } while (0)
template <class F> bool throws(F &&f) {
    try {
        f();
    } catch (const std::exception &) {
        return true;
    }
    return false;
}
// refused: throws a std::exception, or returns an invalid Serie
template <class F> bool refused(F &&f) {
    try {
        Serie s = f();
        return !s.isValid();
    } catch (const std::exception &) {
        return true;
    }
}
constexpr double EPS = std::numeric_limits<double>::epsilon();
} // namespace dfh

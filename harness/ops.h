// Registry of the operations of the library: how to call each one, which
// arguments suit it (from its documentation, not from its code), whether its
// results keep the space dimension. Shared by the checks that hold for all
// operations (C07, C25, C26, C27, C30, C31).
#pragma once
#include "mgr.h"
#include <dataframe/functional/algebra/cross.h>
#include <dataframe/functional/algebra/det.h>
#include <dataframe/functional/algebra/dot.h>
#include <dataframe/functional/algebra/eigen.h>
#include <dataframe/functional/algebra/inv.h>
#include <dataframe/functional/algebra/norm.h>
#include <dataframe/functional/algebra/transpose.h>
#include <dataframe/functional/conditional/check.h>
#include <dataframe/functional/conditional/if.h>
#include <dataframe/functional/filter.h>
#include <dataframe/functional/find.h>
#include <dataframe/functional/forEach.h>
#include <dataframe/functional/geo/areas.h>
#include <dataframe/functional/geo/cartesian_grid.h>
#include <dataframe/functional/geo/insar.h>
#include <dataframe/functional/geo/normals.h>
#include <dataframe/functional/map.h>
#include <dataframe/functional/math/add.h>
#include <dataframe/functional/math/div.h>
#include <dataframe/functional/math/equals.h>
#include <dataframe/functional/math/minMax.h>
#include <dataframe/functional/math/mult.h>
#include <dataframe/functional/math/negate.h>
#include <dataframe/functional/math/normalize.h>
#include <dataframe/functional/math/random.h>
#include <dataframe/functional/math/scale.h>
#include <dataframe/functional/math/sub.h>
#include <dataframe/functional/math/weightedSum.h>
#include <dataframe/functional/merge.h>
#include <dataframe/functional/pipe.h>
#include <dataframe/functional/reduce.h>
#include <dataframe/functional/stats/bins.h>
#include <dataframe/functional/stats/covariance.h>
#include <dataframe/functional/stats/mean.h>
#include <dataframe/functional/stats/quantile.h>
#include <dataframe/functional/utils/apply.h>
#include <dataframe/functional/utils/compose.h>
#include <dataframe/functional/utils/concat.h>
#include <dataframe/functional/utils/cut.h>
#include <dataframe/functional/utils/memoize.h>
#include <dataframe/functional/utils/parallel_execute.h>
#include <dataframe/functional/utils/partition.h>
#include <dataframe/functional/utils/partition_n.h>
#include <dataframe/functional/utils/reject.h>
#include <dataframe/functional/utils/sort.h>
#include <dataframe/functional/utils/unzip.h>
#include <dataframe/functional/utils/zip.h>
#include <dataframe/utils/nameOfSerie.h>
#include <dataframe/view/Matrix.h>
#include <dataframe/view/Vector.h>

namespace ops {
using namespace dfh;

// ---- callbacks that can be made to throw at their n-th call
struct Boom : std::runtime_error {
    Boom() : std::runtime_error("boom") {}
};
inline std::atomic<long> g_boom{-1};
inline void tick() {
    if (g_boom.load(std::memory_order_relaxed) >= 0 && g_boom.fetch_sub(1, std::memory_order_relaxed) == 0) throw Boom();
}

struct Args {
    Series s;                 // the Series
    Array d;                  // numbers
    std::vector<uint32_t> u;  // counts and sizes
    Array a;                  // an array argument
    double x(size_t i = 0) const { return i < d.size() ? d[i] : 1.5; }
    uint32_t n(size_t i = 0) const { return i < u.size() ? u[i] : 2; }
};
struct Res {
    Series s;
    Array num;
    std::string text;
    void put(const Serie &x) { s.push_back(x); }
    void put(const Series &x) { for (auto &y : x) s.push_back(y); }
    void put(double x) { num.push_back(x); }
    void put(const Array &x) { num.push_back(double(x.size())); num.insert(num.end(), x.begin(), x.end()); }
    void put(const std::string &x) { text += x + "\n"; }
};
inline bool same(const Serie &a, const Serie &b) {
    return a.itemSize() == b.itemSize() && a.count() == b.count() && a.dimension() == b.dimension() && same_bits(a.asArray(), b.asArray());
}
inline bool same(const Res &a, const Res &b) {
    if (a.s.size() != b.s.size() || !same_bits(a.num, b.num) || a.text != b.text) return false;
    for (size_t i = 0; i < a.s.size(); ++i)
        if (!same(a.s[i], b.s[i])) return false;
    return true;
}
inline bool identical(const Args &a, const Args &b) {
    if (a.s.size() != b.s.size() || !dfh::identical(a.d, b.d) || a.u != b.u || !dfh::identical(a.a, b.a)) return false;
    for (size_t i = 0; i < a.s.size(); ++i)
        if (a.s[i].itemSize() != b.s[i].itemSize() || a.s[i].count() != b.s[i].count() || a.s[i].dimension() != b.s[i].dimension() ||
            !dfh::identical(a.s[i].asArray(), b.s[i].asArray()))
            return false;
    return true;
}
inline std::string show(const Res &r) {
    std::string o;
    for (size_t i = 0; i < r.s.size() && i < 3; ++i) o += dfh::show(r.s[i]) + " ";
    if (r.num.size()) o += dfh::show(r.num);
    return o + r.text.substr(0, 100);
}
inline std::string show(const Args &a) {
    std::string o;
    for (size_t i = 0; i < a.s.size() && i < 4; ++i) o += dfh::show(a.s[i]) + " ";
    if (a.a.size()) o += "a=" + dfh::show(a.a) + " ";
    if (a.d.size()) o += "d=" + dfh::show(a.d) + " ";
    if (a.u.size()) { o += "u="; for (auto x : a.u) o += std::to_string(x) + ","; }
    return o;
}
inline void id(Ctx &c, const Args &a) {
    for (auto &s : a.s) { c.hash.u(s.itemSize()); c.hash.u(s.count()); c.hash.u(s.dimension()); c.hash.a(s.asArray()); }
    c.hash.a(a.d);
    c.hash.a(a.a);
    for (auto x : a.u) c.hash.u(x);
}

enum Fit { REFUSE = 0, ACCEPT = 1, EITHER = -1 };
inline Fit fit(bool b) { return b ? ACCEPT : REFUSE; }

enum Flags : unsigned {
    DIM = 1,       // every Serie of the result has the dimension of the first Serie
    SORTS = 2,     // orders values: NaN is not a suitable value
    CALLS = 4,     // runs callbacks
    THREADS = 8,   // starts threads
    INVALID = 16,  // refuses by an invalid Serie
    ITEMWISE = 32, // result item i depends on item i alone
};
struct Op {
    std::string name;
    unsigned flags;
    std::function<Args(Rng &, uint32_t)> make;  // suitable arguments, at most so many items
    std::function<Fit(const Args &)> suit;
    std::function<Res(const Args &)> call;
};

// ---- argument makers
inline Serie any(Rng &r, uint32_t is, uint32_t n, unsigned d) { return gen(r, is, n, tame_kind(r), d).serie(); }
inline std::vector<uint32_t> nums(Rng &r) { return {uint32_t(r.range(1, 6)), uint32_t(r.range(1, 5)), uint32_t(r.below(4))}; }
inline Args make_one(Rng &r, uint32_t max, uint32_t is, unsigned d, bool atleast1 = false) {
    return Args{{any(r, is, atleast1 ? count1(r, max) : count(r, max), d)}, {double(r.range(1, 5)) / 2, r.unit(), r.uni(0.1, 2)}, nums(r), {}};
}
inline Args one(Rng &r, uint32_t max) { return make_one(r, max, item_size(r), dim(r)); }
inline Args one1(Rng &r, uint32_t max) { return make_one(r, max, item_size(r), dim(r), true); }
inline Args scalar(Rng &r, uint32_t max) { return make_one(r, max, 1, dim(r)); }
inline Args scalar1(Rng &r, uint32_t max) { return make_one(r, max, 1, dim(r), true); }
inline Args many(Rng &r, uint32_t max, size_t k, bool same_is, bool same_n, uint32_t is0 = 0) {
    Args a = one(r, max);
    uint32_t is = is0 ? is0 : item_size(r), n = count(r, max);
    unsigned d = dim(r);
    a.s.clear();
    for (size_t i = 0; i < k; ++i) a.s.push_back(any(r, same_is ? is : item_size(r), same_n ? n : count(r, max), d));
    return a;
}
inline bool same_shape(const Args &a) {
    for (auto &s : a.s) if (s.itemSize() != a.s[0].itemSize() || s.count() != a.s[0].count()) return false;
    return true;
}
inline bool same_count(const Args &a) {
    for (auto &s : a.s) if (s.count() != a.s[0].count()) return false;
    return true;
}
inline bool same_items(const Args &a) {
    for (auto &s : a.s) if (s.itemSize() != a.s[0].itemSize()) return false;
    return true;
}
inline bool valid(const Args &a) {
    for (auto &s : a.s) if (!s.isValid()) return false;
    return true;
}
inline bool has_nan(const Args &a) {
    for (auto &s : a.s) for (double v : s.asArray()) if (std::isnan(v)) return true;
    return false;
}
inline bool in_range(const Serie &idx, uint32_t n) {
    for (double v : idx.asArray()) if (!(v >= 0 && v < n)) return false;
    return true;
}

// ---- 2, 4, 5 or 7 Series
inline Args lots(Rng &r, uint32_t m, bool same_is, bool same_n) {
    static const size_t k[] = {2, 4, 5, 7};
    return many(r, m, k[r.below(4)], same_is, same_n);
}
template <class F> auto each_of(const std::vector<Serie> &s, F &&f) {
    switch (s.size()) {
    case 2: return f(s[0], s[1]);
    case 4: return f(s[0], s[1], s[2], s[3]);
    case 5: return f(s[0], s[1], s[2], s[3], s[4]);
    default: return f(s.at(0), s.at(1), s.at(2), s.at(3), s.at(4), s.at(5), s.at(6));
    }
}
inline size_t list_size(Rng &r) { return size_t(r.chance(0.15) ? r.range(5, 40) : r.range(1, 4)); }

// ---- callbacks by kind of Serie
template <class FS, class FV> auto by(const Serie &s, FS &&scalar, FV &&vec) { return s.itemSize() == 1 ? scalar() : vec(); }
inline auto num_s(double k) { return [k](double x, uint32_t i) { tick(); return x * k + i; }; }
inline auto num_v(double k) { return [k](const Array &x, uint32_t i) { tick(); double w = i; for (double v : x) w = w * 0.5 + v * k; return w; }; }
inline auto vec_s(double k) { return [k](double x, uint32_t i) { tick(); return Array{x, k, double(i)}; }; }
inline auto vec_v(double k) { return [k](const Array &x, uint32_t i) { tick(); Array y = x; y.push_back(k + i); return y; }; }
inline auto is_s(double k, uint32_t m) { return [k, m](double x, uint32_t i) { tick(); return x > k || i % (m + 1) == 1; }; }
inline auto is_v(double k, uint32_t m) { return [k, m](const Array &x, uint32_t i) { tick(); return (x.size() && x[x.size() - 1] > k) || i % (m + 1) == 1; }; }

struct Decreasing {
    bool operator()(double x, double y) const { tick(); return x > y; }
    bool operator()(const Array &x, const Array &y) const { tick(); return std::lexicographical_compare(y.begin(), y.end(), x.begin(), x.end()); }
};

inline std::vector<Op> build() {
    std::vector<Op> v;
    auto op = [&](const char *name, unsigned flags, auto make, auto suit, auto call) { v.push_back(Op{name, flags, make, suit, call}); };
    auto ok = [](const Args &) { return ACCEPT; };
    auto valid1 = [](const Args &a) { return valid(a) ? ACCEPT : EITHER; };

    // ------------------------------------------------ item by item
    op("map-number", DIM | CALLS, one, ok, [](const Args &a) { Res r; const Serie &s = a.s[0]; r.put(s.itemSize() == 1 ? df::map(num_s(a.x()), s) : df::map(num_v(a.x()), s)); return r; });
    op("map-array", DIM | CALLS, one, ok, [](const Args &a) { Res r; const Serie &s = a.s[0]; r.put(s.itemSize() == 1 ? df::map(vec_s(a.x()), s) : df::map(vec_v(a.x()), s)); return r; });
    op("map-ragged", CALLS, one1, [](const Args &a) { return a.s[0].count() >= 2 ? REFUSE : EITHER; }, [](const Args &a) {
        Res r; const Serie &s = a.s[0]; uint32_t n = s.count(), at = n ? (a.n() * 7919u) % n : 0, at1 = std::max(1u, at);
        auto size = [at1](uint32_t i) { return i == at1 ? 3 : 2; };
        r.put(s.itemSize() == 1 ? df::map([=](double x, uint32_t i) { return Array(size(i), x); }, s) : df::map([=](const Array &x, uint32_t i) { return Array(size(i), double(x.size())); }, s)); return r; });
    op("apply", DIM | CALLS, one, ok, [](const Args &a) { Res r; const Serie &s = a.s[0]; r.put(s.itemSize() == 1 ? df::utils::apply(num_s(a.x()), s) : df::utils::apply(num_v(a.x()), s)); return r; });
    op("member-map", DIM | CALLS, one, ok, [](const Args &a) { Res r; const Serie &s = a.s[0]; r.put(s.itemSize() == 1 ? s.map(num_s(a.x())) : s.map(vec_v(a.x()))); return r; });
    op("forEach", CALLS, one, ok, [](const Args &a) { Res r; const Serie &s = a.s[0]; Array log;
        if (s.itemSize() == 1) df::forEach([&](double x, uint32_t i) { tick(); log.push_back(x); log.push_back(i); }, s);
        else s.forEach([&](const Array &x, uint32_t i) { tick(); log.insert(log.end(), x.begin(), x.end()); log.push_back(i); });
        r.put(log); return r; });
    op("forEach-wrong-callback", CALLS, one1, [](const Args &a) { return valid(a) ? REFUSE : EITHER; }, [](const Args &a) { Res r; const Serie &s = a.s[0]; double k = 0;
        if (s.itemSize() == 1) df::forEach([&](const Array &x, uint32_t) { k += double(x.size()); }, s); else df::forEach([&](double x, uint32_t) { k += x; }, s);
        r.put(k); return r; });
    op("reduce", DIM | CALLS, one, valid1, [](const Args &a) { Res r; const Serie &s = a.s[0];
        if (s.itemSize() == 1) r.put(df::reduce([](double acc, double x, uint32_t i) { tick(); return acc * 0.5 + x + i; }, s, a.x()));
        else r.put(df::reduce([](const Array &acc, const Array &x, uint32_t) { tick(); Array y = acc; for (size_t k = 0; k < y.size() && k < x.size(); ++k) y[k] = y[k] * 0.5 + x[k]; return y; }, s, Array(s.itemSize(), a.x())));
        return r; });
    op("map-two", DIM | CALLS, [](Rng &r, uint32_t m) { return many(r, m, 2, false, true); }, [](const Args &a) { return fit(same_count(a)); }, [](const Args &a) { Res r;
        r.put(df::map([](const Array &x, const Array &y, uint32_t i) { tick(); return double(x.size()) * i - (y.size() ? y[0] : 0); }, a.s[0], a.s[1]));
        r.put(df::map([](const Array &x, const Array &y, uint32_t) { tick(); Array z = x; z.insert(z.end(), y.begin(), y.end()); return z; }, a.s[0], a.s[1])); return r; });
    op("map-three", DIM | CALLS, [](Rng &r, uint32_t m) { return many(r, m, 3, false, true); }, [](const Args &a) { return fit(same_count(a)); }, [](const Args &a) { Res r;
        r.put(df::utils::apply([](const Array &x, const Array &y, const Array &z, uint32_t i) { tick(); return Array{double(i), double(x.size()), double(y.size()), z.size() ? z[0] : 0}; }, a.s[0], a.s[1], a.s[2])); return r; });
    op("forEach-two", CALLS, [](Rng &r, uint32_t m) { return many(r, m, 2, false, true); }, [](const Args &a) { return fit(same_count(a)); }, [](const Args &a) { Res r; Array log;
        df::forEach([&](const Array &x, const Array &y, uint32_t i) { tick(); log.insert(log.end(), x.begin(), x.end()); log.insert(log.end(), y.begin(), y.end()); log.push_back(i); }, a.s[0], a.s[1]); r.put(log); return r; });
    op("check", DIM | CALLS, one, ok, [](const Args &a) { Res r; const Serie &s = a.s[0]; r.put(s.itemSize() == 1 ? df::cond::check(s, is_s(a.x(), a.n())) : df::cond::check(s, is_v(a.x(), a.n()))); return r; });
    op("if_then_else", DIM | CALLS, one, ok, [](const Args &a) { Res r; const Serie &s = a.s[0]; double k = a.x();
        if (s.itemSize() == 1) r.put(df::cond::if_then_else(s, [k](double x) { tick(); return x > k; }, [](double x, uint32_t i, const Serie &) { tick(); return x + i; }, [](double x, uint32_t, const Serie &w) { tick(); return x - w.count(); }));
        else r.put(df::cond::if_then_else(s, [k](const Array &x) { tick(); return x.size() && x[0] > k; }, [](const Array &x, uint32_t, const Serie &) { tick(); return x; }, [](const Array &x, uint32_t i, const Serie &) { tick(); return Array(x.size(), double(i)); }));
        return r; });

    // ------------------------------------------------ selection
    op("filter", DIM | CALLS, one, ok, [](const Args &a) { Res r; const Serie &s = a.s[0]; r.put(s.itemSize() == 1 ? df::filter(is_s(a.x(), a.n()), s) : df::filter(is_v(a.x(), a.n()), s)); return r; });
    op("member-filter", DIM | CALLS, one, ok, [](const Args &a) { Res r; const Serie &s = a.s[0]; r.put(s.itemSize() == 1 ? s.filter(is_s(a.x(), a.n())) : s.filter(is_v(a.x(), a.n()))); return r; });
    op("reject", DIM | CALLS, one, ok, [](const Args &a) { Res r; const Serie &s = a.s[0]; r.put(s.itemSize() == 1 ? df::utils::reject(is_s(a.x(), a.n()), s) : df::utils::reject(is_v(a.x(), a.n()), s)); return r; });
    op("cut", DIM | CALLS, one, ok, [](const Args &a) { Res r; const Serie &s = a.s[0]; r.put(s.itemSize() == 1 ? df::utils::cut(is_s(a.x(), a.n()), s) : df::utils::cut(is_v(a.x(), a.n()), s)); return r; });
    op("findAll", DIM | CALLS, one, ok, [](const Args &a) { Res r; const Serie &s = a.s[0]; r.put(s.itemSize() == 1 ? df::findAll(is_s(a.x(), a.n()), s) : df::findAll(is_v(a.x(), a.n()), s)); return r; });
    op("find", CALLS, one, ok, [](const Args &a) { Res r; const Serie &s = a.s[0];
        if (s.itemSize() == 1) { auto f = df::find(is_s(a.x(), a.n()), s); r.put(f.found); r.put(f.index); r.put(f.value); }
        else { auto f = df::find(is_v(a.x(), a.n()), s); r.put(f.found); r.put(f.index); r.put(f.value); }
        return r; });
    op("find-wrong-callback", CALLS, one1, [](const Args &a) { return valid(a) ? REFUSE : EITHER; }, [](const Args &a) { Res r; const Serie &s = a.s[0];
        if (s.itemSize() == 1) r.put(df::find([](const Array &, uint32_t) { return true; }, s).found); else r.put(df::find([](double, uint32_t) { return true; }, s).found);
        return r; });
    op("partition", DIM | CALLS, one, ok, [](const Args &a) { Res r; const Serie &s = a.s[0];
        auto t = s.itemSize() == 1 ? df::utils::partition(is_s(a.x(), a.n()), s) : df::utils::partition(is_v(a.x(), a.n()), s); r.put(std::get<0>(t)); r.put(std::get<1>(t)); return r; });
    op("partition-wrong-callback", CALLS, [](Rng &r, uint32_t m) { return make_one(r, m, uint32_t(r.range(2, 6)), dim(r), true); }, [](const Args &a) { return !valid(a) || a.s[0].itemSize() == 1 ? EITHER : REFUSE; }, [](const Args &a) { Res r;
        auto t = df::utils::partition([](double, uint32_t) { return true; }, a.s[0]); r.put(std::get<0>(t)); r.put(std::get<1>(t)); return r; });
    op("filter-two", DIM | CALLS, [](Rng &r, uint32_t m) { return many(r, m, 2, false, true); }, [](const Args &a) { return fit(same_count(a)); }, [](const Args &a) { Res r; double k = a.x();
        auto t = df::filter([k](const Array &x, const Array &y, uint32_t i) { tick(); return (x.size() && x[0] > k) || i % 3 == 1 || y.empty(); }, a.s[0], a.s[1]); r.put(std::get<0>(t)); r.put(std::get<1>(t)); return r; });
    op("reject-two", DIM | CALLS, [](Rng &r, uint32_t m) { return many(r, m, 2, false, true); }, [](const Args &a) { return fit(same_count(a)); }, [](const Args &a) { Res r; double k = a.x();
        auto t = df::utils::reject([k](const Array &x, const Array &y, uint32_t i) { tick(); return (x.size() && x[0] > k) || i % 3 == 1 || y.empty(); }, a.s[0], a.s[1]); r.put(std::get<0>(t)); r.put(std::get<1>(t)); return r; });
    op("filterAll", DIM | CALLS, [](Rng &r, uint32_t m) { return many(r, m, 3, false, true); }, [](const Args &a) { return fit(same_count(a)); }, [](const Args &a) { Res r; double k = a.x();
        r.put(df::filterAll([k](const Array &x, const Array &y, const Array &z) { tick(); return (x.size() ? x[0] : 0) + (y.size() ? y[0] : 0) - (z.size() ? z[0] : 0) > k; }, a.s[0], a.s[1], a.s[2])); return r; });
    op("rejectAll", DIM | CALLS, [](Rng &r, uint32_t m) { return many(r, m, 2, false, true); }, [](const Args &a) { return fit(same_count(a)); }, [](const Args &a) { Res r; double k = a.x();
        r.put(df::utils::rejectAll([k](const Array &x, const Array &y) { tick(); return (x.size() ? x[0] : 0) > k || y.empty(); }, a.s[0], a.s[1])); return r; });

    // ------------------------------------------------ joining and splitting
    op("zip", DIM, [](Rng &r, uint32_t m) { return many(r, m, 3, false, true); }, [](const Args &a) { return fit(valid(a) && same_count(a)); }, [](const Args &a) { Res r; r.put(df::utils::zip(a.s[0], a.s[1], a.s[2])); return r; });
    op("zipVector", DIM, [](Rng &r, uint32_t m) { return many(r, m, list_size(r), false, true); }, [](const Args &a) { return fit(a.s.size() && valid(a) && same_count(a)); }, [](const Args &a) { Res r; r.put(df::utils::zipVector(a.s)); return r; });
    op("unzip", DIM, [](Rng &r, uint32_t m) { Args a = one(r, m); a.u.clear(); for (uint32_t left = a.s[0].itemSize(); left;) { uint32_t k = uint32_t(r.range(1, left)); a.u.push_back(k); left -= k; } return a; },
       [](const Args &a) { uint64_t t = 0; for (auto k : a.u) { if (!k) return EITHER; t += k; } return fit(a.u.size() && t == a.s[0].itemSize()); }, [](const Args &a) { Res r; r.put(df::utils::unzip(a.s[0], a.u)); return r; });
    op("concat", DIM, [](Rng &r, uint32_t m) { return many(r, m, 3, true, false); }, [](const Args &a) { return fit(valid(a) && same_items(a)); }, [](const Args &a) { Res r; r.put(df::utils::concat(a.s[0], a.s[1], a.s[2])); return r; });
    op("concat-list", DIM, [](Rng &r, uint32_t m) { return many(r, m, list_size(r), true, false); }, [](const Args &a) { return fit(a.s.size() && valid(a) && same_items(a)); }, [](const Args &a) { Res r; r.put(df::utils::concat(a.s)); return r; });
    op("merge", DIM, [](Rng &r, uint32_t m) { return many(r, m, 2, true, false); }, [](const Args &a) { return !same_items(a) ? REFUSE : valid(a) ? ACCEPT : EITHER; }, [](const Args &a) { Res r; r.put(df::merge(a.s[0], a.s[1])); r.put(df::merge(a.s[0], a.s[1], false)); return r; });
    op("merge-many", DIM, [](Rng &r, uint32_t m) { return many(r, m, 3, true, false); }, [](const Args &a) { return !same_items(a) ? REFUSE : valid(a) ? ACCEPT : EITHER; }, [](const Args &a) { Res r; r.put(df::merge(true, a.s[0], a.s[1], a.s[2])); r.put(df::merge(false, a.s[0], a.s[1], a.s[2])); return r; });
    op("partition_n", DIM, one, [](const Args &a) { return fit(a.n() > 0); }, [](const Args &a) { Res r; r.put(df::utils::partition_n(a.n(), a.s[0])); return r; });
    op("partition_n-two", DIM, [](Rng &r, uint32_t m) { return many(r, m, 2, false, true); }, [](const Args &a) { return fit(a.n() > 0 && same_count(a)); }, [](const Args &a) { Res r; for (auto &w : df::utils::partition_n(a.n(), a.s[0], a.s[1])) r.put(w); return r; });
    op("sort", DIM | SORTS, one, valid1, [](const Args &a) { Res r; r.put(df::utils::sort(a.s[0])); return r; });
    op("sort-comparator", DIM | SORTS | CALLS, one, valid1, [](const Args &a) { Res r; r.put(df::utils::sort(a.s[0], Decreasing{})); return r; });
    op("copy", DIM, one, ok, [](const Args &a) { Res r; Serie x(a.s[0]), y; y = x; r.put(x); r.put(y); r.put(y.clone()); if (valid(a)) r.put(df::toSerie(x.itemSize(), x.asArray(), x.dimension())); return r; });
    op("items", 0, one, ok, [](const Args &a) { Res r; const Serie &s = a.s[0]; for (uint32_t i = 0; i < s.count(); ++i) { r.put(s.value(i)); r.put(s.get<Array>(i)); if (s.itemSize() == 1) { r.put(s.get<double>(i)); r.put(s.scalar(i)); } } return r; });
    op("item-beyond", 0, one, [](const Args &) { return REFUSE; }, [](const Args &a) { Res r; const Serie &s = a.s[0]; uint32_t i = s.count() + a.n(2), k = uint32_t(s.asArray().size()) + a.n(2);
        switch (a.n() % 4) { case 0: r.put(s.value(i)); break; case 1: r.put(s.get<Array>(i)); break; case 2: r.put(s.scalar(k)); break; default: r.put(s.get<double>(k)); } return r; });

    // ------------------------------------------------ arithmetic
    op("add-number", DIM, scalar, [](const Args &a) { return fit(a.s[0].itemSize() == 1); }, [](const Args &a) { Res r; r.put(df::math::add(a.s[0], a.x())); return r; });
    op("sub-number", DIM, scalar, [](const Args &a) { return fit(a.s[0].itemSize() == 1); }, [](const Args &a) { Res r; r.put(df::math::sub(a.s[0], a.x())); return r; });
    op("add", DIM, [](Rng &r, uint32_t m) { return many(r, m, 2, true, true); }, [](const Args &a) { return !same_shape(a) ? REFUSE : valid(a) ? ACCEPT : EITHER; }, [](const Args &a) { Res r; r.put(df::math::add(a.s[0], a.s[1])); return r; });
    op("sub", DIM, [](Rng &r, uint32_t m) { return many(r, m, 2, true, true); }, [](const Args &a) { return !same_shape(a) ? REFUSE : valid(a) ? ACCEPT : EITHER; }, [](const Args &a) { Res r; r.put(df::math::sub(a.s[0], a.s[1])); return r; });
    op("add-many", DIM, [](Rng &r, uint32_t m) { return many(r, m, 3, true, true); }, [](const Args &a) { return !same_shape(a) ? REFUSE : valid(a) ? ACCEPT : EITHER; }, [](const Args &a) { Res r; r.put(df::math::add(a.s[0], a.s[1], a.s[2])); return r; });
    op("sub-many", DIM, [](Rng &r, uint32_t m) { return many(r, m, 3, true, true); }, [](const Args &a) { return !same_shape(a) ? REFUSE : valid(a) ? ACCEPT : EITHER; }, [](const Args &a) { Res r; r.put(df::math::sub(a.s[0], a.s[1], a.s[2])); return r; });
    op("add-list", DIM, [](Rng &r, uint32_t m) { return many(r, m, 3, true, true); }, [](const Args &a) { return !same_shape(a) ? REFUSE : valid(a) ? ACCEPT : EITHER; }, [](const Args &a) { Res r; r.put(df::math::add({a.s[0], a.s[1], a.s[2]})); return r; });
    op("sub-list", DIM, [](Rng &r, uint32_t m) { return many(r, m, 3, true, true); }, [](const Args &a) { return !same_shape(a) ? REFUSE : valid(a) ? ACCEPT : EITHER; }, [](const Args &a) { Res r; r.put(df::math::sub({a.s[0], a.s[1], a.s[2]})); return r; });
    op("weigthedSum", DIM, [](Rng &r, uint32_t m) { Args a = many(r, m, 3, true, true); a.a = values(r, 3, K_UNI); return a; }, [](const Args &a) { return !same_shape(a) || a.a.size() != 3 ? REFUSE : valid(a) ? ACCEPT : EITHER; },
       [](const Args &a) { Res r; r.put(df::math::weigthedSum({a.s[0], a.s[1], a.s[2]}, a.a)); return r; });
    op("mult-number", DIM, one, ok, [](const Args &a) { Res r; r.put(df::math::mult(a.s[0], a.x())); return r; });
    op("mult", DIM, [](Rng &r, uint32_t m) { Args a = many(r, m, 2, true, true); if (r.chance(0.5)) a.s[1] = any(r, 1, a.s[0].count(), a.s[0].dimension()); return a; },
       [](const Args &a) { uint32_t p = a.s[0].itemSize(), q = a.s[1].itemSize(); bool good = q == 1 || q == p; return !same_count(a) ? REFUSE : good ? ACCEPT : p == 1 || a.s[0].count() ? REFUSE : EITHER; },
       [](const Args &a) { Res r; r.put(df::math::mult(a.s[0], a.s[1])); return r; });
    op("div-number", DIM, one, ok, [](const Args &a) { Res r; r.put(df::math::div(a.x(), a.s[0])); return r; });
    op("div", DIM, [](Rng &r, uint32_t m) { Args a = many(r, m, 2, false, true); a.s[0] = any(r, 1, a.s[1].count(), a.s[1].dimension()); return a; }, [](const Args &a) { return fit(valid(a) && same_count(a) && a.s[0].itemSize() == 1); },
       [](const Args &a) { Res r; r.put(df::math::div(a.s[0], a.s[1])); return r; });
    op("scale-number", DIM, one, ok, [](const Args &a) { Res r; r.put(df::math::scale(a.s[0], a.x())); return r; });
    op("scale", DIM, [](Rng &r, uint32_t m) { Args a = one(r, m); a.a = values(r, a.s[0].itemSize(), K_UNI); return a; }, [](const Args &a) { return fit(a.a.size() == a.s[0].itemSize()); }, [](const Args &a) { Res r; r.put(df::math::scale(a.s[0], a.a)); return r; });
    op("negate", DIM, one, ok, [](const Args &a) { Res r; r.put(df::math::negate(a.s[0])); return r; });
    op("normalize", DIM, one, [](const Args &a) { return fit(valid(a)); }, [](const Args &a) { Res r; r.put(df::math::normalize(a.s[0])); return r; });
    op("minMax", 0, one, [](const Args &a) { return fit(valid(a)); }, [](const Args &a) { Res r; auto m = df::math::minMax(a.s[0]); r.put(m.min); r.put(m.max); return r; });
    op("random", 0, [](Rng &r, uint32_t m) { Args a; a.u = {count(r, m), item_size(r), uint32_t(r.next())}; double lo = r.uni(-10, 10); a.d = {lo, lo + r.uni(0.1, 10)}; return a; }, [](const Args &a) { return a.u.size() < 3 || a.d.size() < 2 || a.n(1) == 0 || a.n(1) > 50 || a.n() > 100000 || !(a.x() < a.x(1)) ? EITHER : ACCEPT; },
       [](const Args &a) { Res r; if (a.n() <= 100000 && a.n(1) <= 50 && a.x() < a.x(1)) r.put(df::math::random(a.n(), a.n(1), a.x(), a.x(1), a.n(2))); return r; });

    // ------------------------------------------------ comparison
    op("equals", 0, [](Rng &r, uint32_t m) { Args a = many(r, m, 2, true, true); if (r.chance(0.5)) a.s[1] = a.s[0]; return a; }, ok, [](const Args &a) { Res r; r.put(df::math::equals(a.s[0], a.s[1])); r.put(df::math::approximatelyEquals(a.s[0], a.s[1])); r.put(df::math::approximatelyEquals(a.s[0], a.s[1], a.x())); return r; });
    op("equalsAll", 0, [](Rng &r, uint32_t m) { Args a = many(r, m, 3, true, true); a.s[1] = a.s[0]; if (r.chance(0.5)) a.s[2] = a.s[0]; return a; }, ok, [](const Args &a) { Res r; r.put(df::math::equalsAll(a.s[0], a.s[1], a.s[2])); return r; });
    // ------------------------------------------------ the same with more Series
    auto same_or_not = [](const Args &a) { return !same_shape(a) ? REFUSE : valid(a) ? ACCEPT : EITHER; };
    auto shaped = [](Rng &r, uint32_t m) { return lots(r, m, true, true); };
    auto counted = [](Rng &r, uint32_t m) { return lots(r, m, false, true); };
    auto itemed = [](Rng &r, uint32_t m) { return lots(r, m, true, false); };
    op("zip-lots", DIM, counted, [](const Args &a) { return fit(valid(a) && same_count(a)); }, [](const Args &a) { Res r; r.put(each_of(a.s, [](const auto &...s) { return df::utils::zip(s...); })); return r; });
    op("concat-lots", DIM, itemed, [](const Args &a) { return fit(valid(a) && same_items(a)); }, [](const Args &a) { Res r; r.put(each_of(a.s, [](const auto &...s) { return df::utils::concat(s...); })); return r; });
    op("merge-lots", DIM, itemed, [](const Args &a) { return !same_items(a) ? REFUSE : valid(a) ? ACCEPT : EITHER; }, [](const Args &a) { Res r; bool b = a.n() % 2; r.put(each_of(a.s, [b](const auto &...s) { return df::merge(b, s...); })); return r; });
    op("add-lots", DIM, shaped, same_or_not, [](const Args &a) { Res r; r.put(each_of(a.s, [](const auto &...s) { return df::math::add(s...); })); return r; });
    op("sub-lots", DIM, shaped, same_or_not, [](const Args &a) { Res r; r.put(each_of(a.s, [](const auto &...s) { return df::math::sub(s...); })); return r; });
    op("add-list-lots", DIM, shaped, same_or_not, [](const Args &a) { Res r; r.put(each_of(a.s, [](const auto &...s) { return df::math::add({s...}); })); return r; });
    op("sub-list-lots", DIM, shaped, same_or_not, [](const Args &a) { Res r; r.put(each_of(a.s, [](const auto &...s) { return df::math::sub({s...}); })); return r; });
    op("weigthedSum-lots", DIM, [](Rng &r, uint32_t m) { Args a = lots(r, m, true, true); a.a = values(r, a.s.size(), K_UNI); return a; }, [](const Args &a) { return !same_shape(a) || a.a.size() != a.s.size() ? REFUSE : valid(a) ? ACCEPT : EITHER; },
       [](const Args &a) { Res r; r.put(each_of(a.s, [&](const auto &...s) { return df::math::weigthedSum({s...}, a.a); })); return r; });
    op("equalsAll-lots", 0, [](Rng &r, uint32_t m) { Args a = lots(r, m, true, true); for (auto &s : a.s) if (r.chance(0.8)) s = a.s[0]; return a; }, ok, [](const Args &a) { Res r; r.put(each_of(a.s, [](const auto &...s) { return df::math::equalsAll(s...); })); return r; });
    op("filterAll-lots", DIM | CALLS, counted, [](const Args &a) { return fit(same_count(a)); }, [](const Args &a) { Res r; double k = a.x();
        r.put(each_of(a.s, [k](const auto &...s) { return df::filterAll([k](const auto &...x) -> bool { tick(); return (0. + ... + (x.size() ? x[0] : 0)) > k; }, s...); })); return r; });
    op("rejectAll-lots", DIM | CALLS, counted, [](const Args &a) { return fit(same_count(a)); }, [](const Args &a) { Res r; double k = a.x();
        r.put(each_of(a.s, [k](const auto &...s) { return df::utils::rejectAll([k](const auto &...x) -> bool { tick(); return (0. + ... + (x.size() ? x[0] : 0)) > k; }, s...); })); return r; });
    op("partition_n-lots", DIM, counted, [](const Args &a) { return fit(a.n() > 0 && same_count(a)); }, [](const Args &a) { Res r; each_of(a.s, [&](const auto &...s) { for (auto &w : df::utils::partition_n(a.n(), s...)) r.put(w); return 0; }); return r; });
    op("countAndCheck-lots", 0, counted, [](const Args &a) { return fit(same_count(a)); }, [](const Args &a) { Res r; each_of(a.s, [&](const auto &...s) { for (auto n : df::utils::countAndCheck(s...)) r.put(double(n)); return 0; }); for (auto n : df::utils::countAndCheck(a.s)) r.put(double(n)); return r; });
    op("equalityMask", DIM, [](Rng &r, uint32_t m) { return many(r, m, 2, true, true); }, [](const Args &a) { return fit(valid(a) && same_shape(a)); }, [](const Args &a) { Res r; r.put(df::math::equalityMask(a.s[0], a.s[1])); return r; });
    op("approximateEqualityMask", DIM, [](Rng &r, uint32_t m) { return many(r, m, 2, true, true); }, [](const Args &a) { return fit(valid(a) && same_shape(a)); }, [](const Args &a) { Res r; r.put(df::math::approximateEqualityMask(a.s[0], a.s[1], a.x())); return r; });

    // ------------------------------------------------ algebra
    op("norm", DIM | INVALID, one, [](const Args &a) { return !valid(a) || !a.s[0].count() ? EITHER : ACCEPT; }, [](const Args &a) { Res r; r.put(df::algebra::norm(a.s[0])); return r; });
    op("norm2", DIM | INVALID, one, [](const Args &a) { return fit(valid(a)); }, [](const Args &a) { Res r; r.put(df::algebra::norm2(a.s[0])); return r; });
    op("dot", DIM, [](Rng &r, uint32_t m) { return many(r, m, 2, true, true); }, [](const Args &a) { return !same_shape(a) ? REFUSE : valid(a) ? ACCEPT : EITHER; }, [](const Args &a) { Res r; r.put(df::algebra::dot(a.s[0], a.s[1])); return r; });
    op("dot-array", DIM | INVALID, [](Rng &r, uint32_t m) { Args a = one1(r, m); a.a = values(r, a.s[0].itemSize(), K_UNI); return a; }, [](const Args &a) { return a.a.size() != a.s[0].itemSize() ? REFUSE : valid(a) && a.s[0].count() ? ACCEPT : EITHER; }, [](const Args &a) { Res r; r.put(df::algebra::dot(a.s[0], a.a)); return r; });
    op("cross", DIM, [](Rng &r, uint32_t m) { return many(r, m, 2, true, true, 3); }, [](const Args &a) { return fit(valid(a) && same_shape(a) && a.s[0].itemSize() == 3); }, [](const Args &a) { Res r; r.put(df::algebra::cross(a.s[0], a.s[1])); return r; });
    auto det_shape = [](const Serie &s) { uint32_t k = s.itemSize(); return s.dimension() == 2 ? k == 3 || k == 4 : s.dimension() == 3 && (k == 6 || k == 9); };
    op("det", DIM, [](Rng &r, uint32_t m) { unsigned d = dim(r); return make_one(r, m, d == 2 ? uint32_t(r.range(3, 4)) : r.chance(0.5) ? 6 : 9, d); }, [=](const Args &a) { return !valid(a) ? REFUSE : det_shape(a.s[0]) ? ACCEPT : a.s[0].count() ? REFUSE : EITHER; }, [](const Args &a) { Res r; r.put(df::algebra::det(a.s[0])); return r; });
    op("inv", DIM | INVALID, [](Rng &r, uint32_t m) { uint32_t k = r.chance(0.5) ? 6 : 9; M x = gen(r, k, count1(r, m), K_UNI, 3); for (uint32_t i = 0; i < x.n; ++i) for (uint32_t j : (k == 6 ? std::vector<uint32_t>{0, 3, 5} : std::vector<uint32_t>{0, 4, 8})) x.v[size_t(i) * k + j] += 40; return Args{{x.serie()}, {1}, nums(r), {}}; },
       [](const Args &a) {
           const Serie &s = a.s[0]; uint32_t k = s.itemSize();
           if (!valid(a) || s.dimension() != 3 || (k != 6 && k != 9)) return REFUSE;
           for (uint32_t i = 0; i < s.count(); ++i) {  // diagonally dominant: certainly regular
               Array m = s.value(i);
               for (double x : m) if (!(std::fabs(x) < 100)) return EITHER;
               if (k == 6 ? !(m[0] >= 30 && m[3] >= 30 && m[5] >= 30 && std::fabs(m[1]) <= 10 && std::fabs(m[2]) <= 10 && std::fabs(m[4]) <= 10) : !(m[0] >= 30 && m[4] >= 30 && m[8] >= 30 && std::fabs(m[1]) <= 10 && std::fabs(m[2]) <= 10 && std::fabs(m[3]) <= 10 && std::fabs(m[5]) <= 10 && std::fabs(m[6]) <= 10 && std::fabs(m[7]) <= 10)) return EITHER;
           }
           return s.count() ? ACCEPT : EITHER; },
       [](const Args &a) { Res r; r.put(df::algebra::inv(a.s[0])); return r; });
    op("transpose", DIM, [](Rng &r, uint32_t m) { return make_one(r, m, r.chance(0.5) ? 4 : 9, dim(r)); }, [](const Args &a) { uint32_t k = a.s[0].itemSize(); return fit(k == 4 || k == 9); }, [](const Args &a) { Res r; r.put(df::algebra::transpose(a.s[0])); return r; });
    auto sym = [](Rng &r, uint32_t m) { unsigned d = dim(r); return make_one(r, m, d == 2 ? 3 : 6, d); };
    auto sym_fit = [](const Args &a) { const Serie &s = a.s[0]; if (!((s.dimension() == 2 && s.itemSize() == 3) || (s.dimension() == 3 && s.itemSize() == 6))) return s.dimension() == 2 || s.dimension() == 3 ? REFUSE : EITHER; for (double v : s.asArray()) if (!std::isfinite(v)) return EITHER; return ACCEPT; };
    op("eigenValues", DIM, sym, sym_fit, [](const Args &a) { Res r; r.put(df::algebra::eigenValues(a.s[0])); return r; });
    op("eigenVectors", DIM, sym, sym_fit, [](const Args &a) { Res r; r.put(df::algebra::eigenVectors(a.s[0])); return r; });
    op("eigenSystem", DIM, sym, sym_fit, [](const Args &a) { Res r; auto t = df::algebra::eigenSystem(a.s[0]); r.put(std::get<0>(t)); r.put(std::get<1>(t)); return r; });

    // ------------------------------------------------ statistics
    op("mean", 0, one, valid1, [](const Args &a) { Res r; auto m = df::stats::mean(a.s[0]); r.put(m.isNumber); if (m.isNumber) r.put(m.number); else r.put(m.array); return r; });
    op("covariance", 0, [](Rng &r, uint32_t m) { return many(r, m, 2, true, true, 1); }, [](const Args &a) { return fit(same_count(a) && a.s[0].itemSize() == 1 && a.s[1].itemSize() == 1); }, [](const Args &a) { Res r; r.put(df::stats::covariance(a.s[0], a.s[1])); return r; });
    auto sample = [](const Args &a) { return fit(a.s[0].itemSize() == 1 && a.s[0].count() > 0); };
    op("quantile", SORTS, scalar1, [](const Args &a) { return fit(a.s[0].itemSize() == 1 && a.s[0].count() > 0 && a.x(1) >= 0 && a.x(1) <= 1); }, [](const Args &a) { Res r; r.put(df::stats::quantile(a.s[0], a.x(1))); return r; });
    op("quartiles", SORTS, scalar1, sample, [](const Args &a) { Res r; r.put(df::stats::q25(a.s[0])); r.put(df::stats::q50(a.s[0])); r.put(df::stats::q75(a.s[0])); r.put(df::stats::IQR(a.s[0])); return r; });
    op("outliers", DIM | SORTS, scalar1, sample, [](const Args &a) { Res r; r.put(df::stats::outliers(a.s[0], a.x(2))); return r; });
    op("notOutliers", DIM | SORTS, scalar1, sample, [](const Args &a) { Res r; r.put(df::stats::notOutliers(a.s[0], a.x(2))); return r; });
    op("isOutliers", DIM | SORTS, scalar1, sample, [](const Args &a) { Res r; r.put(df::stats::isOutliers(a.s[0], a.x(2))); return r; });
    op("bins", INVALID, scalar1, [](const Args &a) { if (a.s[0].itemSize() != 1 || !a.n()) return REFUSE; for (double v : a.s[0].asArray()) if (!(std::fabs(v) < 1e100)) return EITHER; return ACCEPT; }, [](const Args &a) { Res r; r.put(df::stats::bins(a.s[0], std::min(a.n(), 100000u))); return r; });
    op("bins-interval", INVALID, [](Rng &r, uint32_t m) { Args a = scalar(r, m); double lo = -10.5; for (double v : a.s[0].asArray()) lo = std::min(lo, v); a.d = {lo, lo + r.uni(1, 50)}; return a; },
       [](const Args &a) { if (a.s[0].itemSize() != 1 || !a.n()) return REFUSE; if (!(a.x() < a.x(1))) return EITHER; for (double v : a.s[0].asArray()) { if (!(std::fabs(v) < 1e100)) return EITHER; if (v < a.x()) return v < a.x() - 1e-3 ? REFUSE : EITHER; } return ACCEPT; },
       [](const Args &a) { Res r; r.put(df::stats::bins(a.s[0], std::min(a.n(), 100000u), a.x(), a.x(1))); return r; });

    // ------------------------------------------------ geo
    op("insar", DIM | INVALID, [](Rng &r, uint32_t m) { Args a = make_one(r, m, 3, dim(r), true); a.a = values(r, 3, K_UNI); return a; }, [](const Args &a) { return a.s[0].itemSize() != 3 || a.a.size() != 3 ? REFUSE : a.s[0].count() ? ACCEPT : EITHER; }, [](const Args &a) { Res r; r.put(df::geo::insar(a.s[0], a.a)); return r; });
    op("fringes", DIM | INVALID, scalar1, [](const Args &a) { return a.s[0].itemSize() != 1 ? REFUSE : a.s[0].count() ? ACCEPT : EITHER; }, [](const Args &a) { Res r; r.put(df::geo::fringes(a.s[0], a.x())); return r; });
    auto a_mesh = [](Rng &r, uint32_t m) { Model w; mesh(r, w, uint32_t(r.range(3, 30)), count1(r, m)); Args a = one(r, 4); a.s = {w["positions"].serie(), w["indices"].serie()}; return a; };
    auto mesh_fit = [](const Args &a) { return !valid(a) || a.s[0].itemSize() != 3 || a.s[1].itemSize() != 3 ? REFUSE : in_range(a.s[1], a.s[0].count()) ? (a.s[1].count() ? ACCEPT : EITHER) : REFUSE; };
    op("normals", INVALID, a_mesh, mesh_fit, [](const Args &a) { Res r; r.put(df::geo::normals(a.s[0], a.s[1])); return r; });
    op("areas", INVALID, a_mesh, mesh_fit, [](const Args &a) { Res r; r.put(df::geo::areas(a.s[0], a.s[1])); return r; });
    op("grid", 0, [](Rng &r, uint32_t) { Args a; for (int i = int(r.range(1, 3)); i > 0; --i) a.u.push_back(uint32_t(r.range(1, 6))); a.a = values(r, 3, K_UNI); a.d = values(r, 3, K_POS); return a; },
       [](const Args &a) { uint64_t t = 1; for (auto k : a.u) t *= k; return t > 100000 ? EITHER : fit(a.u.size() >= 1 && a.u.size() <= 3 && a.a.size() == 3 && a.d.size() == 3); },
       [](const Args &a) { Res r; uint64_t t = 1; for (auto k : a.u) t *= k; if (t <= 100000) { r.put(df::grid::cartesian::from_dims(a.u, a.a, a.d)); r.put(df::grid::cartesian::from_points(a.u, a.a, a.d)); } return r; });

    // ------------------------------------------------ pipelines
    op("pipe", DIM | CALLS, one, [](const Args &a) { return valid(a) ? ACCEPT : EITHER; }, [](const Args &a) { Res r; double k = a.x(); const Serie &s = a.s[0];
        auto stage = [k](const Serie &x) { tick(); return x.itemSize() == 1 ? df::map(num_s(k), x) : df::map(num_v(k), x); };
        auto cut = [k](const Serie &x) { return df::filter(is_s(k, 2), x); };
        r.put(df::pipe(s, stage, cut, stage)); r.put(df::make_pipe(stage, cut)(s)); r.put(s.pipe(stage, stage)); r.put(df::utils::compose(cut, stage)(s)); return r; });
    op("memoize", DIM | CALLS, one, [](const Args &a) { return valid(a) ? ACCEPT : EITHER; }, [](const Args &a) { Res r; double k = a.x(); const Serie &s = a.s[0];
        auto m = df::utils::memoize([k](const Serie &x) { tick(); return x.itemSize() == 1 ? df::map(num_s(k), x) : df::map(num_v(k), x); });
        r.put(m(s)); r.put(m(s)); auto m2 = m; r.put(m2(s)); m.clear_cache(); r.put(m(s)); return r; });
    op("parallel_execute", DIM | CALLS | THREADS, one, [](const Args &a) { return a.n() < 1 ? REFUSE : a.n() > 64 || !valid(a) ? EITHER : ACCEPT; }, [](const Args &a) { Res r; double k = a.x(); const Serie &s = a.s[0];
        r.put(df::utils::parallel_execute([k](const Serie &x) { return x.itemSize() == 1 ? df::map([k](double v, uint32_t) { tick(); return v * k; }, x) : df::map([k](const Array &v, uint32_t) { tick(); return v[0] + k; }, x); }, s, std::min(a.n(), 64u))); return r; });
    op("made", DIM, [](Rng &r, uint32_t m) { return many(r, m, 2, true, true); }, [](const Args &a) { return !same_shape(a) ? REFUSE : valid(a) ? ACCEPT : EITHER; }, [](const Args &a) { Res r;
        auto f = df::math::make_add(a.s[0]); auto g = df::algebra::make_dot(a.s[0]); auto h = df::utils::make_concat(a.s[0]);
        r.put(f(a.s[1])); r.put(g(a.s[1])); r.put(h(a.s[1])); return r; });

    // ------------------------------------------------ containers, attributes, views, text
    op("dataframe", DIM, [](Rng &r, uint32_t m) { return many(r, m, 3, false, false); }, ok, [](const Args &a) { Res r; df::Dataframe d;
        d.add("a", a.s[0]); d["b"] = a.s[1]; d.set("c", a.s[2]); const df::Dataframe e = d;
        r.put(e["a"]); r.put(e.get("b")); r.put(e["c"]); r.put(e.contains("d")); r.put(df::nameOfSerie(e, e["b"])); d.del("a"); r.put(d.contains("a")); d.clear(); r.put(d.contains("b")); r.put(e["a"]); return r; });
    op("manager", DIM, [](Rng &r, uint32_t m) { Args a = many(r, m, 3, false, true); unsigned d = a.s[0].dimension(); uint32_t n = std::max(1u, a.s[0].count()); for (auto &s : a.s) s = any(r, s.itemSize(), n, d); if (r.chance(0.5)) a.s[1] = any(r, d == 2 ? 3 : 6, n, d); if (r.chance(0.5)) a.s[0] = any(r, d, n, d); return a; },
       [](const Args &a) { for (auto &s : a.s) { if (!s.isValid() || s.dimension() != a.s[0].dimension()) return EITHER; for (double v : s.asArray()) if (!std::isfinite(v)) return EITHER; } return same_count(a) && a.s[0].count() ? ACCEPT : EITHER; },
       [](const Args &a) { Res r; df::Dataframe d; d.add("positions", a.s[0]); d.add("S", a.s[1]); d.add("U", a.s[2]);
        df::Manager m(d, {}, a.s[0].dimension()); m.add(new df::Components()); m.add(new df::Coordinates()); m.add(new df::EigenValues()); m.add(new df::EigenVectors());
        m.add(new df::UserDefinedDecomposer(1, "mine", [](const df::Dataframe &w) { return df::algebra::norm(w["U"]); }));
        for (uint32_t is = 1; is <= 3; ++is) for (auto &n : m.names(is)) { r.put(n); if (m.contains(is, n)) r.put(m.serie(is, n)); }
        r.put(m.serie(1, "no such name").isValid()); return r; });
    op("manager-mesh", 0, a_mesh, [=](const Args &a) { Fit f = mesh_fit(a); return f == ACCEPT ? ACCEPT : EITHER; }, [](const Args &a) { Res r; df::Dataframe d; d.add("positions", a.s[0]); d.add("indices", a.s[1]);
        df::Manager m(d); m.add(new df::Normals("n")); m.add(new df::Area("a")); m.add(new df::Valence("v"));
        for (uint32_t is = 1; is <= 3; is += 2) for (auto &n : m.names(is)) { r.put(n); r.put(m.serie(is, n)); } return r; });
    op("matrix", 0, [](Rng &r, uint32_t) { Args a; uint32_t k = uint32_t(r.range(1, 6)); a.u = {k}; a.a = values(r, size_t(k) * k, tame_kind(r)); a.d = values(r, k, K_UNI); return a; },
       [](const Args &a) { return a.u.size() == 1 && a.n() > 0 && a.n() <= 12 && a.a.size() == size_t(a.n()) * a.n() ? fit(a.d.size() == a.n()) : EITHER; },
       [](const Args &a) { Res r; if (!(a.n() > 0 && a.n() <= 12 && a.a.size() == size_t(a.n()) * a.n())) return r;
        df::Matrix m(a.a, a.n()); df::Matrix t = m.transpose(); r.put(m.trace()); r.put(m.isSymmetric()); r.put(m.array().array()); r.put(m.multMat(t).array().array()); r.put(m.multVec(df::Vector(a.d)).array()); return r; });
    op("vector", 0, [](Rng &r, uint32_t) { Args a; uint32_t k = uint32_t(r.range(1, 9)); a.a = values(r, k, tame_kind(r)); a.d = values(r, k, K_POS); return a; }, [](const Args &a) { return fit(a.a.size() == a.d.size()); },
       [](const Args &a) { Res r; df::Vector v(a.a), w(a.d); r.put(v.dot(w)); r.put(v.norm()); v.add(w).sub(w).mult(w).mult(2); r.put(v.array()); w.normalize(); r.put(w.array()); r.put(w.toString()); return r; });
    op("stream", 0, [](Rng &r, uint32_t m) { return many(r, std::min(m, 50u), 2, false, false); }, ok, [](const Args &a) { Res r; std::ostringstream o; o << a.s[0] << "\n" << a.s[1].asArray() << "\n" << a.s; if (!o) throw std::runtime_error("the stream failed"); r.put(o.str()); return r; });
    return v;
}
inline const std::vector<Op> &all() {
    static const std::vector<Op> v = build();
    return v;
}

// one change that may make arguments unsuitable
inline void spoil(Rng &r, Args &a) {
    auto reshape = [&](Serie &s, uint32_t is, uint32_t n, unsigned d) { s = any(r, is, n, d); };
    switch (r.below(a.s.empty() ? 4 : 11)) {
    case 0: if (r.chance(0.5) || a.a.empty()) a.a.push_back(1); else if (r.chance(0.7)) a.a.pop_back(); else a.a.clear(); break;
    case 1:
        if (a.u.empty()) a.u.push_back(uint32_t(r.below(4)));
        else if (r.chance(0.3)) a.u.push_back(uint32_t(r.below(4)));
        else if (r.chance(0.2)) a.u.clear();
        else if (r.chance(0.3)) a.u.pop_back();
        else { uint32_t &k = a.u[r.below(a.u.size())]; k = r.chance(0.5) ? 0 : r.chance(0.5) && k < 1000 ? k + 1 : k ? k - 1 : 1; }
        break;
    case 2: case 3: {
        static const double w[] = {-0.1, 1.1, 0, 1, std::numeric_limits<double>::quiet_NaN(), -1e-9, 1 + 1e-9, 5};
        if (!a.d.empty()) a.d[r.below(a.d.size())] = w[r.below(8)];
        else a.d.push_back(1);
        break;
    }
    case 4: { Serie &s = a.s[r.below(a.s.size())]; reshape(s, uint32_t(r.range(1, 10)), s.count(), s.dimension()); break; }
    case 5: { Serie &s = a.s[r.below(a.s.size())]; reshape(s, r.chance(0.5) || s.itemSize() < 2 ? s.itemSize() + 1 : s.itemSize() - 1, s.count(), s.dimension()); break; }
    case 6: { Serie &s = a.s[r.below(a.s.size())]; reshape(s, s.itemSize(), r.chance(0.5) || !s.count() ? s.count() + 1 : s.count() - 1, s.dimension()); break; }
    case 7: { Serie &s = a.s[r.below(a.s.size())]; reshape(s, s.itemSize(), uint32_t(r.below(5)), s.dimension()); break; }
    case 8: for (Serie &s : a.s) s = Serie(int(s.itemSize()), s.asArray(), 5 - s.dimension()); break;
    case 9: if (r.chance(0.4)) a.s[r.below(a.s.size())] = Serie(); else reshape(a.s.back(), uint32_t(r.range(1, 4)), uint32_t(r.below(60)), 3); break;
    default: std::swap(a.s[r.below(a.s.size())], a.s[r.below(a.s.size())]);
    }
}
inline void unsuit(Rng &r, const Op &op, Args &a) {
    for (int k = 0; k < 6 && op.suit(a) != REFUSE; ++k) spoil(r, a);
    if (op.flags & SORTS) for (double &x : a.d) if (std::isnan(x)) x = 2;
}

// result of a call, refusals included
enum Outcome { VALUE, THREW, INVALID_SERIE };
struct Got {
    Outcome o = VALUE;
    Res r;
    std::string what;
};
inline Got run(const Op &op, const Args &a) {
    Got g;
    try {
        g.r = op.call(a);
        if (g.r.s.size() && !g.r.s[0].isValid()) g.o = INVALID_SERIE;
    } catch (const std::exception &e) {
        g.o = THREW;
        g.what = e.what();
    }
    return g;
}
inline bool agree(const Got &a, const Got &b) { return a.o == b.o && same(a.r, b.r); }
} // namespace ops

// C24: pipes, compositions, member functions and make_ forms equal the direct calls.
#include "dfh.h"
#include <dataframe/functional/algebra/cross.h>
#include <dataframe/functional/algebra/dot.h>
#include <dataframe/functional/filter.h>
#include <dataframe/functional/forEach.h>
#include <dataframe/functional/geo/areas.h>
#include <dataframe/functional/geo/insar.h>
#include <dataframe/functional/geo/normals.h>
#include <dataframe/functional/map.h>
#include <dataframe/functional/math/add.h>
#include <dataframe/functional/math/div.h>
#include <dataframe/functional/math/equals.h>
#include <dataframe/functional/math/mult.h>
#include <dataframe/functional/math/sub.h>
#include <dataframe/functional/pipe.h>
#include <dataframe/functional/reduce.h>
#include <dataframe/functional/stats/bins.h>
#include <dataframe/functional/stats/covariance.h>
#include <dataframe/functional/stats/quantile.h>
#include <dataframe/functional/utils/apply.h>
#include <dataframe/functional/utils/compose.h>
#include <dataframe/functional/utils/concat.h>
#include <dataframe/functional/utils/cut.h>
#include <dataframe/functional/utils/reject.h>
#include <dataframe/functional/utils/zip.h>
using namespace dfh;

namespace {
bool same(const Serie &a, const Serie &b) {
    return a.isValid() == b.isValid() && a.itemSize() == b.itemSize() && a.count() == b.count() && a.dimension() == b.dimension() && same_bits(a.asArray(), b.asArray());
}
std::string brief(const Serie &s) { return show(s).substr(0, 200); }
struct Boom : std::runtime_error {
    int at;
    explicit Boom(int i) : std::runtime_error("stage " + std::to_string(i)), at(i) {}
};
using F = std::function<Serie(const Serie &)>;
// a stage: not commutative with the others, so that the order shows
struct Stage {
    int kind, index;
    double a;
    std::vector<int> *log;
    int boom = -1;
    Serie direct(const Serie &s) const {
        M m = model(s);
        switch (kind) {
        case 0: for (double &x : m.v) x = x * a; break;
        case 1: for (double &x : m.v) x = x + a; break;
        case 2: for (double &x : m.v) x = a - x; break;
        case 3: { M o{m.is, 0, m.dim, {}}; for (uint32_t i = 0; i < m.n; i += 2) o.push(m.item(i)); return o.serie(); }
        case 4: { M o{m.is, 0, m.dim, {}}; for (uint32_t i = m.n; i-- > 0;) o.push(m.item(i)); return o.serie(); }
        default: for (size_t i = 0; i < m.v.size(); ++i) m.v[i] += a * double(i); break;
        }
        return m.serie();
    }
    Serie operator()(const Serie &s) const {
        log->push_back(index);
        if (index == boom) throw Boom(index);
        return direct(s);
    }
};
Serie run_pipe(const Serie &s, const std::vector<Stage> &f) {
    using df::pipe;
    switch (f.size()) {
    case 1: return pipe(s, f[0]);
    case 2: return pipe(s, f[0], f[1]);
    case 3: return pipe(s, f[0], f[1], f[2]);
    case 4: return pipe(s, f[0], f[1], f[2], f[3]);
    case 5: return pipe(s, f[0], f[1], f[2], f[3], f[4]);
    case 6: return pipe(s, f[0], f[1], f[2], f[3], f[4], f[5]);
    default: return pipe(s, f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7]);
    }
}
Serie run_member(const Serie &s, const std::vector<Stage> &f) {
    switch (f.size()) {
    case 1: return s.pipe(f[0]);
    case 2: return s.pipe(f[0], f[1]);
    case 3: return s.pipe(f[0], f[1], f[2]);
    case 4: return s.pipe(f[0], f[1], f[2], f[3]);
    case 5: return s.pipe(f[0], f[1], f[2], f[3], f[4]);
    case 6: return s.pipe(f[0], f[1], f[2], f[3], f[4], f[5]);
    default: return s.pipe(f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7]);
    }
}
// made from temporaries which are gone before the pipeline runs
F made(const std::vector<Stage> &f) {
    using df::make_pipe;
    auto t = [&](size_t i) { return Stage(f[i]); };
    switch (f.size()) {
    case 1: return make_pipe(t(0));
    case 2: return make_pipe(t(0), t(1));
    case 3: { Stage a = f[0], b = f[1], c = f[2]; return make_pipe(a, b, c); }
    case 4: return make_pipe(t(0), t(1), t(2), t(3));
    case 5: { Stage a = f[1]; return make_pipe(t(0), a, t(2), t(3), t(4)); }
    case 6: return make_pipe(t(0), t(1), t(2), t(3), t(4), t(5));
    default: return make_pipe(t(0), t(1), t(2), t(3), t(4), t(5), t(6), t(7));
    }
}
F composed(const std::vector<Stage> &f) {  // f[0] first, so in reverse order
    using df::utils::compose;
    auto t = [&](size_t i) { return Stage(f[i]); };
    switch (f.size()) {
    case 1: return t(0);
    case 2: return compose(t(1), t(0));
    case 3: { Stage a = f[0], b = f[1], c = f[2]; return compose(c, b, a); }
    case 4: return compose(t(3), t(2), t(1), t(0));
    case 5: { Stage a = f[2]; return compose(t(4), t(3), a, t(1), t(0)); }
    case 6: return compose(t(5), t(4), t(3), t(2), t(1), t(0));
    default: return compose(t(7), t(6), t(5), t(4), t(3), t(2), t(1), t(0));
    }
}
} // namespace

VF_DRIVER("stages", 4000, 80000, "pipes of 1 to 8 stages by pipe, member pipe, make_pipe and compose: result, order, calls, exceptions; non-trivial: at least two stages and one item", {{"runs", 20000}, {"stages", 50000}, {"thrown", 8000}, {"reused", 5000}}) {
    Rng &r = c.rng;
    M m = gen(r, item_size(r), count(r, 300), tame_kind(r), dim(r));
    static const size_t lens[] = {1, 2, 3, 4, 5, 6, 8};
    size_t n = lens[r.below(7)];
    std::vector<int> log;
    std::vector<Stage> f;
    for (size_t i = 0; i < n; ++i) f.push_back(Stage{int(r.below(6)), int(i), double(r.range(2, 5)) + 0.5, &log});
    id(c, m);
    for (auto &s : f) { c.hash.u(s.kind); c.hash.d(s.a); c.desc += std::to_string(s.kind); }
    c.nontrivial = n > 1 && m.n;
    c.desc = shape(m) + " stages " + c.desc;
    Serie s = m.serie(), want = s;
    for (auto &x : f) want = x.direct(want);
    std::vector<int> order;
    for (size_t i = 0; i < n; ++i) order.push_back(int(i));
    auto check = [&](const char *what, auto &&call) {
        log.clear();
        Serie g = call(s);
        VF_CHECK(log == order, std::string("order-") + what, what << " of " << n << " stages made " << log.size() << " calls, or in another order");
        VF_CHECK(same(g, want), std::string("result-") + what, what << " gives " << brief(g) << " instead of " << brief(want));
        c.event("runs");
        c.event("stages", n);
    };
    check("pipe", [&](const Serie &x) { return run_pipe(x, f); });
    check("member", [&](const Serie &x) { return run_member(x, f); });
    F p = made(f), q = composed(f);
    check("make_pipe", p);
    check("compose", q);
    // reused, also on other inputs in between, and after copying
    Serie other = gen(r, item_size(r), count(r, 50), K_UNI, dim(r)).serie();
    p(other);
    q(other);
    F p2 = p, q2 = q;
    check("make_pipe", p);
    check("make_pipe", p2);
    check("compose", q2);
    c.event("reused", 3);
    check_unchanged(s, m, "input-changed");
    // a stage throws: the following ones do not run, the exception arrives as it is
    int at = int(r.below(n));
    for (auto &x : f) x.boom = at;
    F pt = made(f), qt = composed(f);
    auto boom = [&](const char *what, auto &&call) {
        log.clear();
        int got = -1;
        try {
            call(s);
        } catch (const Boom &b) {
            got = b.at;
        }
        VF_CHECK(got == at, std::string("exception-") + what, what << ": the exception of stage " << at << " did not arrive");
        VF_CHECK(log.size() == size_t(at) + 1, std::string("after-exception-") + what, what << ": " << log.size() << " stages ran although number " << at << " threw");
        c.event("thrown");
    };
    boom("pipe", [&](const Serie &x) { return run_pipe(x, f); });
    boom("member", [&](const Serie &x) { return run_member(x, f); });
    boom("make_pipe", pt);
    boom("compose", qt);
}

VF_DRIVER("types", 2500, 40000, "stages with changing types (Serie, tuple, Array, number, text, structure), several arguments, nested pipes; non-trivial: at least one item", {{"runs", 10000}}) {
    Rng &r = c.rng;
    M m = gen(r, item_size(r), count1(r, 200), tame_kind(r), dim(r));
    id(c, m);
    c.desc = shape(m);
    Serie s = m.serie();
    double a = double(r.range(2, 5));
    int calls = 0;
    auto split = [&](const Serie &x) { ++calls; return std::make_tuple(x, x.asArray().size(), a); };
    auto sum = [&](const auto &t) { ++calls; double w = 0; for (double v : std::get<0>(t).asArray()) w += v * std::get<2>(t); return std::make_pair(w, std::get<1>(t)); };
    auto text = [&](const std::pair<double, size_t> &p) { ++calls; std::ostringstream o; o << std::setprecision(17) << p.first << ";" << p.second; return o.str(); };
    auto length = [&](const std::string &x) { ++calls; return x + "#" + std::to_string(x.size()); };
    std::string want = length(text(sum(split(s))));
    calls = 0;
    std::string g1 = df::pipe(s, split, sum, text, length), g2 = df::make_pipe(split, sum, text, length)(s), g3 = s.pipe(split, sum, text, length), g4 = df::utils::compose(length, text, sum, split)(s);
    VF_CHECK(g1 == want && g2 == want && g3 == want && g4 == want, "types", "got " << g1 << ", " << g2 << ", " << g3 << ", " << g4 << " instead of " << want);
    VF_CHECK(calls == 16, "calls", "4 runs of 4 stages made " << calls << " calls");
    auto front = df::make_pipe(split, sum);
    auto back = df::make_pipe(text, length);
    VF_CHECK(df::make_pipe(front, back)(s) == want && df::pipe(s, front, text, length) == want && df::pipe(front(s), back) == want && df::utils::compose(back, front)(s) == want, "nested", "a pipe of pipes differs from the pipe");
    // several arguments enter a composition
    auto three = [](double x, double y, double z) { return 100 * x + 10 * y + z; };
    auto twice = [](double x) { return 2 * x; };
    auto less1 = [](double x) { return x - 1; };
    double x = double(r.range(-9, 9)), y = double(r.range(-9, 9)), z = double(r.range(-9, 9));
    VF_CHECK(df::utils::compose(less1, twice, three)(x, y, z) == 2 * (100 * x + 10 * y + z) - 1 && df::utils::compose(twice, less1)(x) == 2 * (x - 1), "arguments", "a composition of " << x << "," << y << "," << z);
    VF_CHECK(df::pipe(x, twice, less1, twice) == 2 * (2 * x - 1), "numbers", "a pipe of numbers");
    struct Data { Serie u, v; };
    Serie b = gen(r, m.is, m.n, K_UNI, m.dim).serie();
    double two = df::pipe(Data{s, b}, [](const Data &d) { return std::make_pair(d.u.asArray()[0], d.v.asArray()[0]); }, [](const auto &p) { return p.first - p.second; });
    VF_CHECK(same_bits(two, s.asArray()[0] - b.asArray()[0]), "structure", "a pipe of a structure");
    check_unchanged(s, m, "input-changed");
    c.event("runs", 12);
}

VF_DRIVER("members", 3000, 60000, "member map, forEach, filter and reduce against the free functions; non-trivial: at least one item", {{"compared", 10000}}) {
    Huge huge_(0.004);
    Rng &r = c.rng;
    M m = gen(r, item_size(r), count(r, 500), tame_kind(r), dim(r));
    id(c, m);
    c.desc = shape(m);
    Serie s = m.serie();
    double a = r.uni(-2, 2);
    if (m.is == 1) {
        auto f = [a](double x, uint32_t i) { return a * x + i; };
        auto w = [a](double x, uint32_t i) { return Array{x, a, double(i)}; };
        auto p = [a](double x, uint32_t i) { return x > a || i % 3 == 0; };
        auto red = [a](double acc, double x, uint32_t i) { return acc * 0.5 + x * a + i; };
        VF_CHECK(same(s.map(f), df::map(f, s)), "map", "member map differs");
        VF_CHECK(same(s.map(w), df::map(w, s)), "map", "member map to vectors differs");
        VF_CHECK(same(s.filter(p), df::filter(p, s)), "filter", "member filter differs");
        VF_CHECK(same_bits(s.reduce(red, a), df::reduce(red, s, a)), "reduce", "member reduce differs");
        Array g, h;
        s.forEach([&](double x, uint32_t i) { g.push_back(x); g.push_back(i); });
        df::forEach([&](double x, uint32_t i) { h.push_back(x); h.push_back(i); }, s);
        VF_CHECK(same_bits(g, h) && g.size() == 2 * m.n, "forEach", "member forEach differs");
    } else {
        auto f = [a](const Array &x, uint32_t i) { return a * x[0] + i; };
        auto w = [a](const Array &x, uint32_t i) { Array y = x; y[0] = a; y.push_back(i); return y; };
        auto p = [a](const Array &x, uint32_t i) { return x[1] > a || i % 3 == 0; };
        Array init(m.is, a);
        auto red = [](const Array &acc, const Array &x, uint32_t i) { Array y = acc; for (size_t k = 0; k < y.size(); ++k) y[k] = 0.5 * y[k] + x[k] + i; return y; };
        VF_CHECK(same(s.map(f), df::map(f, s)), "map", "member map to numbers differs");
        VF_CHECK(same(s.map(w), df::map(w, s)), "map", "member map differs");
        VF_CHECK(same(s.filter(p), df::filter(p, s)), "filter", "member filter differs");
        VF_CHECK(same(s.reduce(red, init), df::reduce(red, s, init)), "reduce", "member reduce differs");
        Array g, h;
        s.forEach([&](const Array &x, uint32_t i) { g.insert(g.end(), x.begin(), x.end()); g.push_back(i); });
        df::forEach([&](const Array &x, uint32_t i) { h.insert(h.end(), x.begin(), x.end()); h.push_back(i); }, s);
        VF_CHECK(same_bits(g, h) && g.size() == size_t(m.is + 1) * m.n, "forEach", "member forEach differs");
    }
    c.event("compared", 5);
    check_unchanged(s, m, "input-changed");
}

VF_DRIVER("make", 3000, 60000, "the make_ forms against the direct calls, used twice, after their arguments are gone; non-trivial: always", {{"compared", 40000}}) {
    Rng &r = c.rng;
    uint32_t n = count1(r, 200);
    M m = gen(r, 1, n, tame_kind(r), dim(r)), o = gen(r, 1, n, tame_kind(r), m.dim), v = gen(r, 3, n, tame_kind(r), 3), w = gen(r, 3, n, tame_kind(r), 3);
    id(c, m);
    id(c, v);
    c.nontrivial = true;
    c.desc = shape(m);
    Serie s = m.serie(), t = o.serie(), V = v.serie(), W = w.serie();
    double a = r.uni(0.5, 3);
    // from temporaries: the made function has its own
    auto twice = [&](const char *what, auto &&fn, const Serie &in, const auto &want, auto &&equal) {
        for (int k = 0; k < 2; ++k) {
            VF_CHECK(equal(fn(in), want), std::string("make_") + what, "make_" << what << " differs from " << what << " at use " << k + 1);
            c.event("compared");
        }
        auto copy = fn;
        VF_CHECK(equal(copy(in), want), std::string("make_") + what, "a copy of make_" << what << " differs");
    };
    auto sames = [](const Serie &x, const Serie &y) { return same(x, y); };
    auto bits = [](double x, double y) { return same_bits(x, y); };
    auto f = [a](double x, uint32_t i) { return a * x - i; };
    auto p = [a](double x, uint32_t i) { return x > a || i % 4 == 1; };
    twice("map", df::make_map([a](double x, uint32_t i) { return a * x - i; }), s, df::map(f, s), sames);
    twice("filter", df::make_filter([a](double x, uint32_t i) { return x > a || i % 4 == 1; }), s, df::filter(p, s), sames);
    twice("reject", df::utils::make_reject(p), s, df::utils::reject(p, s), sames);
    twice("cut", df::utils::make_cut(p), s, df::utils::cut(p, s), sames);
    twice("apply", df::utils::make_apply(f), s, df::utils::apply(f, s), sames);
    twice("reduce", df::make_reduce([a](double acc, double x, uint32_t i) { return acc * 0.5 + a * x + i; }, a), s, df::reduce([a](double acc, double x, uint32_t i) { return acc * 0.5 + a * x + i; }, s, a), bits);
    Array init(3, a);
    auto vred = [](const Array &acc, const Array &x, uint32_t) { Array y = acc; for (size_t k = 0; k < 3; ++k) y[k] = 0.5 * y[k] + x[k]; return y; };
    twice("reduce", df::make_reduce(vred, Array(3, a)), V, df::reduce(vred, V, init), sames);
    {
        Array g, h;
        auto fe = df::make_forEach([&g](double x, uint32_t i) { g.push_back(x + i); });
        fe(s);
        df::forEach([&h](double x, uint32_t i) { h.push_back(x + i); }, s);
        VF_CHECK(same_bits(g, h), "make_forEach", "make_forEach differs from forEach");
    }
    twice("mult", df::math::make_mult(Serie(s)), t, df::math::mult(s, t), sames);
    twice("div", df::math::make_div(a), s, df::math::div(a, s), sames);
    twice("dot", df::algebra::make_dot(Serie(V)), W, df::algebra::dot(V, W), sames);
    twice("cross", df::algebra::make_cross(Serie(V)), W, df::algebra::cross(V, W), sames);
    twice("add", df::math::make_add(Serie(s)), t, df::math::add(s, t), sames);
    twice("sub", df::math::make_sub(Serie(s)), t, df::math::sub(s, t), sames);
    twice("concat", df::utils::make_concat(Serie(s)), t, df::utils::concat(s, t), sames);
    twice("zip", df::utils::make_zip(Serie(s)), t, df::utils::zip(s, t), sames);
    twice("covariance", df::stats::make_covariance(Serie(s)), t, df::stats::covariance(s, t), bits);
    twice("equals", df::math::make_equals(Serie(s)), t, df::math::equals(s, t), [](bool x, bool y) { return x == y; });
    twice("equals", df::math::make_equals(Serie(s)), s, true, [](bool x, bool y) { return x == y; });
    M tri{3, 5, 3, {}};
    for (int i = 0; i < 15; ++i) tri.v.push_back(double(r.below(n)));
    twice("normals", df::geo::make_normals(Serie(V)), tri.serie(), df::geo::normals(V, tri.serie()), sames);
    twice("areas", df::geo::make_areas(Serie(V)), tri.serie(), df::geo::areas(V, tri.serie()), sames);
    // those whose first argument is the Serie
    double q = r.unit();
    auto mq = df::stats::make_quantile(Serie(s));
    VF_CHECK(same_bits(mq(q), df::stats::quantile(s, q)) && same_bits(mq(0.5), df::stats::q50(s)), "make_quantile", "make_quantile differs from quantile");
    VF_CHECK(same(df::stats::make_outliers(Serie(s))(a), df::stats::outliers(s, a)) && same(df::stats::make_isOutliers(Serie(s))(a), df::stats::isOutliers(s, a)), "make_outliers", "make_outliers differs");
    VF_CHECK(same(df::stats::make_bins(Serie(s))(7u), df::stats::bins(s, 7)), "make_bins", "make_bins differs from bins");
    VF_CHECK(same(df::geo::make_insar(Serie(V))(Array{a, 1, 2}), df::geo::insar(V, Array{a, 1, 2})) && same(df::geo::make_fringes(Serie(s))(a), df::geo::fringes(s, a)), "make_insar", "make_insar or make_fringes differs");
    // inside a pipe
    Serie g = df::pipe(s, df::make_map(f), df::math::make_mult(Serie(t)), df::make_filter(p), df::math::make_div(a));
    VF_CHECK(same(g, df::math::div(a, df::filter(p, df::math::mult(t, df::map(f, s))))), "pipe", "a pipe of make_ forms differs from the nested calls");
    check_unchanged(s, m, "input-changed");
    check_unchanged(V, v, "input-changed");
}
VF_MAIN

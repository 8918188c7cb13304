// C02: item-wise functions call their callback once per item, in order, with
// the exact items, and return exactly what it returned.
#include "nest.h"
#include <dataframe/functional/conditional/check.h>
#include <dataframe/functional/conditional/if.h>
#include <dataframe/functional/utils/apply.h>
#include <dataframe/functional/forEach.h>
#include <dataframe/functional/map.h>
#include <dataframe/functional/reduce.h>
using namespace dfh;

namespace {
struct Boom {};  // thrown by callbacks; not a std::exception

// Watches the invocations of one callback online: any call which is not the
// expected next one is a violation at once.
struct Watch {
    Ctx &c;
    std::vector<const M *> in;
    uint32_t next = 0;
    uint32_t boom = 0xffffffff;
    Array returned;
    std::string op;
    Watch(Ctx &c, std::vector<const M *> in, std::string op) : c(c), in(std::move(in)), op(std::move(op)) {}
    void call(const std::vector<const Array *> &items, uint32_t i) {
        VF_CHECK(i == next, "order", op << ": call number " << next << " got index " << i);
        VF_CHECK(i < in[0]->n, "order", op << ": called with index " << i << " of " << in[0]->n);
        for (size_t k = 0; k < items.size(); ++k)
            VF_CHECK(items[k]->size() == in[k]->is && std::memcmp(items[k]->data(), in[k]->v.data() + size_t(i) * in[k]->is, in[k]->is * sizeof(double)) == 0,
                     "wrong-item", op << ": item " << i << " of Serie " << k << " given as " << show(*items[k]) << " instead of " << show(in[k]->item(i)));
        ++next;
        c.event("calls");
        if (i == boom) throw Boom{};
    }
    void call1(double v, uint32_t i) {
        VF_CHECK(i == next, "order", op << ": call number " << next << " got index " << i);
        VF_CHECK(i < in[0]->n && std::memcmp(&v, &in[0]->v[i], sizeof v) == 0, "wrong-item", op << ": value " << i << " given as " << v);
        ++next;
        c.event("calls");
        if (i == boom) throw Boom{};
    }
    void done() { VF_CHECK(next == in[0]->n, "not-all-items", op << ": " << next << " calls for " << in[0]->n << " items"); }
    double ret(double v) { returned.push_back(v); return v; }
    Array ret(Array v) { returned.insert(returned.end(), v.begin(), v.end()); return v; }
};
double f1(uint64_t salt, uint32_t i) {
    uint64_t h = vf::mix(salt * 0x10001 + i);
    if (h % 97 == 0) return std::numeric_limits<double>::quiet_NaN();
    if (h % 89 == 0) return -0.0;
    if (h % 83 == 0) return std::numeric_limits<double>::infinity();
    return double(int64_t(h)) / 1e6;
}
Array fn(uint64_t salt, uint32_t i, uint32_t n) {
    Array a(n);
    for (uint32_t k = 0; k < n; ++k) a[k] = f1(salt + k * 7919, i);
    return a;
}
void expect(const Serie &s, Watch &w, uint32_t is, unsigned) {
    w.done();
    uint32_t n = w.in[0]->n;
    if (n == 0) {
        VF_CHECK(s.count() == 0 && s.asArray().empty(), "result", w.op << " of no items gave " << show(s));
        return;
    }
    check_shape(s, is, n, "result", w.op);
    VF_CHECK(identical(s.asArray(), w.returned), "result", w.op << " returned " << show(s.asArray()) << " but the callback " << show(w.returned));
    w.c.event("results");
}
template <class F> void expect_boom(Watch &w, F &&f) {
    bool boom = false;
    try {
        f();
    } catch (const Boom &) {
        boom = true;
    } catch (const std::exception &) {
        boom = true;
    }
    VF_CHECK(boom, "exception-lost", w.op << ": the exception of the callback did not come out");
    VF_CHECK(w.next == w.boom + 1, "calls-after-exception", w.op << ": " << w.next << " calls though call " << w.boom << " threw");
    w.c.event("thrown");
}
// Plain functions as callbacks: they speak to the Watch of the running case.
Watch *current;
uint64_t current_salt;
uint32_t current_size;
double plain_number(double v, uint32_t i) { current->call1(v, i); return current->ret(f1(current_salt, i)); }
Array plain_array(const Array &v, uint32_t i) { current->call({&v}, i); return current->ret(fn(current_salt, i, current_size)); }
bool plain_stop(double v, uint32_t i) { current->call1(v, i); return false; }
M pick(Ctx &c, bool scalar) {
    Rng &r = c.rng;
    uint32_t is = scalar ? 1 : item_size(r);
    return gen(r, is, count(r, std::max(40u, 66000 / is)), any_kind(r), dim(r));
}
} // namespace

VF_DRIVER("single", 6000, 150000, "one item-wise function on one random Serie, every callback watched call by call; non-trivial: at least one item", {{"calls", 100000}, {"results", 1000}, {"thrown", 100}}) {
    Huge huge_(0.004);
    Rng &r = c.rng;
    uint64_t op = r.below(18);
    bool scalar = op < 6 || op == 12 || op == 14 || op == 16;
    M m = pick(c, scalar);
    if (op == 7 && m.is == 1) m = gen(r, 3, m.n, K_UNI, m.dim);
    id(c, m);
    c.hash.u(op);
    Serie s = m.serie();
    uint64_t salt = r.next();
    uint32_t os = uint32_t(r.range(1, 12));
    Watch w(c, {&m}, "");
    if (m.n && r.chance(0.15)) w.boom = uint32_t(r.below(m.n));
    auto run = [&](const std::string &name, auto &&f) {
        w.op = name;
        c.desc = name + " " + shape(m);
        c.event("op:" + name);
        if (w.boom != 0xffffffff) expect_boom(w, f);
        else f();
    };
    auto go = [&](Serie x, uint32_t is) { expect(x, w, is, m.dim); };
    auto sd = [&](double v, uint32_t i) { w.call1(v, i); return w.ret(f1(salt, i)); };
    auto sv = [&](double v, uint32_t i) { w.call1(v, i); return w.ret(fn(salt, i, os)); };
    auto si = [&](double v, uint32_t i) -> int { w.call1(v, i); int k = int(salt % 1000) - 500 + int(i); w.ret(double(k)); return k; };
    auto ad = [&](const Array &v, uint32_t i) { w.call({&v}, i); return w.ret(f1(salt, i)); };
    auto av = [&](const Array &v, uint32_t i) { w.call({&v}, i); return w.ret(fn(salt, i, os)); };
    bool member = r.chance(0.5);
    current = &w, current_salt = salt, current_size = os;
    switch (op) {
    case 0: run("map scalar->number", [&] { 
        if (salt % 7 == 0) go(df::map(plain_number, s), 1);
        else if (salt % 7 == 1) { std::function<double(double, uint32_t)> f = sd; go(df::map(f, s), 1); }
        else if (salt % 7 == 2) go(df::map([&](double v, uint32_t i) mutable { w.call1(v, i); const bool b = (salt + i) & 1; w.ret(b); return b; }, s), 1);
        else if (salt % 7 == 3) go(df::map([&](double v, uint32_t i) -> float { w.call1(v, i); const float x = float(vf::mix(salt + i) % 1000) / 8; w.ret(x); return x; }, s), 1);
        else go(member ? s.map(sd) : df::map(sd, s), 1); }); break;
    case 1: run("map scalar->Array", [&] { go(member ? s.map(sv) : df::map(sv, s), os); }); break;
    case 2: run("map scalar->int", [&] {
        // any number type, values where it ends
        auto typed = [&](auto zero) {
            using T = decltype(zero);
            go(df::map([&](double v, uint32_t i) -> T {
                w.call1(v, i);
                const uint64_t h = vf::mix(salt + i);
                T x = h % 5 == 0 ? std::numeric_limits<T>::max() : h % 5 == 1 ? std::numeric_limits<T>::lowest() : h % 5 == 2 ? T(h >> 11) : T(h % 100);
                w.ret(double(x));
                return x;
            }, s), 1);
        };
        switch (salt % 11) {
        case 0: typed(0ll); break;
        case 1: typed(0ull); break;
        case 2: typed(0u); break;
        case 3: typed(short(0)); break;
        case 4: typed((unsigned char)0); break;
        case 5: typed((signed char)0); break;
        case 6: typed((unsigned short)0); break;
        case 7: typed(0.f); break;
        default: go(df::map(si, s), 1);
        }
    }); break;
    case 3: run("make_map scalar", [&] {
        auto f = df::make_map(sd);
        go(f(s), 1);
        w.next = 0; w.returned.clear();
        go(f(s), 1);
    }); break;
    case 4: run("apply scalar", [&] { if (member) go(df::utils::apply(sd, s), 1); else go(df::utils::make_apply(sv)(s), os); }); break;
    case 5: run("forEach scalar", [&] { auto cb = [&](double v, uint32_t i) { w.call1(v, i); }; 
        // what the callback returns does not matter
        auto cbool = [&](double v, uint32_t i) -> bool { w.call1(v, i); return salt & 16; };
        auto cint = [&](double v, uint32_t i) -> int { w.call1(v, i); return int(salt >> 8) - int(i); };
        auto cnan = [&](double v, uint32_t i) -> double { w.call1(v, i); return std::nan(""); };
        std::function<bool(double, uint32_t)> cf = cbool;
        switch (salt % 11) {
        case 0: df::forEach(cbool, s); break;
        case 1: df::forEach(cint, s); break;
        case 2: df::forEach(cnan, s); break;
        case 3: df::forEach(cf, s); break;
        case 4: df::forEach(plain_stop, s); break;
        case 5: s.forEach(cbool); break;
        default: if (member) s.forEach(cb); else df::forEach(cb, s);
        }
        w.done(); }); break;
    case 6: run("map array->number", [&] { go(member ? s.map(ad) : df::map(ad, s), 1); }); break;
    case 7: run("forEach array", [&] {
        auto cb = [&](const Array &v, uint32_t i) { w.call({&v}, i); };
        auto cbool = [&](const Array &v, uint32_t i) -> bool { w.call({&v}, i); return salt & 16; };
        auto cself = [&](Array v, uint32_t i) -> Array { w.call({&v}, i); v.clear(); return v; };
        std::function<int(const Array &, uint32_t)> cf = cbool;
        switch (salt % 11) {
        case 0: df::forEach(cbool, s); break;
        case 1: df::forEach(cself, s); break;
        case 2: df::forEach(cf, s); break;
        case 3: s.forEach(cbool); break;
        case 4: df::forEach(plain_array, s); break;
        default: if (member) s.forEach(cb); else if (salt & 1) df::forEach(cb, s); else df::make_forEach(cb)(s);
        }
        w.done();
    }); break;
    case 8: run("map array->Array", [&] { 
        if (salt % 5 == 0) go(df::map(plain_array, s), os);
        else if (salt % 5 == 1) { std::function<Array(const Array &, uint32_t)> f = av; go(df::map(f, s), os); }
        else go(member ? s.map(av) : df::map(av, s), os); }); break;
    case 9: run("apply array", [&] { if (member) go(df::utils::apply(av, s), os); else go(df::utils::make_apply(ad)(s), 1); }); break;
    case 10: run("forEach generic", [&] {
        auto cb = [&](const auto &v, uint32_t i) {
            if constexpr (std::is_same_v<std::decay_t<decltype(v)>, double>) {
                VF_CHECK(m.is == 1, "wrong-item", "forEach gave a number from items of size " << m.is);
                w.call1(v, i);
            } else w.call({&v}, i);
        };
        auto cbool = [&](const auto &v, uint32_t i) -> bool { cb(v, i); return salt & 16; };
        if (salt % 3) df::forEach(cb, s);
        else df::forEach(cbool, s);
        w.done();
    }); break;
    case 11: run("reduce array", [&] {
        Array init = values(r, os, K_UNI), acc = init;
        auto cb = [&](const Array &a, const Array &v, uint32_t i) {
            VF_CHECK(identical(a, acc), "accumulator", "reduce gave accumulator " << show(a) << " instead of " << show(acc) << " at item " << i);
            w.call({&v}, i);
            acc = fn(salt, i, uint32_t((salt + i) % (os + 1)));
            return acc;
        };
        Serie x = salt % 3 == 0 ? s.reduce(cb, init) : salt % 3 == 1 ? df::reduce(cb, s, init) : df::make_reduce(cb, init)(s);
        w.done();
        VF_CHECK(identical(x.asArray(), acc) && x.count() == (acc.empty() ? 0 : 1) && x.itemSize() == acc.size(), "result", "reduce gave " << show(x) << " instead of " << show(acc));
        c.event("results");
    }); break;
    case 12: run("reduce scalar", [&] {
        double init = value(r, K_UNI), acc = init;
        auto cb = [&](double a, double v, uint32_t i) {
            VF_CHECK(same_bits(a, acc), "accumulator", "reduce gave accumulator " << a << " instead of " << acc << " at item " << i);
            w.call1(v, i);
            return acc = f1(salt, i);
        };
        double x = salt % 3 == 0 ? s.reduce(cb, init) : salt % 3 == 1 ? df::reduce(cb, s, init) : df::make_reduce(cb, init)(s);
        w.done();
        VF_CHECK(same_bits(x, acc), "result", "reduce gave " << x << " instead of " << acc);
        c.event("results");
    }); break;
    case 13: run("check array", [&] {
        auto cb = [&](const Array &v, uint32_t i) { w.call({&v}, i); bool b = vf::mix(salt + i) & 1; w.ret(b ? 1.0 : 0.0); return b; };
        auto ci = [&](const Array &v, uint32_t i) -> int { return truthy_int(salt + i, cb(v, i)); };
        auto cd = [&](const Array &v, uint32_t i) -> double { return truthy_double(salt + i, cb(v, i)); };
        go(salt % 5 == 0 ? df::cond::check(s, ci) : salt % 5 == 1 ? df::cond::check(s, cd) : df::cond::check(s, cb), 1);
    }); break;
    case 14: run("check scalar", [&] {
        auto cb = [&](double v, uint32_t i) { w.call1(v, i); bool b = vf::mix(salt + i) & 1; w.ret(b ? 1.0 : 0.0); return b; };
        auto ci = [&](double v, uint32_t i) -> int { return truthy_int(salt + i, cb(v, i)); };
        auto cd = [&](double v, uint32_t i) -> double { return truthy_double(salt + i, cb(v, i)); };
        go(salt % 5 == 0 ? df::cond::check(s, ci) : salt % 5 == 1 ? df::cond::check(s, cd) : df::cond::check(s, cb), 1);
    }); break;
    case 15: case 16: run(op == 15 ? "if_then_else array" : "if_then_else scalar", [&] {
        // the check sees the item, then exactly one branch gets the item, its index and the Serie
        int pending = -1;
        uint32_t checks = 0;
        auto decide = [&](const double *p, size_t n) {
            VF_CHECK(pending == -1, "order", "the branch for item " << w.next << " was not called before the next check");
            VF_CHECK(w.next < m.n && n == m.is && std::memcmp(p, m.v.data() + size_t(w.next) * m.is, n * sizeof(double)) == 0, "wrong-item", "if_then_else checked another item than " << w.next);
            ++checks;
            pending = int(vf::mix(salt + w.next) & 1);
            return pending == 1;
        };
        auto branch = [&](bool yes, const Serie &src) {
            VF_CHECK(pending == (yes ? 1 : 0), "wrong-branch", "the " << (yes ? "true" : "false") << " branch was called for item " << w.next);
            pending = -1;
            check_unchanged(src, m, "wrong-item", "the Serie given to the branch");
        };
        Serie x;
        if (op == 15) {
            auto chk = [&](const Array &v) -> int { bool b = decide(v.data(), v.size()); return salt & 8 ? truthy_int(salt + checks, b) : int(b); };
            if (salt & 2) {
                auto t = [&](const Array &v, uint32_t i, const Serie &src) { branch(true, src); w.call({&v}, i); return w.ret(fn(salt, i, os)); };
                auto f = [&](const Array &v, uint32_t i, const Serie &src) { branch(false, src); w.call({&v}, i); return w.ret(fn(salt + 1, i, os)); };
                x = df::cond::if_then_else(s, chk, t, f);
            } else {
                auto t = [&](const Array &v, uint32_t i, const Serie &src) { branch(true, src); w.call({&v}, i); return w.ret(f1(salt, i)); };
                auto f = [&](const Array &v, uint32_t i, const Serie &src) { branch(false, src); w.call({&v}, i); return w.ret(f1(salt + 1, i)); };
                x = df::cond::if_then_else(s, chk, t, f);
                os = 1;
            }
        } else {
            auto chk = [&](double v) -> int { bool b = decide(&v, 1); return salt & 8 ? truthy_int(salt + checks, b) : int(b); };
            auto t = [&](double v, uint32_t i, const Serie &src) { branch(true, src); w.call1(v, i); return w.ret(f1(salt, i)); };
            auto f = [&](double v, uint32_t i, const Serie &src) { branch(false, src); w.call1(v, i); return w.ret(f1(salt + 1, i)); };
            x = df::cond::if_then_else(s, chk, t, f);
            os = 1;
        }
        VF_CHECK(checks == m.n, "not-all-items", "if_then_else checked " << checks << " of " << m.n << " items");
        go(x, os);
    }); break;
    case 17: {  // a callback whose items change size must be refused, wherever it happens
        if (m.n < 2) return;
        uint32_t at = uint32_t(r.range(1, m.n - 1));
        bool larger = r.chance(0.5);
        uint32_t calls = 0;
        auto cb = [&](const Array &, uint32_t i) { ++calls; return Array(i == at ? (larger ? os + 1 : os - 1) : os, 1.5); };
        auto cb1 = [&](double, uint32_t i) { ++calls; return Array(i == at ? (larger ? os + 1 : os - 1) : os, 1.5); };
        c.desc = "map with items of other sizes, " + shape(m);
        bool t = m.is == 1 && r.chance(0.5) ? throws([&] { df::map(cb1, s); }) : throws([&] { df::map(cb, s); });
        VF_CHECK(t, "ragged-accepted", "map accepted an item of another size at " << at << " of " << m.n);
        c.event("refused");
        break;
    }
    }
    check_unchanged(s, m, "input-changed");
}

namespace {
template <size_t N> struct Multi {
    template <size_t... K, class Cb> static auto map(Cb &cb, const Several &s, std::index_sequence<K...>) { return df::map(cb, s[K]...); }
    template <size_t... K, class Cb> static void each(Cb &cb, const Several &s, std::index_sequence<K...>) { df::forEach(cb, s[K]...); }
    template <size_t... K, class Cb> static auto apply(Cb &cb, const Several &s, std::index_sequence<K...>) { return df::utils::apply(cb, s[K]...); }
};
template <size_t, class T> using rep = T;
template <size_t... K> void multi(Ctx &c, std::index_sequence<K...> seq) {
    constexpr size_t N = sizeof...(K);
    Rng &r = c.rng;
    std::vector<M> ms;
    uint32_t n = count(r, 3000);
    for (size_t k = 0; k < N; ++k) ms.push_back(gen(r, uint32_t(r.range(1, 8)), n, any_kind(r), dim(r)));
    bool mismatch = r.chance(0.12);
    if (mismatch) {
        size_t k = r.below(N);
        M &m = ms[k];
        uint32_t n2 = r.chance(0.5) ? n + 1 + uint32_t(r.below(3)) : (n ? uint32_t(r.below(n)) : 1);
        m = gen(r, m.is, n2, K_UNI, m.dim);
    }
    Several s;
    std::vector<const M *> in;
    for (auto &m : ms) { s.push_back(m.serie()); in.push_back(&m); }
    if (!mismatch && alias(r, s, ms)) c.event("same_object");
    for (auto &m : ms) id(c, m);
    uint64_t salt = r.next(), op = r.below(6);
    uint32_t os = uint32_t(r.range(1, 9));
    c.hash.u(op);
    Watch w(c, in, "");
    static const char *names[] = {"map->number", "map->Array", "forEach", "apply->Array", "map->int", "map ragged"};
    w.op = std::string(names[op]) + " on " + std::to_string(N) + " Series";
    c.desc = w.op + ", " + std::to_string(n) + " items" + (mismatch ? ", counts differ" : "");
    if (!mismatch && n && r.chance(0.1) && op < 4) w.boom = uint32_t(r.below(n));
    auto num = [&](const rep<K, Array> &...a, uint32_t i) { w.call({&a...}, i); return w.ret(f1(salt, i)); };
    auto arr = [&](const rep<K, Array> &...a, uint32_t i) { w.call({&a...}, i); return w.ret(fn(salt, i, os)); };
    auto non = [&](const rep<K, Array> &...a, uint32_t i) { w.call({&a...}, i); };
    auto no = [&](const rep<K, Array> &...a, uint32_t i) -> bool { w.call({&a...}, i); return salt & 16; };
    auto in_ = [&](const rep<K, Array> &...a, uint32_t i) -> long long { w.call({&a...}, i); const long long x = salt & 32 ? (long long)(vf::mix(salt + i)) : (long long)(i) - 7; w.ret(double(x)); return x; };
    if (mismatch) {
        bool t = op == 0 ? throws([&] { Multi<N>::map(num, s, seq); }) : op == 2 ? throws([&] { Multi<N>::each(non, s, seq); })
               : op == 3 ? throws([&] { Multi<N>::apply(arr, s, seq); }) : throws([&] { Multi<N>::map(arr, s, seq); });
        VF_CHECK(t, "counts-accepted", w.op << " accepted different counts");
        c.event("refused");
    } else if (op == 5) {
        if (n >= 2) {
            uint32_t at = uint32_t(r.range(1, n - 1));
            auto cb = [&](const rep<K, Array> &..., uint32_t i) { return Array(i == at ? os + 1 : os, 1.0); };
            VF_CHECK(throws([&] { Multi<N>::map(cb, s, seq); }), "ragged-accepted", "map on " << N << " Series accepted an item of another size at " << at);
            c.event("refused");
        }
    } else {
        auto f = [&] {
            if (op == 0) expect(Multi<N>::map(num, s, seq), w, 1, 0);
            if (op == 1) expect(Multi<N>::map(arr, s, seq), w, os, 0);
            if (op == 2) { if (salt % 3) Multi<N>::each(non, s, seq); else Multi<N>::each(no, s, seq); w.done(); }
            if (op == 3) expect(Multi<N>::apply(arr, s, seq), w, os, 0);
            if (op == 4) expect(Multi<N>::map(in_, s, seq), w, 1, 0);
        };
        if (w.boom != 0xffffffff) expect_boom(w, f);
        else f();
    }
    for (size_t k = 0; k < N; ++k) check_unchanged(s[k], ms[k], "input-changed");
}
} // namespace

VF_DRIVER("several", 4000, 100000, "map, forEach or apply on 2 to 5 Series of their own item sizes, counts equal or not; non-trivial: at least one item", {{"calls", 50000}, {"results", 1000}, {"refused", 100}, {"thrown", 50}}) {
    Huge huge_(0.003);
    switch (c.rng.below(4)) {
    case 0: multi(c, std::make_index_sequence<2>{}); break;
    case 1: multi(c, std::make_index_sequence<3>{}); break;
    case 2: multi(c, std::make_index_sequence<4>{}); break;
    default: multi(c, std::make_index_sequence<5>{});
    }
}

namespace {
const std::vector<nest::Op> &nested() {
    using namespace nest;
    auto twice = [](const Item &f, const Array &v, uint32_t is) { Array o; for (double x : each(f, v, is)) { o.push_back(x); o.push_back(x + 0.5); } return o; };
    auto truth = [](const Item &f, const Array &v, uint32_t is) { Array o; for (double x : each(f, v, is)) o.push_back(std::fmod(x, 2) < 1); return o; };
    auto sum = [](const Item &f, const Array &v, uint32_t is) { double acc = 3; for (double x : each(f, v, is)) acc = fold(acc, x); return Array{acc}; };
    static const std::vector<Op> ops = {
        {"map scalar-scalar", 1, [](const Item &f, const Array &v, uint32_t) { return df::map([&](double x, uint32_t i) { return f(Array{x}, i); }, Serie(1, v)).asArray(); }, each},
        {"map scalar-int", 1, [](const Item &f, const Array &v, uint32_t) { return df::map([&](double x, uint32_t i) { return int(f(Array{x}, i)); }, Serie(1, v)).asArray(); }, each},
        {"map scalar-array", 1, [](const Item &f, const Array &v, uint32_t) { return df::map([&](double x, uint32_t i) { double y = f(Array{x}, i); return Array{y, y + 0.5}; }, Serie(1, v)).asArray(); }, twice},
        {"map array-scalar", 0, [](const Item &f, const Array &v, uint32_t is) { return df::map([&](const Array &x, uint32_t i) { return f(x, i); }, Serie(is, v)).asArray(); }, each},
        {"map array-array", 0, [](const Item &f, const Array &v, uint32_t is) { return df::map([&](const Array &x, uint32_t i) { double y = f(x, i); return Array{y, y + 0.5}; }, Serie(is, v)).asArray(); }, twice},
        {"map several-scalar", 0, [](const Item &f, const Array &v, uint32_t is) { Serie s(is, v); return df::map([&](const Array &x, const Array &, uint32_t i) { return f(x, i); }, s, s).asArray(); }, each},
        {"map several-array", 0, [](const Item &f, const Array &v, uint32_t is) { Serie s(is, v), z(1, Array(v.size() / is, 2)); return df::map([&](const Array &, const Array &x, uint32_t i) { double y = f(x, i); return Array{y, y + 0.5}; }, z, s).asArray(); }, twice},
        {"member map", 1, [](const Item &f, const Array &v, uint32_t) { return Serie(1, v).map([&](double x, uint32_t i) { return f(Array{x}, i); }).asArray(); }, each},
        {"apply", 0, [](const Item &f, const Array &v, uint32_t is) { return df::utils::apply([&](const Array &x, uint32_t i) { return f(x, i); }, Serie(is, v)).asArray(); }, each},
        {"forEach scalar", 1, [](const Item &f, const Array &v, uint32_t) { Array o; df::forEach([&](double x, uint32_t i) { o.push_back(f(Array{x}, i)); }, Serie(1, v)); return o; }, each},
        {"forEach array", 0, [](const Item &f, const Array &v, uint32_t is) { Array o; df::forEach([&](const Array &x, uint32_t i) { o.push_back(f(x, i)); }, Serie(is, v)); return o; }, each},
        {"forEach generic", 1, [](const Item &f, const Array &v, uint32_t) { Array o; Serie(1, v).forEach([&](const auto &x, uint32_t i) { if constexpr (std::is_same_v<std::decay_t<decltype(x)>, double>) o.push_back(f(Array{x}, i)); else o.push_back(f(x, i)); }); return o; }, each},
        {"forEach several", 0, [](const Item &f, const Array &v, uint32_t is) { Array o; Serie s(is, v); df::forEach([&](const Array &x, const Array &, const Array &, uint32_t i) { o.push_back(f(x, i)); }, s, s, s); return o; }, each},
        {"reduce scalar", 1, [](const Item &f, const Array &v, uint32_t) { return Array{df::reduce([&](double acc, double x, uint32_t i) { double y = f(Array{x}, i); return fold(acc, y); }, Serie(1, v), 3)}; }, sum},
        {"reduce array", 0, [](const Item &f, const Array &v, uint32_t is) { return df::reduce([&](const Array &acc, const Array &x, uint32_t i) { double y = f(x, i); return Array{fold(acc[0], y)}; }, Serie(is, v), Array{3}).asArray(); }, sum},
        {"check scalar", 1, [](const Item &f, const Array &v, uint32_t) { return df::cond::check(Serie(1, v), [&](double x, uint32_t i) { return std::fmod(f(Array{x}, i), 2) < 1; }).asArray(); }, truth},
        {"check array", 0, [](const Item &f, const Array &v, uint32_t is) { return df::cond::check(Serie(is, v), [&](const Array &x, uint32_t i) { return std::fmod(f(x, i), 2) < 1; }).asArray(); }, truth},
        {"if_then_else scalar", 1, [](const Item &f, const Array &v, uint32_t) { return df::cond::if_then_else(Serie(1, v), [](double x) { return x > 400; }, [&](double x, uint32_t i, const Serie &) { return f(Array{x}, i); }, [&](double x, uint32_t i, const Serie &) { return f(Array{x}, i); }).asArray(); }, each},
        {"if_then_else array", 0, [](const Item &f, const Array &v, uint32_t is) { return df::cond::if_then_else(Serie(is, v), [](const Array &x) { return x[0] > 400; }, [&](const Array &x, uint32_t i, const Serie &) { double y = f(x, i); return Array{y, y + 0.5}; }, [&](const Array &x, uint32_t i, const Serie &) { double y = f(x, i); return Array{y, y + 0.5}; }).asArray(); }, twice},
    };
    return ops;
}
} // namespace

VF_DRIVER("nested", 3000, 60000, "callbacks which call the same function again, up to four levels deep, against plain loops: the results, the items and the number of calls; non-trivial: always", {{"nested_calls", 20000}}) {
    nest::check(c, c.rng.pick(nested()));
}
VF_DRIVER("large", 2, 8, "map, forEach, reduce and check on a scalar Serie of more than 2^24 or a million items, every index and value; non-trivial: always", {{"calls", 4000000}}) {
    Rng &r = c.rng;
    // past the integers a float holds exactly, and past a million
    const uint32_t n = c.index % 2 ? uint32_t(r.range(1000001, 1100000)) : (1u << 24) + uint32_t(r.range(3, 999));

    c.nontrivial = true;
    c.hash.u(n);
    c.desc = std::to_string(n) + " items";
    Array v(n);
    for (uint32_t i = 0; i < n; ++i) v[i] = double(i) * 2 + 1;
    const Serie s(1, v);
    const char *what = "map";
    uint64_t next = 0;
    auto seen = [&](double x, uint32_t i) { VF_CHECK(i == next && x == v[i], "large", what << ": call number " << next << " of " << n << " got index " << i << " and value " << x); ++next; };
    auto all = [&] { VF_CHECK(next == n, "large", what << ": " << next << " calls for " << n << " items"); c.event("calls", next); next = 0; };
    { const Serie m = df::map([&](double x, uint32_t i) { seen(x, i); return x + i; }, s); all(); check_shape(m, 1, n, "large", "map"); for (uint32_t i = 0; i < n; ++i) if (m.asArray()[i] != v[i] + i) vf::fail("large", "map: item " + std::to_string(i)); }
    what = "forEach";
    df::forEach([&](double x, uint32_t i) { seen(x, i); }, s);
    all();
    what = "reduce";
    VF_CHECK(df::reduce([&](double acc, double x, uint32_t i) { seen(x, i); return acc + 1; }, s, 0.0) == double(n), "large", "reduce gives another number of items");
    all();
    what = "check";
    { const Serie m = df::cond::check(s, [&](double x, uint32_t i) { seen(x, i); return i % 3 == 1; }); all(); check_shape(m, 1, n, "large", "check"); for (uint32_t i = 0; i < n; ++i) if (m.asArray()[i] != double(i % 3 == 1)) vf::fail("large", "check: item " + std::to_string(i)); }
}
VF_MAIN

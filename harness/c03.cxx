// C03: selection keeps exactly the matching items, in order, unchanged.
#include "nest.h"
#include <dataframe/functional/filter.h>
#include <dataframe/functional/find.h>
#include <dataframe/functional/utils/cut.h>
#include <dataframe/functional/utils/partition.h>
#include <dataframe/functional/utils/reject.h>
using namespace dfh;

namespace {
// A predicate decided in advance per index or from the values, watched call by call.
struct Pred {
    Ctx &c;
    std::vector<const M *> in;
    std::vector<char> want;  // decision per index
    uint32_t next = 0;
    std::string op;
    bool with_index = true;
    Pred(Ctx &c, std::vector<const M *> in) : c(c), in(std::move(in)) {
        Rng &r = c.rng;
        uint32_t n = this->in[0]->n;
        want.resize(n);
        uint64_t mode = n > 30000 && r.chance(0.6) ? (r.chance(0.5) ? 3 : 9) : r.below(9);
        double p = r.unit();
        double thr = r.uni(-5, 5);
        uint64_t salt = r.next();
        for (uint32_t i = 0; i < n; ++i) {
            const M &m = *this->in[r.below(this->in.size())];
            switch (mode) {
            case 0: want[i] = 1; break;
            case 1: want[i] = 0; break;
            case 2: want[i] = i == 0; break;
            case 3: want[i] = i == n - 1; break;
            case 4: want[i] = i & 1; break;
            case 5: want[i] = m.v[size_t(i) * m.is] > thr; break;
            case 6: want[i] = i >= n / 2; break;
            case 9: want[i] = i >= n - 1 - salt % 4000; break;
            case 7: want[i] = (i % (1 + salt % 17)) == 0; break;
            default: want[i] = double(vf::mix(salt + i) >> 11) * 0x1p-53 < p;
            }
        }
    }
    bool decide(const std::vector<const Array *> &items, uint32_t i) {
        VF_CHECK(i == next && i < want.size(), "order", op << ": call number " << next << " got index " << i << " of " << want.size());
        for (size_t k = 0; k < items.size(); ++k)
            VF_CHECK(items[k]->size() == in[k]->is && std::memcmp(items[k]->data(), in[k]->v.data() + size_t(i) * in[k]->is, in[k]->is * sizeof(double)) == 0,
                     "wrong-item", op << ": item " << i << " of Serie " << k << " given as " << show(*items[k]) << " instead of " << show(in[k]->item(i)));
        ++next;
        c.event("calls");
        return want[i];
    }
    bool decide(double v, uint32_t i) {
        VF_CHECK(i == next && i < want.size(), "order", op << ": call number " << next << " got index " << i << " of " << want.size());
        VF_CHECK(std::memcmp(&v, &in[0]->v[i], sizeof v) == 0, "wrong-item", op << ": value " << i << " given as " << v);
        ++next;
        c.event("calls");
        return want[i];
    }
    void done() { VF_CHECK(next == want.size(), "not-all-items", op << ": " << next << " calls for " << want.size() << " items"); next = 0; }
    M selected(size_t k, bool yes = true) const {
        M o{in[k]->is, 0, in[k]->dim, {}};
        for (uint32_t i = 0; i < want.size(); ++i)
            if (bool(want[i]) == yes) o.push(in[k]->item(i));
        return o;
    }
};
void same(Ctx &c, const Serie &s, const M &m, const std::string &op) {
    check_same(s, m, "selection", op);
    VF_CHECK(identical(s.asArray(), m.v), "selection", op << " changed bits of " << show(m.v));
    c.event("results");
    if (m.n) c.event("kept", m.n);
}
} // namespace

VF_DRIVER("single", 6000, 150000, "one selection on one random Serie, each predicate call watched; non-trivial: at least one item", {{"calls", 100000}, {"kept", 10000}, {"found", 100}, {"notfound", 50}}) {
    Huge huge_(0.01);
    Rng &r = c.rng;
    bool scalar = r.chance(0.5);
    uint32_t is = scalar ? 1 : item_size(r);
    M m = gen(r, is, count(r, std::max(40u, 66000 / is)), any_kind(r), dim(r));
    if (r.chance(0.25)) recur(r, m);
    id(c, m);
    Serie s = m.serie();
    Pred p(c, {&m});
    auto ps = [&p](double v, uint32_t i) -> bool { return p.decide(v, i); };
    auto pa = [&p](const Array &v, uint32_t i) -> bool { return p.decide({&v}, i); };
    uint64_t salt = r.next();
    auto is_ = [&p, salt](double v, uint32_t i) -> int { return truthy_int(salt + i, p.decide(v, i)); };
    auto ia = [&p, salt](const Array &v, uint32_t i) -> int { return truthy_int(salt + i, p.decide({&v}, i)); };
    auto ds = [&p, salt](double v, uint32_t i) -> double { return truthy_double(salt + i, p.decide(v, i)); };
    auto da = [&p, salt](const Array &v, uint32_t i) -> double { return truthy_double(salt + i, p.decide({&v}, i)); };
    uint64_t says = r.below(6);   // what the predicate returns: 0 int, 1 double, others bool
    // f gets the predicate which returns that
    auto with = [&](auto &&f) {
        if (scalar) return says == 0 ? f(is_) : says == 1 ? f(ds) : f(ps);
        return says == 0 ? f(ia) : says == 1 ? f(da) : f(pa);
    };
    uint64_t op = m.n > 30000 && r.chance(0.5) ? 8 : r.below(11);
    c.hash.u(op);
    for (char b : p.want) c.hash.u(b);
    static const char *names[] = {"filter", "Serie::filter", "make_filter", "cut", "make_cut", "reject", "make_reject", "partition", "find", "findAll", "makeFindAll"};
    p.op = names[op];
    c.desc = p.op + (scalar ? " scalar " : " array ") + shape(m);
    c.event("op:" + p.op);
    auto twice = [&](auto &&f) { same(c, f(s), p.selected(0, op != 6), p.op); p.done(); same(c, f(s), p.selected(0, op != 6), p.op + " again"); p.done(); };
    switch (op) {
    case 0: same(c, scalar ? df::filter(ps, s) : df::filter(pa, s), p.selected(0), p.op); p.done(); break;
    case 1: same(c, scalar ? s.filter(ps) : s.filter(pa), p.selected(0), p.op); p.done(); break;
    case 2: if (scalar) twice(df::make_filter(ps)); else twice(df::make_filter(pa)); break;
    case 3: same(c, scalar ? df::utils::cut(ps, s) : df::utils::cut(pa, s), p.selected(0), p.op); p.done(); break;
    case 4: if (scalar) twice(df::utils::make_cut(ps)); else twice(df::utils::make_cut(pa)); break;
    case 5: same(c, scalar ? df::utils::reject(ps, s) : df::utils::reject(pa, s), p.selected(0, false), p.op); p.done(); break;
    case 6: if (scalar) twice(df::utils::make_reject(ps)); else twice(df::utils::make_reject(pa)); break;
    case 7: {
        auto [a, b] = with([&](auto &q) { return df::utils::partition(q, s); });
        p.done();
        same(c, a, p.selected(0, true), "partition, matching");
        same(c, b, p.selected(0, false), "partition, others");
        break;
    }
    case 8: {
        uint32_t at = 0;
        while (at < m.n && !p.want[at]) ++at;
        bool make = r.chance(0.3);
        auto verify = [&](auto f, auto item) {
            VF_CHECK(f.found == (at < m.n) && bool(f) == f.found, "find", "find says " << f.found << ", first match at " << at << " of " << m.n);
            if (f.found) VF_CHECK(f.index == at && item(f.value), "find", "find gave index " << f.index << " instead of " << at << ", or another item");
            VF_CHECK(p.next == std::min(at + 1, m.n), "calls-after-match", "find made " << p.next << " calls, first match at " << at << " of " << m.n);
            c.event(f.found ? "found" : "notfound");
        };
        auto find = [&](auto &q) { return make ? df::makeFind(q)(s) : df::find(q, s); };
        if (scalar) verify(says == 0 ? find(is_) : says == 1 ? find(ds) : find(ps), [&](double v) { return identical(Array{v}, m.item(at)); });
        else if (is > 1) verify(says == 0 ? find(ia) : says == 1 ? find(da) : find(pa), [&](const Array &v) { return identical(v, m.item(at)); });
        break;
    }
    case 9: same(c, scalar ? df::findAll(ps, s) : df::findAll(pa, s), p.selected(0), p.op); p.done(); break;
    case 10: with([&](auto &q) { twice(df::makeFindAll(q)); return 0; }); break;
    }
    check_unchanged(s, m, "input-changed");
}

namespace {
template <size_t, class T> using rep = T;
template <size_t... K> void multi(Ctx &c, std::index_sequence<K...>) {
    constexpr size_t N = sizeof...(K);
    Rng &r = c.rng;
    std::vector<M> ms;
    uint32_t n = count(r, 3000);
    for (size_t k = 0; k < N; ++k) ms.push_back(gen(r, uint32_t(r.range(1, 8)), n, any_kind(r), dim(r)));
    bool mismatch = r.chance(0.12);
    if (mismatch) {
        M &m = ms[r.below(N)];
        m = gen(r, m.is, r.chance(0.5) ? n + 1 + uint32_t(r.below(3)) : (n ? uint32_t(r.below(n)) : 1), K_UNI, m.dim);
    }
    Several s;
    std::vector<const M *> in;
    for (auto &m : ms) { s.push_back(m.serie()); in.push_back(&m); }
    if (!mismatch && alias(r, s, ms)) c.event("same_object");
    for (auto &m : ms) id(c, m);
    uint64_t op = r.below(5), salt = r.next();
    c.hash.u(op);
    static const char *names[] = {"filter", "filterAll", "reject", "rejectAll", "make_reject"};
    std::string name = std::string(names[op]) + " on " + std::to_string(N) + " Series";
    c.desc = name + ", " + std::to_string(n) + " items" + (mismatch ? ", counts differ" : "");
    c.event("op:" + name);
    if (mismatch) {
        auto a = [](const rep<K, Array> &..., uint32_t) -> bool { return true; };
        auto b = [](const rep<K, Array> &...) -> bool { return false; };
        bool t = op == 0 ? throws([&] { df::filter(a, s[K]...); }) : op == 1 ? throws([&] { df::filterAll(b, s[K]...); })
               : op == 2 ? throws([&] { df::utils::reject(a, s[K]...); }) : throws([&] { df::utils::rejectAll(b, s[K]...); });
        VF_CHECK(t, "counts-accepted", name << " accepted different counts");
        c.event("refused");
        return;
    }
    Pred p(c, in);
    p.op = name;
    for (char b : p.want) c.hash.u(b);
    auto a = [&p](const rep<K, Array> &...x, uint32_t i) -> bool { return p.decide({&x...}, i); };
    auto b = [&p](const rep<K, Array> &...x) -> bool { return p.decide({&x...}, p.next); };
    auto all = [&](const std::vector<Serie> &o, bool yes) {
        p.done();
        VF_CHECK(o.size() == N, "selection", name << " gave " << o.size() << " Series");
        for (size_t k = 0; k < N; ++k) same(c, o[k], p.selected(k, yes), name + ", Serie " + std::to_string(k));
    };
    auto vec = [](auto &&t) { return std::apply([](auto &&...x) { return std::vector<Serie>{x...}; }, t); };
    if (op == 0) all(vec(df::filter(a, s[K]...)), true);
    auto bi = [&](const rep<K, Array> &...x) -> int { return truthy_int(salt + p.next, b(x...)); };
    auto bd = [&](const rep<K, Array> &...x) -> double { return truthy_double(salt + p.next, b(x...)); };
    if (op == 1) all(salt % 5 == 0 ? df::filterAll(bi, s[K]...) : salt % 5 == 1 ? df::filterAll(bd, s[K]...) : df::filterAll(b, s[K]...), true);
    if (op == 2) all(vec(df::utils::reject(a, s[K]...)), false);
    if (op == 3) all(salt % 5 == 0 ? df::utils::rejectAll(bi, s[K]...) : salt % 5 == 1 ? df::utils::rejectAll(bd, s[K]...) : df::utils::rejectAll(b, s[K]...), false);
    if (op == 4) { auto f = df::utils::make_reject(a); all(vec(f(s[K]...)), false); all(vec(f(s[K]...)), false); }
    for (size_t k = 0; k < N; ++k) check_unchanged(s[k], ms[k], "input-changed");
}
} // namespace

VF_DRIVER("several", 4000, 100000, "the multi-Serie selections on 2 to 4 Series of their own item sizes; non-trivial: at least one item", {{"calls", 50000}, {"kept", 10000}, {"refused", 100}}) {
    Huge huge_(0.004);
    switch (c.rng.below(3)) {
    case 0: multi(c, std::make_index_sequence<2>{}); break;
    case 1: multi(c, std::make_index_sequence<3>{}); break;
    default: multi(c, std::make_index_sequence<4>{});
    }
}

namespace {
const std::vector<nest::Op> &nested() {
    using namespace nest;
    auto pick = [](bool yes) {
        return [yes](const Item &f, const Array &v, uint32_t is) {
            Array o;
            for (uint32_t i = 0; i < v.size() / is; ++i)
                if ((std::fmod(f(item_of(v, is, i), i), 2) < 1) == yes) for (double x : item_of(v, is, i)) o.push_back(x);
            return o;
        };
    };
    auto both = [pick](const Item &f, const Array &v, uint32_t is) {
        Array o, n;
        for (uint32_t i = 0; i < v.size() / is; ++i)
            for (bool yes = std::fmod(f(item_of(v, is, i), i), 2) < 1; double x : item_of(v, is, i)) (yes ? o : n).push_back(x);
        o.push_back(-1);
        o.insert(o.end(), n.begin(), n.end());
        return o;
    };
    auto first = [](const Item &f, const Array &v, uint32_t is) {
        for (uint32_t i = 0; i < v.size() / is; ++i)
            if (std::fmod(f(item_of(v, is, i), i), 2) < 1) { Array o = item_of(v, is, i); o.push_back(i); return o; }
        return Array{};
    };
    auto dup = [pick](bool yes) { return [pick, yes](const Item &f, const Array &v, uint32_t is) { Array o = pick(yes)(f, v, is), p = o; o.insert(o.end(), p.begin(), p.end()); return o; }; };
    static auto two = [](const Serie &a, const Serie &b) { Array o = a.asArray(); o.insert(o.end(), b.asArray().begin(), b.asArray().end()); return o; };
    static auto apart = [](const Serie &a, const Serie &b) { Array o = a.asArray(); o.push_back(-1); o.insert(o.end(), b.asArray().begin(), b.asArray().end()); return o; };
    static const std::vector<Op> ops = {
        {"filter scalar", 1, [](const Item &f, const Array &v, uint32_t) { return df::filter([&](double x, uint32_t i) -> bool { return std::fmod(f(Array{x}, i), 2) < 1; }, Serie(1, v)).asArray(); }, pick(true)},
        {"filter array", 0, [](const Item &f, const Array &v, uint32_t is) { return df::filter([&](const Array &x, uint32_t i) -> bool { return std::fmod(f(x, i), 2) < 1; }, Serie(is, v)).asArray(); }, pick(true)},
        {"member filter", 1, [](const Item &f, const Array &v, uint32_t) { return Serie(1, v).filter([&](double x, uint32_t i) -> bool { return std::fmod(f(Array{x}, i), 2) < 1; }).asArray(); }, pick(true)},
        {"filter several", 0, [](const Item &f, const Array &v, uint32_t is) { Serie s(is, v); auto [a, b] = df::filter([&](const Array &x, const Array &, uint32_t i) -> bool { return std::fmod(f(x, i), 2) < 1; }, s, s); return two(a, b); }, dup(true)},
        {"filterAll", 0, [](const Item &f, const Array &v, uint32_t is) { Serie s(is, v); uint32_t i = 0; auto a = df::filterAll([&](const Array &x, const Array &) -> bool { return std::fmod(f(x, i++), 2) < 1; }, s, s); return two(a[0], a[1]); }, dup(true)},
        {"reject scalar", 1, [](const Item &f, const Array &v, uint32_t) { return df::utils::reject([&](double x, uint32_t i) -> bool { return std::fmod(f(Array{x}, i), 2) < 1; }, Serie(1, v)).asArray(); }, pick(false)},
        {"reject array", 0, [](const Item &f, const Array &v, uint32_t is) { return df::utils::reject([&](const Array &x, uint32_t i) -> bool { return std::fmod(f(x, i), 2) < 1; }, Serie(is, v)).asArray(); }, pick(false)},
        {"reject several", 0, [](const Item &f, const Array &v, uint32_t is) { Serie s(is, v); auto [a, b] = df::utils::reject([&](const Array &x, const Array &, uint32_t i) -> bool { return std::fmod(f(x, i), 2) < 1; }, s, s); return two(a, b); }, dup(false)},
        {"rejectAll", 0, [](const Item &f, const Array &v, uint32_t is) { Serie s(is, v); uint32_t i = 0; auto a = df::utils::rejectAll([&](const Array &x, const Array &) -> bool { return std::fmod(f(x, i++), 2) < 1; }, s, s); return two(a[0], a[1]); }, dup(false)},
        {"cut", 1, [](const Item &f, const Array &v, uint32_t) { return df::utils::cut([&](double x, uint32_t i) -> bool { return std::fmod(f(Array{x}, i), 2) < 1; }, Serie(1, v)).asArray(); }, pick(true)},
        {"partition scalar", 1, [](const Item &f, const Array &v, uint32_t) { auto [a, b] = df::utils::partition([&](double x, uint32_t i) -> bool { return std::fmod(f(Array{x}, i), 2) < 1; }, Serie(1, v)); return apart(a, b); }, both},
        {"partition array", 0, [](const Item &f, const Array &v, uint32_t is) { auto [a, b] = df::utils::partition([&](const Array &x, uint32_t i) -> bool { return std::fmod(f(x, i), 2) < 1; }, Serie(is, v)); return apart(a, b); }, both},
        {"findAll scalar", 1, [](const Item &f, const Array &v, uint32_t) { return df::findAll([&](double x, uint32_t i) -> bool { return std::fmod(f(Array{x}, i), 2) < 1; }, Serie(1, v)).asArray(); }, pick(true)},
        {"findAll array", 0, [](const Item &f, const Array &v, uint32_t is) { return df::findAll([&](const Array &x, uint32_t i) -> bool { return std::fmod(f(x, i), 2) < 1; }, Serie(is, v)).asArray(); }, pick(true)},
        {"find scalar", 1, [](const Item &f, const Array &v, uint32_t) { auto x = df::find([&](double x, uint32_t i) -> bool { return std::fmod(f(Array{x}, i), 2) < 1; }, Serie(1, v)); return x ? Array{x.value, double(x.index)} : Array{}; }, first},
        {"find array", 0, [](const Item &f, const Array &v, uint32_t is) { auto x = df::find([&](const Array &x, uint32_t i) -> bool { return std::fmod(f(x, i), 2) < 1; }, Serie(is, v)); if (!x) return Array{}; Array o = x.value; o.push_back(x.index); return o; }, first},
    };
    return ops;
}
} // namespace

VF_DRIVER("nested", 3000, 60000, "predicates which call the same selection again, up to four levels deep, against plain loops: the results, the items and the number of calls; non-trivial: always", {{"nested_calls", 20000}}) {
    nest::check(c, c.rng.pick(nested()));
}
VF_DRIVER("large", 2, 8, "filter, reject, findAll, find and cut on a scalar Serie of more than 2^24 or a million items; non-trivial: always", {{"selected", 500000}}) {
    Rng &r = c.rng;
    // past the integers a float holds exactly, and past a million
    const uint32_t n = c.index % 2 ? uint32_t(r.range(1000001, 1100000)) : (1u << 24) + uint32_t(r.range(3, 999));

    c.nontrivial = true;
    c.hash.u(n);
    c.desc = std::to_string(n) + " items";
    Array v(n), yes, no;
    auto keep = [n](uint32_t i) { return i % 7 == 3 || i + 600 > n; };
    for (uint32_t i = 0; i < n; ++i) { v[i] = double(i) + 0.5; (keep(i) ? yes : no).push_back(v[i]); }
    const Serie s(1, v);
    auto pred = [&](double, uint32_t i) { return keep(i); };
    c.event("selected", yes.size());
    VF_CHECK(df::filter(pred, s).asArray() == yes, "large", "filter");
    VF_CHECK(df::utils::reject(pred, s).asArray() == no, "large", "reject");
    { auto [a, b] = df::utils::partition(pred, s); VF_CHECK(a.asArray() == yes && b.asArray() == no, "large", "partition"); }
    auto f = df::find([&](double x, uint32_t) { return x == v[n - 2]; }, s);
    VF_CHECK(bool(f) && f.index == n - 2, "large", "find does not find item " << n - 2 << " of " << n);
}
VF_MAIN

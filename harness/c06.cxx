// C06: memoize is transparent and computes each distinct input once.
#include "dfh.h"
#include <dataframe/functional/utils/memoize.h>
#include <memory>
using namespace dfh;

namespace {
using Key = std::vector<uint64_t>;
Key key(const M &m) {
    Key k{m.is, m.n, m.dim};
    for (double v : m.v) k.push_back(std::bit_cast<uint64_t>(v));
    return k;
}
Serie serie(const M &m) { return m.is ? m.serie() : Serie(); }
M answer(const M &m, uint64_t salt) {  // depends on every bit of the input
    vf::Hash h;
    h.u(salt);
    for (uint64_t x : key(m)) h.u(x);
    uint32_t is = 1 + uint32_t(h.h % 4), n = uint32_t((h.h >> 8) % 5);
    if ((h.h >> 20) % 8 == 0) return M{0, 0, 3, {}};   // a Serie without layout is an answer as well
    M o{is, n, 2 + uint32_t((h.h >> 16) & 1), {}};
    for (uint32_t i = 0; i < is * n; ++i) { h.u(i); o.v.push_back(double(int64_t(h.h)) / 3); }
    return o;
}
struct Log {
    uint64_t calls = 0;
    M last;
    bool boom = false;
};
struct Fn {
    std::shared_ptr<Log> log;
    uint64_t salt;
    Serie operator()(const Serie &s) const {
        ++log->calls;
        log->last = model(s);
        if (log->boom) throw std::runtime_error("boom");
        return answer(log->last, salt);
    }
    operator bool() const { return true; }
    static Serie answer(const M &m, uint64_t salt) { return ::serie(::answer(m, salt)); }
};
using Memo = df::utils::Memoized<Fn>;
enum State { NEW, MAYBE, HELD };
struct Obj {
    Memo f;
    std::map<Key, State> known;
};
M mutate(Rng &r, const M &b) {
    M m = b;
    if (!m.is) return gen(r, 1, uint32_t(r.below(2)), K_UNI, m.dim);
    if (m.v.empty()) { if (r.chance(0.5)) m.dim = 5 - m.dim; else m = gen(r, m.is, 1, K_UNI, m.dim); return m; }
    size_t i = r.chance(0.3) ? m.v.size() - 1 : r.chance(0.3) ? 0 : r.below(m.v.size());
    switch (r.below(14)) {
    case 0: m.v[i] = std::nextafter(m.v[i], 1e308); break;
    case 1: m.v[i] = -m.v[i]; break;
    case 2: m.v[i] = 0.0; break;
    case 3: m.v[i] = -0.0; break;
    case 4: m.v[i] = std::numeric_limits<double>::quiet_NaN(); break;
    case 5: m.v[i] = std::bit_cast<double>(0x7ff8000000000000ull + r.below(3)); break;
    case 6: m.dim = 5 - m.dim; break;
    case 7: case 8: {  // the same values in another layout
        std::vector<uint32_t> d;
        for (uint32_t k = 1; k <= m.v.size() && k < 64; ++k) if (m.v.size() % k == 0) d.push_back(k);
        m.is = r.pick(d);
        m.n = uint32_t(m.v.size() / m.is);
        break;
    }
    case 9: std::swap(m.v[i], m.v[r.below(m.v.size())]); break;
    case 10: r.shuffle(m.v); break;
    case 11: std::reverse(m.v.begin(), m.v.end()); break;
    case 12: m.v.resize(m.v.size() - m.is); --m.n; break;
    default: { Array a = values(r, m.is, K_TIES); m.push(a); }
    }
    return m;
}
} // namespace

VF_DRIVER("history", 4000, 100000, "histories of calls of memoized functions on near-identical inputs, with throwing calls, clears, copies and assignments; non-trivial: an input was asked twice", {{"hits", 5000}, {"misses", 5000}, {"thrown", 200}, {"clears", 200}, {"copies", 200}}) {
    Huge huge_(0.0005);
    Rng &r = c.rng;
    auto log = std::make_shared<Log>();
    uint64_t salt = r.next();
    std::vector<Obj> objs;
    objs.push_back(Obj{df::utils::memoize(Fn{log, salt}), {}});
    std::vector<M> pool;
    size_t base = 1 + r.below(3);
    for (size_t i = 0; i < base; ++i) { pool.push_back(gen(r, uint32_t(r.range(1, 6)), r.chance(0.9) ? uint32_t(r.below(9)) : count(r, 700), any_kind(r), dim(r))); id(c, pool.back()); }
    if (r.chance(0.2)) pool.push_back(M{0, 0, 3, {}});
    int steps = int(r.range(10, 80));
    c.desc = std::to_string(steps) + " steps from " + shape(pool[0]);
    for (int st = 0; st < steps; ++st) {
        size_t o = r.below(objs.size());
        uint64_t op = r.below(20);
        c.hash.u(op);
        if (op == 0) {
            objs[o].f.clear_cache();
            objs[o].known.clear();
            c.event("clears");
        } else if (op == 1 && objs.size() < 5) {
            Obj n{objs[o].f, objs[o].known};
            for (auto &[k, s] : n.known) s = MAYBE;
            objs.push_back(std::move(n));
            c.event("copies");
        } else if (op == 2 && objs.size() > 1) {
            // a temporary copy comes, is used and goes
            Memo t = objs[o].f;
            if (r.chance(0.5)) t.clear_cache();
            M m = r.pick(pool);
            check_same(t(serie(m)), answer(m, salt), "wrong-answer", "a copy");
            c.event("copies");
        } else {
            if (pool.size() < 40 && r.chance(0.4)) pool.push_back(mutate(r, r.pick(pool)));
            const M &m = r.chance(0.4) ? pool.back() : r.pick(pool);
            Key k = key(m);
            State st0 = objs[o].known.count(k) ? objs[o].known[k] : NEW;
            log->boom = r.chance(0.08);
            uint64_t before = log->calls;
            Serie in = serie(m);
            bool threw = false;
            try {
                Serie s = objs[o].f(in);
                check_same(s, answer(m, salt), "wrong-answer", "the memoized function on " + shape(m) + " " + show(m.v));
                VF_CHECK(s.dimension() == answer(m, salt).dim, "wrong-answer", "dimension " << s.dimension());
                for (double &x : s.asArray()) x = 777;  // the caller's copy is the caller's
            } catch (const std::runtime_error &) {
                threw = true;
            }
            uint64_t d = log->calls - before;
            VF_CHECK(threw == (log->boom && d > 0), "exception", "the call " << (threw ? "threw" : "did not throw"));
            if (st0 == HELD) { VF_CHECK(d == 0, "called-again", "the function was called again for " << shape(m) << " " << show(m.v)); c.event("hits"); c.nontrivial = true; }
            if (st0 == NEW) { VF_CHECK(d == 1, "not-called", "the function was called " << d << " times for the new input " << shape(m) << " " << show(m.v)); c.event("misses"); }
            VF_CHECK(d <= 1, "called-again", "called " << d << " times");
            if (d) VF_CHECK(key(log->last) == k, "other-input", "the function was given another input");
            if (!threw) objs[o].known[k] = HELD;
            else c.event("thrown");
            check_unchanged(in, m, "input-changed");
            log->boom = false;
        }
    }
}

VF_DRIVER("many", 50, 1000, "hundreds to thousands of distinct inputs, all asked again in another order; non-trivial: always", {{"hits", 10000}, {"misses", 10000}}) {
    Rng &r = c.rng;
    auto log = std::make_shared<Log>();
    uint64_t salt = r.next();
    auto f = df::utils::memoize(Fn{log, salt});
    size_t n = r.chance(0.7) ? size_t(r.range(100, 700)) : r.chance(0.7) ? size_t(r.range(1500, 4500)) : size_t(r.range(5000, 12000));
    uint64_t kind = r.below(3);
    if (c.index == 0) n = 70000, kind = 0;
    std::vector<M> in;
    std::set<Key> seen;
    M base = gen(r, uint32_t(r.range(1, 4)), uint32_t(r.range(1, 12)), K_UNI, 3);
    for (size_t i = 0; in.size() < n && i < 10 * n; ++i) {
        M m;
        if (kind == 0) m = M{1, 1, 3, {double(i)}};
        else if (kind == 1) m = mutate(r, in.empty() || r.chance(0.1) ? base : r.pick(in));
        else { m = base; m.v[r.below(m.v.size())] = double(r.range(-50, 50)); }
        if (seen.insert(key(m)).second) in.push_back(m);
    }
    c.hash.u(salt);
    c.nontrivial = true;
    c.desc = std::to_string(in.size()) + " inputs, kind " + std::to_string(kind);
    for (auto &m : in) {
        uint64_t b = log->calls;
        check_same(f(serie(m)), answer(m, salt), "wrong-answer", "first call");
        VF_CHECK(log->calls == b + 1, "not-called", "the function was called " << log->calls - b << " times for a new input");
        c.event("misses");
    }
    for (int pass = 0; pass < (c.index ? 2 : 1); ++pass) {
        r.shuffle(in);
        for (auto &m : in) {
            uint64_t b = log->calls;
            check_same(f(serie(m)), answer(m, salt), "wrong-answer", "later call");
            VF_CHECK(log->calls == b, "called-again", "the function was called again for an input asked before (" << in.size() << " inputs)");
            c.event("hits");
        }
    }
    f.clear_cache();
    for (auto &m : in) {
        uint64_t b = log->calls;
        check_same(f(serie(m)), answer(m, salt), "wrong-answer", "call after clear_cache");
        VF_CHECK(log->calls == b + 1, "not-called", "the function was not called again after clear_cache");
    }
}

VF_DRIVER("nested", 1500, 30000, "memoized functions which call themselves for other inputs, throw at some level or clear the cache while they run; non-trivial: a call that was nested", {{"nested", 6000}, {"hits", 4000}, {"thrown", 400}, {"cleared", 200}}) {
    Rng &r = c.rng;
    const uint64_t salt = r.next();
    std::vector<M> in;
    std::map<Key, size_t> at;
    const size_t n = size_t(r.range(2, 20));
    for (size_t tries = 0; in.size() < n && tries < 200; ++tries) {
        M m = in.empty() || r.chance(0.2) ? gen(r, uint32_t(r.range(1, 4)), uint32_t(r.range(1, 6)), any_kind(r), dim(r)) : mutate(r, r.pick(in));
        if (m.is && at.emplace(key(m), in.size()).second) { in.push_back(m); id(c, m); }
    }
    std::vector<uint64_t> calls(in.size(), 0), want(in.size(), 0);
    std::vector<bool> known(in.size(), false);
    bool fuzzy = false, wiped = false;  // the cache was cleared in the middle of a call
    std::vector<std::vector<size_t>> kids(in.size());
    for (size_t k = 1; k < in.size(); ++k)
        for (size_t j = r.below(5); j > 0; --j) kids[k].push_back(r.below(k));
    // what the function gives, from its definition
    std::vector<double> answer(in.size());
    auto combine = [&](size_t k, const std::vector<double> &sub) {
        vf::Hash h;
        h.u(salt);
        for (uint64_t x : key(in[k])) h.u(x);
        for (double x : sub) h.u(std::bit_cast<uint64_t>(x));
        return double(int64_t(h.h)) / 7;
    };
    for (size_t k = 0; k < in.size(); ++k) {
        std::vector<double> sub;
        for (size_t j : kids[k]) sub.push_back(answer[j]);
        answer[k] = combine(k, sub);
    }
    using G = std::function<Serie(const Serie &)>;
    df::utils::Memoized<G> *self = nullptr;
    size_t boom = in.size(), wipe = in.size();
    int depth = 0;
    auto memo = df::utils::memoize(G([&](const Serie &s) {
        const Key kk = key(model(s));
        VF_CHECK(at.count(kk), "other-input", "the function was given another input");
        const size_t k = at[kk];
        ++calls[k];
        if (depth++) c.event("nested"), c.nontrivial = true;
        struct Up { int &d; ~Up() { --d; } } up{depth};
        std::vector<double> sub;
        for (size_t j : kids[k]) {
            Serie x = (*self)(serie(in[j]));
            VF_CHECK(x.count() == 1 && x.itemSize() == 1 && same_bits(x.scalar(0), answer[j]), "wrong-answer", "a nested call gives " << show(x) << " instead of " << answer[j]);
            sub.push_back(x.scalar(0));
        }
        if (k == boom) throw std::runtime_error("boom");
        if (k == wipe) self->clear_cache(), wiped = fuzzy = true;
        return Serie(1, {combine(k, sub)});
    }));
    self = &memo;
    // what is called, from the property
    std::function<bool(size_t)> ask = [&](size_t k) -> bool {
        if (known[k]) return true;
        ++want[k];
        for (size_t j : kids[k]) if (!ask(j)) return false;
        if (k == boom) return false;
        known[k] = true;
        return true;
    };
    c.desc = std::to_string(in.size()) + " inputs";
    for (int st = int(r.range(3, 25)); st > 0; --st) {
        const size_t k = r.below(in.size());
        c.hash.u(k);
        boom = r.chance(0.15) ? r.below(k + 1) : in.size();
        wipe = boom == in.size() && r.chance(0.1) ? r.below(k + 1) : in.size();
        if (r.chance(fuzzy ? 0.4 : 0.05)) { memo.clear_cache(); std::fill(known.begin(), known.end(), false); fuzzy = false; }
        wiped = false;
        std::fill(calls.begin(), calls.end(), 0);
        std::fill(want.begin(), want.end(), 0);
        const bool was = known[k];
        bool ok = true;
        try {
            Serie s = memo(serie(in[k]));
            VF_CHECK(s.count() == 1 && s.itemSize() == 1 && same_bits(s.scalar(0), answer[k]), "wrong-answer", "a function that calls itself gives " << show(s) << " instead of " << answer[k]);
        } catch (const std::runtime_error &) {
            ok = false;
            VF_CHECK(boom < in.size() && calls[boom] > 0, "exception", "the call threw although the function did not");
            c.event("thrown");
        }
        VF_CHECK(depth == 0, "depth", "calls left open");
        if (wiped) c.event("cleared");
        if (!fuzzy) {
            if (was) c.event("hits");
            const bool good = ask(k);
            VF_CHECK(good == ok, "exception", "the call " << (ok ? "did not throw" : "threw"));
            for (size_t j = 0; j < in.size(); ++j)
                VF_CHECK(calls[j] == want[j], "called-again", "the function was called " << calls[j] << " times instead of " << want[j] << " for " << shape(in[j]) << " " << show(in[j].v) << " in a call for " << show(in[k].v));
        }
    }
}
VF_MAIN

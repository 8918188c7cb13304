// C01: Serie against a value model, over histories of operations on a pool.
#include "dfh.h"
using namespace dfh;

namespace {
void deep_check(Ctx &c, const Serie &s, const M &m, const std::string &where) {
    const std::string k = "model-mismatch";
    VF_CHECK(s.isValid() == (m.is > 0), k, where << ": isValid");
    VF_CHECK(s.count() == m.n && s.itemSize() == m.is && s.size() == m.n * m.is, k,
             where << ": layout " << show(s) << " expected " << shape(m));
    VF_CHECK(s.dimension() == m.dim, "dimension", where << ": dimension " << s.dimension() << " expected " << m.dim);
    VF_CHECK(identical(s.asArray(), m.v), k, where << ": values " << show(s.asArray()) << " expected " << show(m.v));
    uint32_t step = m.n > 64 ? m.n / 16 : 1;
    auto item = [&](uint32_t i) {
        Array e = m.item(i);
        VF_CHECK(identical(s.value(i), e), k, where << ": value(" << i << ")");
        VF_CHECK(identical(s.get<Array>(i), e), k, where << ": get<Array>(" << i << ")");
        VF_CHECK(identical(s.get(i), e), k, where << ": get(" << i << ")");
        c.event("reads", 3);
    };
    for (uint32_t i = 0; i < m.n; i += step) item(i);
    if (m.n) item(m.n - 1);
    size_t vs = m.v.size(), vstep = vs > 200 ? vs / 37 : 1;
    for (size_t i = 0; i < vs; i += vstep) {
        VF_CHECK(identical(Array{s.scalar(uint32_t(i))}, Array{m.v[i]}), k, where << ": scalar(" << i << ")");
        VF_CHECK(identical(Array{s.get<double>(uint32_t(i))}, Array{m.v[i]}), k, where << ": get<double>(" << i << ")");
        c.event("reads", 2);
    }
    // at and past the end
    Rng &r = c.rng;
    uint32_t far = uint32_t(r.range(0, 3));
    for (uint32_t i : {m.n, m.n + 1 + far, 0xffffffffu}) {
        VF_CHECK(throws([&] { s.value(i); }), "oob-accepted", where << ": value(" << i << ") accepted with count " << m.n);
        VF_CHECK(throws([&] { s.get<Array>(i); }), "oob-accepted", where << ": get<Array>(" << i << ") accepted with count " << m.n);
    }
    for (uint32_t i : {uint32_t(vs), uint32_t(vs) + 1 + far, 0xffffffffu}) {
        VF_CHECK(throws([&] { s.scalar(i); }), "oob-accepted", where << ": scalar(" << i << ") accepted with size " << vs);
        VF_CHECK(throws([&] { s.get<double>(i); }), "oob-accepted", where << ": get<double>(" << i << ") accepted with size " << vs);
    }
    c.event("refused_reads", 12);
}
struct Slot {
    Serie s;
    M m;
};
} // namespace

VF_DRIVER("history", 6000, 200000, "random histories of constructions, copies and writes on a pool of Series against a value model; non-trivial: the history writes to a Serie which was copied", {{"writes", 1000}, {"copies", 1000}, {"refused_writes", 500}, {"reads", 10000}}) {
    Rng &r = c.rng;
    std::vector<Slot> pool;
    bool wrote_copied = false;
    std::ostringstream log;
    auto make = [&]() -> Slot {
        uint32_t is = item_size(r);
        uint32_t n = count(r, std::max(40u, 3000 / is));
        unsigned d = dim(r);
        Kind k = any_kind(r);
        switch (r.below(7)) {
        case 0: {
            M m{is, n, d, Array(size_t(is) * n, 0.0)};
            return Slot{Serie(int(is), n, d), m};
        }
        case 1: {
            M m = gen(r, is, n, k, d);
            return Slot{Serie(int(is), m.v, d), m};
        }
        case 2: {
            M m = gen(r, is, n, k, d);
            return Slot{df::toSerie(is, m.v, d), m};
        }
        case 3: {
            M m{3, 2, d, {1.5, -2, 3, 4, 5, 6}};
            return Slot{Serie(3, {1.5, -2, 3, 4, 5, 6}, d), m};
        }
        case 4: {
            M m{is, n, 3, Array(size_t(is) * n, 0.0)};
            return Slot{Serie(int(is), n), m};
        }
        case 5: {
            M m = gen(r, is, n, k, 3);
            return Slot{df::toSerie(is, m.v), m};
        }
        default: {
            M m = gen(r, is, n, k, 3);
            return Slot{Serie(int(is), m.v), m};
        }
        }
    };
    size_t np = 2 + r.below(4);
    std::vector<int> copied(np, 0);
    for (size_t i = 0; i < np; ++i) pool.push_back(make());
    for (auto &p : pool) { deep_check(c, p.s, p.m, "constructed"); id(c, p.m); }
    int steps = int(r.range(5, 40));
    log << np << " series, first " << shape(pool[0].m) << ":";
    for (int st = 0; st < steps; ++st) {
        size_t a = r.below(np), b = r.below(np);
        uint64_t op = r.below(17);
        c.hash.u(op * 64 + a * 8 + b);
        std::string where;
        switch (op) {
        case 0: pool[a] = make(); copied[a] = 0; where = "assign-new"; break;
        case 1: pool[a].s = pool[b].s; pool[a].m = pool[b].m; copied[a] = copied[b] = 1; where = "assign"; c.event("copies"); break;
        case 2: { Serie t(pool[b].s); pool[a].s = t; pool[a].m = pool[b].m; copied[a] = copied[b] = 1; where = "copy-construct"; c.event("copies");
                  if (t.size()) { t.setScalar(0, 99.25); }  // the temporary copy must not leak into either
                  break; }
        case 3: { pool[a].s = pool[b].s.clone(); pool[a].m = pool[b].m; copied[a] = copied[b] = 1; where = "clone"; c.event("copies"); break; }
        case 4: { Serie &x = pool[a].s; x = *&pool[a].s; where = "self-assign"; break; }
        case 5: case 6: {  // setValue / set<Array>
            M &m = pool[a].m;
            uint32_t i = r.chance(0.8) && m.n ? uint32_t(r.below(m.n)) : m.n + uint32_t(r.below(3));
            uint32_t sz = r.chance(0.85) ? m.is : uint32_t(r.range(0, m.is + 2));
            Array v = values(r, sz, any_kind(r));
            bool bad = i >= m.n || sz != m.is;
            bool threw = op == 5 ? throws([&] { pool[a].s.setValue(i, v); }) : throws([&] { pool[a].s.set(i, v); });
            where = op == 5 ? "setValue" : "set<Array>";
            VF_CHECK(threw == bad, "write-refusal", where << "(" << i << ", item of size " << sz << ") on " << shape(m) << (threw ? " was refused" : " was accepted"));
            if (!bad) { std::copy(v.begin(), v.end(), m.v.begin() + size_t(i) * m.is); c.event("writes"); if (copied[a]) wrote_copied = true; }
            else c.event("refused_writes");
            break;
        }
        case 7: case 8: {  // setScalar / set<double>
            M &m = pool[a].m;
            uint32_t sz = uint32_t(m.v.size());
            uint32_t i = r.chance(0.8) && sz ? uint32_t(r.below(sz)) : sz + uint32_t(r.below(3));
            double v = value(r, any_kind(r));
            bool bad = i >= sz;
            bool threw = op == 7 ? throws([&] { pool[a].s.setScalar(i, v); }) : throws([&] { pool[a].s.set(i, v); });
            where = op == 7 ? "setScalar" : "set<double>";
            VF_CHECK(threw == bad, "write-refusal", where << "(" << i << ") on " << shape(m) << (threw ? " was refused" : " was accepted"));
            if (!bad) { m.v[i] = v; c.event("writes"); if (copied[a]) wrote_copied = true; }
            else c.event("refused_writes");
            break;
        }
        case 9: {
            uint32_t n = count(r, 200);
            pool[a].s.reCount(n);
            pool[a].m.n = n;
            pool[a].m.v.assign(size_t(n) * pool[a].m.is, 0.0);
            where = "reCount";
            c.event("writes");
            if (copied[a]) wrote_copied = true;
            break;
        }
        case 10: {
            M &m = pool[a].m;
            if (!m.v.empty()) {
                size_t i = r.below(m.v.size());
                double v = value(r, any_kind(r));
                pool[a].s.asArray()[i] = v;
                m.v[i] = v;
                c.event("writes");
                if (copied[a]) wrote_copied = true;
            }
            where = "asArray-write";
            break;
        }
        case 11: {  // an array handed in stays independent of the Serie
            M m = gen(r, 1 + uint32_t(r.below(6)), uint32_t(r.below(20)), any_kind(r), dim(r));
            Array src = m.v;
            Serie t(int(m.is), src, m.dim);
            for (double &x : src) x = -7;
            pool[a].s = t; pool[a].m = m; copied[a] = 0;
            where = "from-array";
            break;
        }
        case 12: {  // items read are copies
            M &m = pool[a].m;
            if (m.n) { Array x = pool[a].s.value(uint32_t(r.below(m.n))); for (double &y : x) y = 5; Array z = pool[a].s.get(0); for (double &y : z) y = 6; }
            where = "item-copy";
            break;
        }
        case 13: {  // through a vector of Series (copies on growth)
            Series v;
            for (size_t i = 0; i < np; ++i) { v.push_back(pool[i].s); c.event("copies"); }
            r.chance(0.5) ? v.erase(v.begin()) : v.insert(v.begin(), Serie(2, 3));
            size_t off = v.size() == np - 1 ? 1 : 0;
            for (size_t i = 0; i < np; ++i) {
                size_t j = off ? i - 1 : i + 1;
                if (off && i == 0) continue;
                deep_check(c, v[j], pool[i].m, "in a vector");
            }
            where = "vector";
            break;
        }
        case 14: {  // swap and move
            std::swap(pool[a], pool[b]);
            std::swap(copied[a], copied[b]);
            where = "swap";
            break;
        }
        case 15: {  // returned by value and chained assignment
            Serie t;
            t = pool[a].s = pool[b].s;
            pool[a].m = pool[b].m;
            copied[a] = copied[b] = 1;
            deep_check(c, t, pool[b].m, "chained");
            c.event("copies", 2);
            where = "chained";
            break;
        }
        default: {  // whole content through set, item by item, in random order
            M &m = pool[a].m;
            if (m.n == 0 || m.n > 60) { where = "skip"; break; }
            std::vector<uint32_t> o(m.n);
            for (uint32_t i = 0; i < m.n; ++i) o[i] = i;
            r.shuffle(o);
            Array nv = values(r, m.v.size(), any_kind(r));
            for (uint32_t i : o) {
                Array it(nv.begin() + size_t(i) * m.is, nv.begin() + size_t(i + 1) * m.is);
                if (m.is == 1 && r.chance(0.5)) pool[a].s.set(i, it[0]);
                else pool[a].s.set(i, it);
                c.event("writes");
            }
            m.v = nv;
            if (copied[a]) wrote_copied = true;
            where = "fill";
        }
        }
        if (st < 12) log << " " << where;
        // every member of the pool, not only the one touched, must match its model
        for (size_t i = 0; i < np; ++i) {
            const Serie &s = pool[i].s;
            const M &m = pool[i].m;
            VF_CHECK(s.count() == m.n && s.itemSize() == m.is && identical(s.asArray(), m.v), i == a || i == b ? "model-mismatch" : "aliasing",
                     "after " << where << " (step " << st << ") Serie " << i << " is " << show(s) << " expected " << shape(m) << " " << show(m.v));
            VF_CHECK(s.dimension() == m.dim, "dimension", "after " << where << " Serie " << i << " has dimension " << s.dimension() << " expected " << m.dim);
        }
        if (r.chance(0.2)) deep_check(c, pool[a].s, pool[a].m, "after " + where);
        c.event("steps");
    }
    for (auto &p : pool) deep_check(c, p.s, p.m, "at the end");
    c.nontrivial = wrote_copied;
    c.desc = log.str();
}

VF_DRIVER("construct", 3000, 60000, "every construction over itemSize 0..20, count 0..300 and values that do not fill the last item; non-trivial: at least one item", {{"constructions", 1000}}) {
    Huge huge_(0.004);
    Rng &r = c.rng;
    uint32_t is = size_between(r, 1, 20);
    uint32_t n = fewer(is, count(r, 300));
    unsigned d = dim(r);
    Array v = values(r, size_t(is) * n, any_kind(r));
    M m{is, n, d, v};
    id(c, m);
    c.desc = shape(m);
    deep_check(c, Serie(int(is), v, d), m, "Serie(itemSize, Array, dim)");
    deep_check(c, df::toSerie(is, v, d), m, "toSerie");
    deep_check(c, Serie(int(is), n, d), M{is, n, d, Array(v.size(), 0.0)}, "Serie(itemSize, count, dim)");
    Serie e;
    VF_CHECK(!e.isValid() && e.count() == 0 && e.size() == 0, "default", "default Serie is " << show(e));
    Serie z(0, v, d);
    VF_CHECK(!z.isValid() && z.count() == 0, "itemsize-0", "Serie(0, values) has count " << z.count());
    Serie z2(0, 0);
    VF_CHECK(!z2.isValid(), "itemsize-0", "Serie(0, 0) is valid");
    Serie il(2, {1, 2, 3, 4, 5, 6}, d);
    deep_check(c, il, M{2, 3, d, {1, 2, 3, 4, 5, 6}}, "initializer list");
    Serie i1(1, {v.empty() ? 3.0 : v[0]});
    VF_CHECK(i1.count() == 1, "model-mismatch", "one-value list");
    Array ca = createArray(n, 2.5);
    VF_CHECK(ca == Array(n, 2.5), "createArray", "createArray(" << n << ", 2.5)");
    c.event("constructions", 7);
    {  // its own values as the new item
        M o = gen(r, is, r.chance(0.8) ? 1 : uint32_t(r.range(2, 4)), any_kind(r), d);
        Serie s = o.serie();
        const Serie &cs = s;
        const uint32_t i = uint32_t(r.below(o.n));
        const bool bad = o.n != 1;
        const bool threw = r.chance(0.5) ? throws([&] { s.setValue(i, cs.asArray()); }) : throws([&] { s.set(i, cs.asArray()); });
        VF_CHECK(threw == bad, "write-refusal", "setting an item to the values of the Serie itself on " << shape(o) << (threw ? " was refused" : " was accepted"));
        const uint32_t a = uint32_t(r.below(o.v.size())), b = uint32_t(r.below(o.v.size()));
        s.set(a, s.asArray()[b]);
        o.v[a] = o.v[b];
        s.asArray()[b] = s.asArray()[a];
        deep_check(c, s, o, "written with its own values");
        c.event("own");
    }
}
VF_DRIVER("large", 2, 8, "a Serie of more than 2^24 numbers: items and numbers read and written at places all over it, its copies; non-trivial: always", {{"reads", 20000}}) {
    Rng &r = c.rng;
    const uint32_t is = c.index % 2 ? 1 : 3, n = ((1u << 24) + uint32_t(r.range(3, 999))) / is + 1;
    c.nontrivial = true;
    M m{is, n, dim(r), Array(size_t(n) * is)};
    for (size_t k = 0; k < m.v.size(); ++k) m.v[k] = double(k) + 0.25;
    c.hash.u(n);
    c.desc = shape(m);
    Serie s(int(is), m.v, m.dim), t(s);
    VF_CHECK(s.count() == n && s.size() == n * is, "large", "a Serie of " << m.v.size() << " numbers has " << s.count() << " items");
    auto place = [&](uint32_t top) { return r.chance(0.4) ? top - 1 - uint32_t(r.below(900)) : uint32_t(r.below(top)); };
    for (int step = 0; step < 6000; ++step) {
        const uint32_t i = place(n), k = place(n * is);
        const Array a = s.value(i), b = s.get<Array>(i);
        for (uint32_t j = 0; j < is; ++j) VF_CHECK(a[j] == m.v[size_t(i) * is + j] && b[j] == a[j], "large", "component " << j << " of item " << i << " is " << a[j] << " and " << b[j]);
        VF_CHECK(s.scalar(k) == m.v[k] && s.get<double>(k) == m.v[k], "large", "number " << k << " is " << s.scalar(k) << " and " << s.get<double>(k));
        if (r.chance(0.3)) { m.v[k] = -double(step); if (r.chance(0.5)) s.setScalar(k, m.v[k]); else s.set(k, m.v[k]); }
        if (r.chance(0.3)) {
            Array w(is);
            for (double &x : w) x = r.uni(0, 1);
            if (r.chance(0.5)) s.setValue(i, w); else s.set(i, w);
            std::copy(w.begin(), w.end(), m.v.begin() + long(i) * is);
        }
        c.event("reads", 4);
    }
    check_unchanged(s, m, "large");
    for (size_t k = 0; k < m.v.size(); ++k) if (t.asArray()[k] != double(k) + 0.25) vf::fail("large", "a write to a Serie reaches its copy at " + std::to_string(k));
    t = s;
    check_unchanged(t, m, "large");
}
VF_MAIN

// C27: the space dimension of a Serie survives operations.
#include "ops.h"
using namespace ops;

namespace {
void check_dim(const Op &op, const Res &r, unsigned d, const Args &a) {
    for (size_t i = 0; i < r.s.size(); ++i)
        VF_CHECK(r.s[i].dimension() == d, "dimension-" + op.name, op.name << ": Serie " << i << " of the result has dimension " << r.s[i].dimension() << " instead of " << d << "; arguments " << show(a));
}
} // namespace

VF_DRIVER("operations", 10000, 200000, "every operation that derives Series from a Serie, on suitable arguments of dimension 2 and 3; non-trivial: at least one item", {{"series_2", 4000}, {"series_3", 4000}, {"operations", 10000}}) {
    Huge huge_(0.0008);
    static const std::vector<const Op *> list = [] { std::vector<const Op *> v; for (auto &o : all()) if (o.flags & DIM) v.push_back(&o); return v; }();
    Rng &r = c.rng;
    const Op &op = *list[c.index % list.size()];
    vf::note(op.name);
    Args a = op.make(r, 300);
    id(c, a);
    c.hash.s(op.name);
    for (auto &s : a.s) if (s.count()) c.nontrivial = true;
    c.desc = op.name + " " + show(a);
    unsigned d = a.s[0].dimension();
    Res x = op.call(a);
    check_dim(op, x, d, a);
    // the same values in the other dimension, where the shape allows it
    Args b = a;
    for (auto &s : b.s) s = Serie(int(s.itemSize()), s.asArray(), 5 - d);
    if (op.suit(b) == ACCEPT) check_dim(op, op.call(b), 5 - d, b);
    c.event(d == 2 ? "series_2" : "series_3", x.s.size());
    c.event("operations");
}

VF_DRIVER("chains", 5000, 100000, "random chains of 2 to 12 operations, each applied to results of the previous ones and compared with the same call on freshly built Series; non-trivial: at least 3 operations ran", {{"steps", 15000}, {"dim2", 7000}, {"dim3", 7000}}) {
    static const std::vector<const Op *> list = [] { std::vector<const Op *> v; for (auto &o : all()) if ((o.flags & DIM) && !(o.flags & THREADS)) v.push_back(&o); return v; }();
    Rng &r = c.rng;
    unsigned d = dim(r);
    uint32_t n = count1(r, 60);
    Series pool;
    for (uint32_t is : {1u, d, d == 2 ? 3u : 6u, d == 2 ? 4u : 9u}) pool.push_back(any(r, is, n, d));
    for (auto &s : pool) { c.hash.a(s.asArray()); c.hash.u(s.dimension()); }
    int steps = int(r.range(2, 12)), ran = 0;
    for (int t = 0; t < steps; ++t) {
        const Op *op = nullptr;
        Args a;
        for (int tries = 0; tries < 40 && !op; ++tries) {
            const Op *o = list[r.below(list.size())];
            Args b = o->make(r, 4);
            for (auto &s : b.s) s = r.pick(pool);
            if (r.chance(0.5)) for (auto &s : b.s) s = b.s[0];
            if (o->name == "unzip") { b.u.clear(); for (uint32_t left = b.s[0].itemSize(); left;) { uint32_t k = uint32_t(r.range(1, left)); b.u.push_back(k); left -= k; } }
            if (o->name == "scale" || o->name == "dot-array") b.a.assign(b.s[0].itemSize(), 1.25);
            bool finite = true;
            for (auto &s : b.s) for (double v : s.asArray()) if (!(std::fabs(v) < 1e100)) finite = false;
            if (finite && o->suit(b) == ACCEPT) { op = o; a = b; }
        }
        if (!op) break;
        vf::note(op->name);
        c.hash.s(op->name);
        Res x = op->call(a);
        check_dim(*op, x, d, a);
        Args fresh = a;
        for (auto &s : fresh.s) s = Serie(int(s.itemSize()), Array(s.asArray()), d);
        VF_CHECK(same(op->call(fresh), x), "chain-" + op->name, op->name << " on the result of other operations differs from the same call on freshly built Series: " << show(a));
        for (auto &s : x.s)
            if (s.isValid() && s.count() && s.itemSize() <= 12 && s.count() <= 200) { if (pool.size() < 12) pool.push_back(s); else pool[r.below(pool.size())] = s; }
        ++ran;
        c.desc += op->name + " ";
    }
    c.nontrivial = ran >= 3;
    c.event("steps", ran);
    c.event(d == 2 ? "dim2" : "dim3", ran);
}

VF_DRIVER("containers", 3000, 60000, "Series of both dimensions stored in a Dataframe, taken back, asked of a Manager, copied and resized; non-trivial: at least one item", {{"stored", 6000}, {"listed", 10000}}) {
    Rng &r = c.rng;
    unsigned d = dim(r);
    uint32_t n = count1(r, 40);
    df::Dataframe D;
    std::map<std::string, M> w;
    for (int i = int(r.range(1, 5)); i > 0; --i) {
        static const uint32_t sizes[] = {1, 2, 3, 4, 6, 9, 5};
        M m = gen(r, sizes[r.below(7)], n, tame_kind(r), r.chance(0.8) ? d : 5 - d);
        std::string name = "s" + std::to_string(i);
        dfh::id(c, m);
        w[name] = m;
        switch (r.below(3)) { case 0: D.add(name, m.serie()); break; case 1: D.set(name, m.serie()); break; default: D[name] = m.serie(); }
    }
    c.desc = std::to_string(w.size()) + " Series of dimension " + std::to_string(d);
    const df::Dataframe K(D);
    df::Dataframe A;
    A = K;
    for (auto &[name, m] : w) {
        VF_CHECK(K[name].dimension() == m.dim && K.get(name).dimension() == m.dim && D[name].dimension() == m.dim && D.get(name).dimension() == m.dim && A[name].dimension() == m.dim, "dataframe", "a Serie of dimension " << m.dim << " comes back from the Dataframe with another one");
        c.event("stored");
    }
    df::Manager mng(K, {}, d);
    mng.add(new df::Components());
    mng.add(new df::EigenValues());
    mng.add(new df::EigenVectors());
    for (auto &[name, m] : w) VF_CHECK(mng.serie(m.is, name).dimension() == m.dim, "manager-stored", "the Manager gives a Serie of dimension " << m.dim << " another one");
    for (uint32_t is = 1; is <= 3; ++is)
        for (auto &name : mng.names(is)) {
            // every name starts with the one of its source
            const M *src = nullptr;
            for (auto &[k, m] : w) if (name.compare(0, k.size(), k) == 0) src = &m;
            if (!src) continue;
            Serie s = mng.serie(is, name);
            VF_CHECK(s.isValid() && s.dimension() == src->dim, "manager-derived", name << " of itemSize " << is << " has dimension " << s.dimension() << " instead of " << src->dim);
            c.event("listed");
        }
    // writes keep it
    auto &[name, m] = *w.begin();
    D[name].reCount(n + 3);
    VF_CHECK(D[name].dimension() == m.dim, "reCount", "reCount changes the dimension");
    A.setCount(n + 5);
    VF_CHECK(A[name].dimension() == m.dim, "setCount", "setCount changes the dimension");
    const uint32_t k = r.chance(0.3) ? 0 : r.chance(0.3) ? n : count(r, 300);
    D[name].reCount(k);
    VF_CHECK(D[name].dimension() == m.dim, "reCount", "reCount to " << k << " items changes the dimension");
    const Serie none = D[name];
    VF_CHECK(none.dimension() == m.dim && none.clone().dimension() == m.dim, "copy", "a copy of a Serie of " << k << " items has another dimension");
    Serie back(7, 3, 5 - m.dim);
    back = none;
    VF_CHECK(back.dimension() == m.dim, "assign", "assigning a Serie of " << k << " items does not take its dimension");
    back.reCount(n);
    VF_CHECK(back.dimension() == m.dim, "reCount", "reCount from " << k << " to " << n << " items changes the dimension");
    back = back.clone();
    VF_CHECK(back.dimension() == m.dim, "assign", "assigning its clone changes the dimension");
    Serie s = m.serie();
    for (double &v : s.asArray()) v += 1;
    s.setScalar(0, 2);
    s.setValue(0, Array(m.is, 1.0));
    VF_CHECK(s.dimension() == m.dim && s.clone().dimension() == m.dim, "write", "a write changes the dimension");
}
VF_MAIN

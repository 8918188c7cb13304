// C16: a Dataframe behaves as a map from names to Series.
#include "dfh.h"
#include <dataframe/utils/nameOfSerie.h>
#include <memory>
using namespace dfh;

namespace {
using Model = std::map<std::string, M>;
const std::vector<std::string> NAMES = {"U", "V", "S", "positions", "indices", "", "a", "ab", "A", "x y", "very long name of a property, longer than sixteen bytes", "\xc3\xa9", "U0", "0", "Ux",
    std::string(70, 'x'), std::string(70, 'x') + "y", std::string(69, 'x') + "y", std::string(300, 'q'), std::string(300, 'q') + "a", std::string("U\0V", 3), std::string("U\0W", 3)};

void check_entry(const Serie &s, const M &m, const std::string &name, const char *via) {
    VF_CHECK(s.itemSize() == m.is && s.count() == m.n && s.dimension() == m.dim && identical(s.asArray(), m.v), "content",
             via << "(\"" << name << "\") is " << show(s) << " dim " << s.dimension() << ", expected itemSize " << m.is << " count " << m.n << " dim " << m.dim << " " << show(m.v));
}
void check_all(Ctx &c, const df::Dataframe &d, const Model &w, const Serie &stranger) {
    VF_CHECK(d.series().size() == w.size(), "names", "the Dataframe has " << d.series().size() << " entries, expected " << w.size());
    auto it = d.series().begin();
    for (auto &[name, m] : w) {
        VF_CHECK(it->first == name, "names", "entry \"" << it->first << "\" instead of \"" << name << "\"");
        check_entry(it->second, m, name, "series");
        check_entry(d[name], m, name, "operator[]");
        check_entry(d.get(name), m, name, "get");
        VF_CHECK(&d[name] == &it->second && &d.get(name) == &it->second, "identity", "reading \"" << name << "\" gives another object than series()");
        VF_CHECK(d.contains(name), "contains", "contains(\"" << name << "\") is false");
        VF_CHECK(d.contains(d[name]), "contains-serie", "contains of the Serie \"" << name << "\" is false");
        VF_CHECK(df::nameOfSerie(d, d[name]) == name, "nameOfSerie", "nameOfSerie of \"" << name << "\" is \"" << df::nameOfSerie(d, d[name]) << "\"");
        ++it;
        c.event("entries");
    }
    for (auto &name : NAMES)
        if (!w.count(name)) {
            VF_CHECK(!d.contains(name), "contains", "contains(\"" << name << "\") is true");
            VF_CHECK(!d[name].isValid() && d[name].count() == 0 && !d.get(name).isValid(), "missing", "reading the missing \"" << name << "\" gives " << show(d[name]));
            c.event("missing");
        }
    VF_CHECK(!d.contains(stranger) && df::nameOfSerie(d, stranger).empty(), "stranger", "a Serie of nobody is contained");
    VF_CHECK(d.series().size() == w.size(), "reading-adds", "reading added entries");
}
M some(Rng &r, uint32_t n) {
    M m = gen(r, r.chance(0.05) ? 0 : item_size(r), n, any_kind(r), dim(r));
    if (m.is == 0) m = M{0, 0, 3, {}};
    return m;
}
Serie serie_of(const M &m) { return m.is ? m.serie() : Serie(); }
} // namespace

VF_DRIVER("history", 2500, 60000, "random sequences of operations on a Dataframe, compared with a map after each; non-trivial: at least three operations", {{"entries", 38000}, {"missing", 100000}, {"operations", 14000}, {"setCount", 800}, {"copies", 800}, {"writes", 1200}, {"held", 500}}) {
    Rng &r = c.rng;
    Serie stranger(3, Array{1.5, 2.5, 3.5});
    uint32_t k0 = r.chance(0.5) ? 0 : count1(r, 100), base = count1(r, 60);
    auto d = std::make_unique<df::Dataframe>(k0);
    Model w;
    int64_t homog = k0;      // count shared by everything so far (0: none yet), -1: mixed
    auto put = [&](const std::string &name, const M &m) {
        w[name] = m;
        if (homog == 0) homog = m.n ? int64_t(m.n) : homog;
        else if (homog > 0 && homog != int64_t(m.n)) homog = -1;
        if (homog == 0 && m.n == 0) homog = -1;
    };
    size_t steps = size_t(r.range(1, 14));
    c.nontrivial = steps >= 3;
    c.hash.u(k0);
    std::string trace;
    bool mixed_counts = r.chance(0.3);
    for (size_t i = 0; i < steps; ++i) {
        std::string name = NAMES[r.below(r.chance(0.7) ? 6 : NAMES.size())];
        uint32_t n = mixed_counts ? count(r, 60) : base;
        int op = int(r.below(12));
        c.hash.u(op);
        c.hash.s(name);
        c.event("operations");
        switch (op) {
        case 0: case 1: case 2: {
            M m = some(r, n);
            c.hash.a(m.v);
            {
                Serie s = serie_of(m);
                if (op == 0) d->set(name, s); else d->add(name, s);
                check_entry(s, m, name, "after add, the Serie");
                // the Dataframe has its own copy
                for (double &x : s.asArray()) x = 12345;
                if (s.isValid()) s.reCount(s.count() + 3);
            }
            put(name, m);
            trace += " add(" + name + ")";
            break;
        }
        case 3: {
            uint32_t is = item_size(r);
            d->create(name, is, n);
            put(name, M{is, n, 3, Array(size_t(is) * n, 0)});
            trace += " create(" + name + ")";
            break;
        }
        case 4: {
            d->del(name);
            w.erase(name);
            trace += " del(" + name + ")";
            break;
        }
        case 5:
            if (r.chance(0.3)) {
                d->clear();
                w.clear();
                trace += " clear";
                if (homog > 0) homog = homog;  // the count of the Dataframe remains
            }
            break;
        case 6: {  // assign through operator[] or get
            M m = some(r, n);
            if (r.chance(0.5)) (*d)[name] = serie_of(m); else d->get(name) = serie_of(m);
            w[name] = m;
            homog = -1;  // the count of the Dataframe does not know
            c.event("writes");
            trace += " d[" + name + "]=";
            break;
        }
        case 7: {  // write values in place
            if (!w.count(name) || w[name].v.empty()) break;
            M &m = w[name];
            size_t k = r.below(m.v.size());
            double x = value(r, K_SPECIAL);
            int how = int(r.below(3));
            if (how == 0) { (*d)[name].asArray()[k] = x; m.v[k] = x; }
            else if (how == 1) { d->get(name).setScalar(uint32_t(k), x); m.v[k] = x; }
            else {
                uint32_t it = uint32_t(r.below(m.n));
                Array a = values(r, m.is, K_UNI);
                (*d)[name].setValue(it, a);
                std::copy(a.begin(), a.end(), m.v.begin() + size_t(it) * m.is);
            }
            c.event("writes");
            trace += " write(" + name + ")";
            break;
        }
        case 8: {  // non-const reading of a missing name gives an invalid Serie, and makes the entry
            bool had = w.count(name);
            Serie &s = r.chance(0.5) ? (*d)[name] : d->get(name);
            if (!had) {
                VF_CHECK(!s.isValid() && s.count() == 0, "new-entry", "a new entry is " << show(s));
                w[name] = M{0, 0, 3, {}};
                homog = -1;
            }
            check_entry(s, w[name], name, "operator[]");
            break;
        }
        case 9: {  // setCount
            uint32_t k = r.chance(0.4) ? base : r.chance(0.15) ? 0 : count1(r, 80);
            Model zeroed = w;
            for (auto &[nm, m] : zeroed) { m.n = k; std::fill(m.v.begin(), m.v.end(), 0); m.v.assign(size_t(m.is) * k, 0); }
            d->setCount(k);
            c.event("setCount");
            trace += " setCount(" + std::to_string(k) + ")";
            bool keeps = k == 0 || (homog >= 0 && int64_t(k) == homog), must = homog >= 0 && k > 0 && int64_t(k) != homog;
            if (!keeps && !must) {  // counts were mixed: either nothing happens, or all become k
                bool same = true, zero = true;
                for (auto &[nm, s] : d->series()) {
                    if (!w.count(nm)) vf::fail("names", "setCount added \"" + nm + "\"");
                    same = same && s.count() == w[nm].n && identical(s.asArray(), w[nm].v);
                    zero = zero && s.count() == k && identical(s.asArray(), zeroed[nm].v);
                }
                VF_CHECK(same || zero, "setCount", "setCount(" << k << ") neither kept the Series nor gave all of them this count");
                must = zero && !same;
            }
            if (must) w = zeroed;
            // after it, the count is known again
            if (must) homog = k;
            break;
        }
        case 10: {  // a copy is independent
            df::Dataframe e(*d);
            check_all(c, e, w, stranger);
            df::Dataframe f;
            f.add("other", Serie(1, Array{1}));
            f = *d;
            check_all(c, f, w, stranger);
            e.add("zz", Serie(1, Array{1, 2}));
            for (auto &[nm, m] : w) {
                for (double &x : e[nm].asArray()) x = 777;
                f.del(nm);
            }
            e.setCount(99);
            if (r.chance(0.5)) {  // go on with a copy, the original dies
                auto g = std::make_unique<df::Dataframe>(*d);
                d = std::move(g);
            }
            c.event("copies");
            trace += " copy";
            break;
        }
        default: {  // a reference held across other additions and deletions writes the same entry
            if (w.empty()) break;
            auto it = w.begin();
            std::advance(it, r.below(w.size()));
            Serie &s = d->get(it->first);
            std::string own = it->first;
            for (int q = 0; q < 5; ++q) {
                std::string other = NAMES[r.below(NAMES.size())];
                if (other == own) continue;
                if (r.chance(0.5)) {
                    M m = some(r, n);
                    d->add(other, serie_of(m));
                    put(other, m);
                } else {
                    d->del(other);
                    w.erase(other);
                }
            }
            M &m = w[own];
            if (!m.v.empty()) {
                s.asArray()[0] = 4.25;
                m.v[0] = 4.25;
            }
            check_entry(s, m, own, "a held reference to ");
            c.event("held");
            trace += " held(" + own + ")";
        }
        }
        check_all(c, *d, w, stranger);
    }
    c.desc = "count " + std::to_string(k0) + ":" + trace;
}

VF_DRIVER("aliasing", 1500, 20000, "adding a Serie of the Dataframe itself under other names, replacing a Serie by itself; non-trivial: always", {{"aliases", 4000}}) {
    Rng &r = c.rng;
    df::Dataframe d;
    M m = gen(r, item_size(r), count1(r, 200), any_kind(r), dim(r));
    id(c, m);
    c.nontrivial = true;
    c.desc = shape(m);
    d.add("a", m.serie());
    d.add("a", d["a"]);
    d.set("b", d["a"]);
    d.add("c", d.get("b"));
    d["a"] = d["a"];
    d.add("missing", static_cast<const df::Dataframe &>(d)["nothing"]);
    const df::Dataframe &cd = d;
    for (auto n : {"a", "b", "c"}) {
        check_entry(cd[n], m, n, "operator[]");
        VF_CHECK(df::nameOfSerie(d, cd[n]) == n && d.contains(cd[n]), "nameOfSerie", "equal Series are mixed up: " << df::nameOfSerie(d, cd[n]) << " for " << n);
        c.event("aliases");
    }
    VF_CHECK(cd.contains("missing") && !cd["missing"].isValid(), "missing", "an invalid Serie cannot be stored");
    VF_CHECK(!cd["nothing"].isValid() && cd["nothing"].count() == 0 && cd["nothing"].asArray().empty(), "missing", "the missing Serie is " << show(cd["nothing"]));
    M b = m;
    b.v[0] = 0.125;
    d["b"].asArray()[0] = 0.125;
    check_entry(cd["a"], m, "a", "operator[]");
    check_entry(cd["b"], b, "b", "operator[]");
    check_entry(cd["c"], m, "c", "operator[]");
    d.del("a");
    check_entry(cd["b"], b, "b", "operator[]");
    VF_CHECK(!cd.contains("a") && d.series().size() == 3, "del", "del did not delete exactly \"a\"");
}

namespace {
std::string any_name(Rng &r) {
    static const char alpha[] = "abAB019 _-./\0\t\n\xc3\xa9\xff";
    if (r.chance(0.15)) return NAMES[r.below(NAMES.size())];
    if (r.chance(0.3)) return "s" + std::to_string(r.below(300));
    std::string n;
    for (size_t k = r.chance(0.05) ? size_t(r.range(20, 400)) : r.below(7); k > 0; --k) n += alpha[r.below(sizeof alpha - 1)];
    return n;
}
} // namespace

VF_DRIVER("many", 250, 6000, "Dataframes of up to 700 Series under random names, histories of up to 900 additions, deletions, writes, copies and readings; non-trivial: at least 10 entries", {{"operations", 50000}, {"entries", 10000}, {"deleted", 4000}, {"large", 5}}) {
    Rng &r = c.rng;
    df::Dataframe d;
    Model w;
    const uint32_t n = uint32_t(r.range(1, 6));
    const int steps = int(r.range(50, 900));
    const double del = r.chance(0.5) ? 0.1 : 0.35;
    Strings used;
    Serie stranger(1, Array{7});
    for (int st = 0; st < steps; ++st) {
        c.event("operations");
        const std::string name = used.size() && r.chance(0.5) ? used[r.below(used.size())] : any_name(r);
        c.hash.s(name);
        if (r.chance(del)) {
            d.del(name);
            c.event("deleted", w.erase(name));
        } else if (r.chance(0.1) && w.count(name) && w[name].v.size()) {
            M &m = w[name];
            const size_t k = r.below(m.v.size());
            m.v[k] = value(r, K_UNI);
            d[name].setScalar(uint32_t(k), m.v[k]);
        } else if (r.chance(0.02)) {
            df::Dataframe e(d);
            d = e;
            e.clear();
        } else {
            M m = gen(r, uint32_t(r.range(1, 4)), n, K_UNI, dim(r));
            if (r.chance(0.001)) { m = gen(r, 1, uint32_t(r.range(65530, 70000)), K_UNI); c.event("large"); }
            if (r.chance(0.5)) d.add(name, m.serie()); else if (r.chance(0.5)) d.set(name, m.serie()); else d[name] = m.serie();
            w[name] = m;
            used.push_back(name);
        }
        const df::Dataframe &k = d;
        VF_CHECK(k.contains(name) == bool(w.count(name)), "contains", "contains(\"" << name << "\") is " << k.contains(name) << " in step " << st);
        if (w.count(name)) check_entry(r.chance(0.5) ? k[name] : k.get(name), w[name], name, "operator[]");
        else VF_CHECK(!k[name].isValid() && !k.get(name).isValid(), "missing", "reading the missing \"" << name << "\" gives " << show(k[name]));
        VF_CHECK(d.series().size() == w.size(), "names", "the Dataframe has " << d.series().size() << " entries, expected " << w.size());
    }
    c.nontrivial = w.size() >= 10;
    c.desc = std::to_string(w.size()) + " entries after " + std::to_string(steps) + " steps";
    check_all(c, d, w, stranger);
    const df::Dataframe e(d);
    check_all(c, e, w, stranger);
    if (w.size()) {
        const uint32_t k = uint32_t(r.range(7, 20));
        d.setCount(k);
        bool same = true, zero = true;
        for (auto &[name, s] : d.series()) {
            same = same && s.count() == w[name].n;
            zero = zero && s.count() == k && s.asArray() == Array(size_t(k) * w[name].is, 0.0) && s.itemSize() == w[name].is;
        }
        VF_CHECK(same || zero, "setCount", "setCount(" << k << ") neither kept the Series nor gave all of them this count");
        check_all(c, e, w, stranger);
    }
}
VF_MAIN

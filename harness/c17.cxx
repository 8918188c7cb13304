// C17: a Manager resolves every name it lists, and owns its decomposers.
#include "mgr.h"
#include <dataframe/functional/algebra/eigen.h>
#include <memory>
using namespace dfh;

namespace {
std::map<int, int> alive;  // decomposer id -> number of living instances
std::map<int, int> deaths;
int next_id = 0;
// Real decomposers, counted
template <class D> struct Counted : D {
    int my;
    template <class... A> explicit Counted(A &&...a) : D(std::forward<A>(a)...), my(next_id++) { ++alive[my]; }
    Counted(const Counted &o) : D(o), my(o.my) { ++alive[my]; }
    ~Counted() override {
        --alive[my];
        ++deaths[my];
    }
};
// Provides a fixed Serie under a name
struct Fixed : df::Decomposer {
    uint32_t is;
    String name;
    M m;
    bool lists;
    Fixed(uint32_t is, const String &n, const M &m, bool lists = true) : is(is), name(n), m(m), lists(lists) {}
    Strings names(const df::Dataframe &, uint32_t s, const Serie &, const String &) const override { return lists && s == is ? Strings{name} : Strings(); }
    Serie serie(const df::Dataframe &, uint32_t s, const String &n) const override { return s == is && n == name ? m.serie() : Serie(); }
};
enum What { COMP, COORD, EVAL, EVEC, NORM, AREA, VAL, FIXED, USER, NWHAT };
struct Spec {
    What what;
    String name;
    uint32_t is = 1;
    M m;
    df::Decomposer *made = nullptr;
    int my = -1;
};
struct UserFn {
    String source;
    Serie operator()(const df::Dataframe &d) const { return d.contains(source) ? d[source] : Serie(); }
};
df::Decomposer *make(Spec &s) {
    s.my = next_id;
    switch (s.what) {
    case COMP: return s.made = new Counted<df::Components>();
    case COORD: return s.made = new Counted<df::Coordinates>(Strings{"cx", "cy", "cz"});
    case EVAL: return s.made = new Counted<df::EigenValues>();
    case EVEC: return s.made = new Counted<df::EigenVectors>();
    case NORM: return s.made = new Counted<df::Normals>(s.name);
    case AREA: return s.made = new Counted<df::Area>(s.name);
    case VAL: return s.made = new Counted<df::Valence>(s.name);
    case FIXED: return s.made = new Counted<Fixed>(s.is, s.name, s.m);
    default: return s.made = new Counted<df::UserDefinedDecomposer<UserFn>>(s.is, s.name, UserFn{"V"});
    }
}
// name -> count of its source, of everything the documentation says is available
std::map<String, std::set<uint32_t>> expected(const Model &w, const std::vector<Spec> &ds, uint32_t is, unsigned dim) {
    std::map<String, std::set<uint32_t>> o;
    for (auto &[n, m] : w) {
        if (m.is == is && m.dim == dim && attribute(n)) o[n].insert(m.n);
        for (auto &s : ds) {
            switch (s.what) {
            case COMP:
                if (is == 1 && attribute(n) && m.is != 1)
                    for (auto &e : component_suffixes(m.is, m.dim)) o[n + e].insert(m.n);
                break;
            case COORD:
                if (is == 1 && n == "positions")
                    for (uint32_t k = 0; k < std::min<uint32_t>(3, m.is); ++k) o[Strings{"cx", "cy", "cz"}[k]].insert(m.n);
                break;
            case EVAL:
            case EVEC:
                if (attribute(n) && ((m.dim == 2 && m.is == 3) || (m.dim == 3 && m.is == 6)) && is == (s.what == EVAL ? 1 : m.dim))
                    for (uint32_t k = 1; k <= m.dim; ++k) o[n + std::to_string(k)].insert(m.n);
                break;
            case NORM:
                if (is == 3 && is_mesh(w)) o[s.name].insert(w.at("indices").n);
                break;
            case AREA:
                if (is == 1 && is_mesh(w)) o[s.name].insert(w.at("indices").n);
                break;
            case VAL:
                if (is == 1 && is_mesh(w)) o[s.name].insert(w.at("positions").n);
                break;
            case FIXED:
                if (is == s.is) o[s.name].insert(s.m.n);
                break;
            default:
                if (is == s.is && w.count("V")) o[s.name].insert(w.at("V").n);
            }
        }
    }
    return o;
}
bool same_serie(const Serie &a, const Serie &b) {
    return a.itemSize() == b.itemSize() && a.count() == b.count() && a.dimension() == b.dimension() && a.isValid() == b.isValid() &&
           identical(a.asArray(), b.asArray());
}
void check_manager(Ctx &c, const df::Manager &mng, const df::Dataframe &d, const Model &w, const std::vector<Spec> &ds, unsigned dim) {
    VF_CHECK(mng.nbDecomposers() == ds.size(), "nbDecomposers", "nbDecomposers is " << mng.nbDecomposers() << " instead of " << ds.size());
    for (uint32_t is : {1u, 2u, 3u, 4u, 5u, 6u, 9u}) {
        Strings got = mng.names(is);
        VF_CHECK(std::is_sorted(got.begin(), got.end()), "names-sorted", "names(" << is << ") is not sorted");
        VF_CHECK(std::adjacent_find(got.begin(), got.end()) == got.end(), "names-duplicate", "names(" << is << ") has duplicates");
        auto want = expected(w, ds, is, dim);
        for (auto &n : got) VF_CHECK(want.count(n), "names", "names(" << is << ") lists \"" << n << "\"");
        for (auto [n, counts] : want) {
            VF_CHECK(std::binary_search(got.begin(), got.end(), n), "names", "names(" << is << ") does not list \"" << n << "\"");
            VF_CHECK(mng.contains(is, n), "contains", "contains(" << is << ", \"" << n << "\") is false");
            Serie s = mng.serie(is, n);
            if (w.count(n) && w.at(n).is == is) counts.insert(w.at(n).n);  // of another dimension, but first
            VF_CHECK(s.isValid() && s.itemSize() == is, "unresolved", "serie(" << is << ", \"" << n << "\") gives " << show(s));
            VF_CHECK(counts.count(s.count()) && s.asArray().size() == size_t(is) * s.count(), "count", "serie(" << is << ", \"" << n << "\") has " << s.count() << " items");
            // precedence: a stored Serie, then the first decomposer that provides it
            auto it = w.find(n);
            if (it != w.end() && it->second.is == is) {
                VF_CHECK(same_serie(s, it->second.serie()), "stored", "the stored \"" << n << "\" came back as " << show(s));
                c.event("stored");
            } else {
                Serie first;
                for (auto &x : ds) {
                    first = x.made->serie(d, is, n);
                    if (first.isValid()) break;
                }
                VF_CHECK(same_serie(s, first), "precedence", "serie(" << is << ", \"" << n << "\") is not the one of the first decomposer that provides it");
                c.event("decomposed");
            }
            // what it gives is a copy
            if (!s.asArray().empty()) s.asArray()[0] += 1;
        }
        for (auto n : {"no such name", "U_", "?", ""}) {
            if (want.count(n) || w.count(n)) continue;
            VF_CHECK(!mng.contains(is, n), "contains", "contains(" << is << ", \"" << n << "\") is true");
            VF_CHECK(!mng.serie(is, n).isValid(), "unknown", "serie(" << is << ", \"" << n << "\") is valid");
            c.event("unknown");
        }
        c.event("listings");
    }
    VF_CHECK(d.series().size() == w.size(), "dataframe-changed", "asking a Manager changed its Dataframe");
    for (auto &[n, m] : w) check_unchanged(d.series().at(n), m, "dataframe-changed", n);
}
M attr(Rng &r, uint32_t n) {
    static const uint32_t sizes[] = {1, 1, 2, 3, 3, 4, 6, 6, 9, 5};
    return gen(r, sizes[r.below(10)], n, K_UNI, dim(r));
}
} // namespace

VF_DRIVER("resolution", 2500, 50000, "random Dataframes and lists of decomposers, with changes between the requests; non-trivial: at least one decomposer and one Serie", {{"listings", 20000}, {"stored", 3000}, {"decomposed", 20000}, {"unknown", 30000}, {"changes", 3000}, {"destroyed", 4000}, {"odd_names", 800}}) {
    Rng &r = c.rng;
    Model w;
    df::Dataframe d;
    uint32_t n = uint32_t(r.range(1, 12));
    unsigned mdim = dim(r);
    std::vector<std::string> names = {"U", "V", "S", "a", "Ux", "S1", "Sx", "area", "fix", "cx"};
    if (r.chance(0.5)) {  // also names which resemble others
        static const std::vector<std::string> odd = {"positions0", "positions ", "position", "Positions", "apositions", "indices1", "indice", "Indices", "u", "UU", "xU", "x", "1", "0", "-", "S11", "Uxy", "U x", "a.b", "a/b", "d\xc3\xa9placement", "\xff\x01", "[U]", "U*", "positionsx", "indicesx"};
        for (int i = int(r.range(1, 5)); i > 0; --i) names.push_back(r.pick(odd));
        if (r.chance(0.3)) names.push_back(std::string(size_t(r.range(20, 400)), 'n'));
        if (r.chance(0.3)) names.push_back(names[0] + std::string(size_t(r.range(1, 60)), 'U'));
        c.event("odd_names");
    }
    if (r.chance(0.6)) mesh(r, w, n, uint32_t(r.range(1, 12)));
    size_t k = r.chance(0.05) ? 5 + r.below(30) : r.below(names.size() > 10 ? 9 : 5);
    if (k > 12) for (size_t i = 0; i < k; ++i) names.push_back("m" + std::to_string(i));
    for (size_t i = 0; i < k; ++i) w[names[r.below(names.size())]] = attr(r, n);
    for (auto &[nm, m] : w) d.add(nm, m.serie());
    std::vector<Spec> ds;
    std::set<int> used;
    auto spec = [&] {
        Spec s{What(r.below(NWHAT))};
        s.name = s.what == NORM ? "normals" : s.what == AREA ? (r.chance(0.5) ? "area" : "surface") : s.what == VAL ? "val" : s.what == FIXED ? (r.chance(0.3) ? "S1" : r.chance(0.3) ? "Ux" : "fix") : "user";
        s.is = s.what == FIXED ? 1 : uint32_t(r.range(1, 3));
        if (s.what == FIXED) s.m = gen(r, s.is, n, K_UNI);
        if (s.what == USER) s.is = w.count("V") ? w["V"].is : 3;
        return s;
    };
    // the user-defined decomposer answers with "V" as it is; keep its itemSize right
    auto fits = [&](const Spec &s) { return s.what != USER || !w.count("V") || w.at("V").is == s.is; };
    size_t nd = r.below(8);
    for (size_t i = 0; i < nd; ++i) ds.push_back(spec());
    c.nontrivial = nd && !w.empty();
    c.hash.u(mdim);
    for (auto &[nm, m] : w) { c.hash.s(nm); c.hash.a(m.v); c.hash.u(m.is); c.desc += nm + "(" + std::to_string(m.is) + ") "; }
    for (auto &s : ds) { c.hash.u(s.what); c.desc += "d" + std::to_string(s.what) + " "; }
    alive.clear();
    deaths.clear();
    std::vector<int> mine;
    {
        size_t at_ctor = r.below(nd + 1);
        std::vector<df::Decomposer *> first;
        for (size_t i = 0; i < at_ctor; ++i) { first.push_back(make(ds[i])); mine.push_back(ds[i].my); }
        auto mng = std::make_unique<df::Manager>(d, first, mdim);
        for (size_t i = at_ctor; i < nd; ++i) { mng->add(make(ds[i])); mine.push_back(ds[i].my); }
        check_manager(c, *mng, d, w, ds, mdim);
        for (int step = 0; step < 3; ++step) {
            int op = int(r.below(6));
            if (op <= 1) {
                std::string nm = names[r.below(names.size())];
                M m = attr(r, n);
                if (nm == "V") for (auto &s : ds) if (s.what == USER) m = gen(r, s.is, n, K_UNI, m.dim);
                d.add(nm, m.serie());
                w[nm] = m;
            } else if (op == 2) {
                std::string nm = r.chance(0.3) ? (r.chance(0.5) ? "positions" : "indices") : names[r.below(names.size())];
                d.del(nm);
                w.erase(nm);
            } else if (op == 3 && !w.empty()) {
                auto it = w.begin();
                std::advance(it, r.below(w.size()));
                if (attribute(it->first) && !it->second.v.empty()) {
                    d[it->first].asArray()[0] = 2.5;
                    it->second.v[0] = 2.5;
                }
            } else if (op == 4) {
                Spec s = spec();
                bool ok = fits(s);
                for (auto &o : ds) if (s.what == USER && o.what == USER && o.is != s.is) ok = false;
                if (ok) { mng->add(make(s)); mine.push_back(s.my); ds.push_back(s); }
            } else if (op == 5 && r.chance(0.4)) {
                mng->clear();
                for (auto &s : ds) VF_CHECK(alive[s.my] == 0 && deaths[s.my] == 1, "clear", "after clear, a decomposer was destroyed " << deaths[s.my] << " times");
                ds.clear();
            }
            // the Manager goes elsewhere, as when a function returns it; the decomposers go with it
            auto hand_on = [&]<class T>(std::unique_ptr<T> &x) {
                if constexpr (std::is_copy_constructible_v<T>) {
                    auto twin = std::make_unique<T>(*x);
                    check_manager(c, *twin, d, w, ds, mdim);
                    if (r.chance(0.5)) x.swap(twin);
                    twin.reset();
                } else if constexpr (std::is_move_constructible_v<T>) {
                    x = std::make_unique<T>(std::move(*x));
                }
                c.event("handed_on");
            };
            if (r.chance(0.2)) hand_on(mng);
            c.event("changes");
            // the user-defined decomposer gives what V is
            check_manager(c, *mng, d, w, ds, mdim);
        }
        for (auto &s : ds) VF_CHECK(alive[s.my] == 1 && deaths[s.my] == 0, "early-destruction", "a decomposer was destroyed while its Manager lives");
    }
    for (int id : mine) {
        VF_CHECK(alive[id] == 0 && deaths[id] == 1, "ownership", "a decomposer was destroyed " << deaths[id] << " times by the end of its Manager");
        c.event("destroyed");
    }
    if (nd == 0) c.nontrivial = false;
}

VF_DRIVER("order", 1500, 20000, "several decomposers provide the same name: the first added answers; a decomposer that lists nothing still answers; non-trivial: always", {{"asked", 5000}}) {
    Rng &r = c.rng;
    df::Dataframe d;
    uint32_t n = count1(r, 50), is = uint32_t(r.range(1, 4));
    M u = gen(r, is, n, K_UNI, dim(r));
    d.add("U", u.serie());
    d.add("W", gen(r, is + 1, n, K_UNI).serie());
    size_t k = 2 + r.below(4);
    std::vector<M> ms;
    {
        df::Manager mng(d, {}, u.dim);
        for (size_t i = 0; i < k; ++i) {
            // of different counts too, smaller, larger or equal
            ms.push_back(tagged(is, r.chance(0.4) ? n : r.chance(0.1) ? 0 : uint32_t(r.range(1, 60)), 1000.0 * double(i), dim(r)));
            mng.add(new Fixed(is, i == 0 ? "first" : "P", ms[i], r.chance(0.5)));
        }
        mng.add(new Fixed(is, "U", ms[0]));
        mng.add(new Fixed(is, "W", ms[1]));
        id(c, u);
        c.nontrivial = true;
        c.desc = shape(u) + " providers " + std::to_string(k);
        for (int pass = 0; pass < 2; ++pass) {
            Serie p = mng.serie(is, "P");
            check_same(p, ms[1], "first-provider", "of several providers, the answer");
            VF_CHECK(p.dimension() == ms[1].dim, "first-provider", "dimension of the answer");
            check_same(mng.serie(is, "first"), ms[0], "first-provider", "of a single provider, the answer");
            check_same(mng.serie(is, "U"), u, "stored", "the stored Serie");
            check_same(mng.serie(is, "W"), ms[1], "itemSize", "a name stored with another itemSize");
            VF_CHECK(!mng.serie(is + 2, "U").isValid(), "itemSize", "a name of another itemSize was resolved");
            c.event("asked", 5);
        }
    }
}

namespace {
// a user-defined quantity at `level`: the sum of the components of V, asked of a Manager on the way, plus the level below
Serie nested_sum(const df::Dataframe &d, int level) {
    df::Manager m(d);
    m.add(new df::Components());
    if (level > 0) {
        auto below = [level](const df::Dataframe &x) { return nested_sum(x, level - 1); };
        m.add(new df::UserDefinedDecomposer<decltype(below)>(1, "sum", std::move(below)));
    }
    const Strings names = m.names(1);
    Serie sum(1, d["V"].count(), d["V"].dimension());
    for (const char *n : {"Vx", "Vy", "Vz"}) {
        if (std::find(names.begin(), names.end(), n) == names.end()) return Serie();
        const Serie s = m.serie(1, n);
        for (uint32_t i = 0; i < s.count(); ++i) sum.setScalar(i, sum.scalar(i) + s.scalar(i));
    }
    if (level > 0) {
        if (!m.contains(1, "sum")) return Serie();
        const Serie s = m.serie(1, "sum");
        for (uint32_t i = 0; i < s.count(); ++i) sum.setScalar(i, sum.scalar(i) + s.scalar(i));
    }
    return sum;
}
} // namespace

VF_DRIVER("managers", 600, 12000, "two to five Managers on Dataframes with the same names, asked in turn while the Dataframes change; user-defined quantities which ask Managers themselves, up to four levels deep; some Managers moved; non-trivial: always", {{"asked", 15000}, {"nested", 3500}, {"changes", 1200}, {"large", 3}}) {
    Rng &r = c.rng;
    const size_t k = size_t(r.range(2, 5));
    std::vector<df::Dataframe> ds(k);
    std::vector<M> v(k), t(k);
    std::vector<df::Manager> ms;
    ms.reserve(k);
    const int level = int(r.below(4));
    auto store = [&](size_t i) {
        const bool large = level == 0 && r.chance(0.02);
        const uint32_t n = large ? uint32_t(r.range(65530, 66000)) : count1(r, 30);
        if (large) c.event("large");
        v[i] = gen(r, 3, n, K_DYADIC);
        t[i] = gen(r, 6, large ? 1 : n, K_UNI);
        if (r.chance(0.5)) { ds[i].add("V", v[i].serie()); ds[i].add("T", t[i].serie()); }
        else { ds[i]["V"] = v[i].serie(); ds[i]["T"] = t[i].serie(); }
    };
    for (size_t i = 0; i < k; ++i) {
        store(i);
        auto fn = [level](const df::Dataframe &d) { return nested_sum(d, level); };
        df::Manager m(ds[i]);
        m.add(new df::Components());
        m.add(new df::EigenValues());
        m.add(new df::UserDefinedDecomposer<decltype(fn)>(1, "sum", std::move(fn)));
        ms.push_back(std::move(m));
        id(c, v[i]);
    }
    c.nontrivial = true;
    c.desc = std::to_string(k) + " Managers, quantities of level " + std::to_string(level);
    for (int step = int(r.range(15, 60)); step > 0; --step) {
        const size_t i = r.below(k);
        const df::Manager &m = ms[i];
        if (r.chance(0.08)) {
            store(i);
            c.event("changes");
        }
        switch (r.below(4)) {
        case 0: {
            const uint32_t j = uint32_t(r.below(3));
            check_same(m.serie(1, std::string("V") + "xyz"[j]), column(v[i], j), "managers-component", "a component asked of one of several Managers");
            break;
        }
        case 1: {
            const uint32_t j = uint32_t(r.below(6));
            check_same(m.serie(1, std::string("T") + (std::string[]){"xx", "xy", "xz", "yy", "yz", "zz"}[j]), column(t[i], j), "managers-component", "a component asked of one of several Managers");
            break;
        }
        case 2: {
            Serie e = df::algebra::eigenValues(ds[i]["T"]), got = m.serie(1, "T1");
            VF_CHECK(got.count() == e.count(), "managers-eigen", "eigen values of one of several Managers: " << got.count() << " items instead of " << e.count());
            for (uint32_t q = 0; q < e.count(); ++q) VF_CHECK(std::abs(got.scalar(q) - e.value(q)[0]) <= 1e-9 * (std::abs(e.value(q)[0]) + std::abs(e.value(q)[2])), "managers-eigen", "eigen value of item " << q << " of one of several Managers: " << got.scalar(q) << " instead of " << e.value(q)[0]);
            break;
        }
        default: {
            if (v[i].n > 60000 && level > 1) break;
            const Serie s = m.serie(1, "sum");
            VF_CHECK(s.isValid() && s.count() == v[i].n, "managers-nested", "a user-defined quantity which asks a Manager has " << s.count() << " items instead of " << v[i].n);
            for (uint32_t q = 0; q < v[i].n; ++q) {
                const double one = v[i].v[3 * q] + v[i].v[3 * q + 1] + v[i].v[3 * q + 2];
                VF_CHECK(s.scalar(q) == one * (level + 1), "managers-nested", "item " << q << " of a user-defined quantity of level " << level << " is " << s.scalar(q) << " instead of " << one * (level + 1));
            }
            c.event("nested");
        }
        }
        c.event("asked");
    }
    for (size_t i = 0; i < k; ++i) VF_CHECK(ms[i].nbDecomposers() == 3 && ms[i].contains(1, "sum") && ms[i].contains(1, "Vy") && !ms[i].contains(1, "W"), "managers-names", "one of several Managers lost its names");
}
VF_MAIN

// C18: decomposers return the component, coordinate or eigen quantity their name says.
#include "mgr.h"
#include <dataframe/functional/algebra/eigen.h>
#include <dataframe/functional/map.h>
using namespace dfh;

namespace {
void same(const Serie &s, const M &m, const std::string &key, const std::string &what) {
    VF_CHECK(s.isValid(), key, what << " is invalid");
    check_same(s, m, key, what);
    VF_CHECK(s.dimension() == m.dim, key, what << " has dimension " << s.dimension());
}
} // namespace

namespace {
// not the beginning of another name used here, nor the other way round
std::string odd_name(Rng &r) {
    static const char alpha[] = "abSxyz019 _-.\0\t\xc3\xa9\xff(){}";
    std::string n = "k";
    for (size_t k = r.chance(0.2) ? size_t(r.range(20, 400)) : r.below(9); k > 0; --k) n += alpha[r.below(sizeof alpha - 1)];
    return n;
}
} // namespace

VF_DRIVER("components", 4000, 90000, "every component of Series of every itemSize in 2D and 3D, values tagged by position; names with digits and letters like the suffixes; non-trivial: at least one item", {{"columns", 20000}, {"matrices", 800}, {"numbered", 800}, {"unknown", 10000}, {"via_manager", 3000}}) {
    Huge huge_(0.004);
    Rng &r = c.rng;
    uint32_t is = r.chance(0.7) ? std::vector<uint32_t>{2, 3, 4, 6, 9}[r.below(5)] : uint32_t(r.range(2, 30));
    bool wide = r.chance(0.03);
    if (wide) { static const uint32_t w[] = {99, 100, 101, 128, 200, 255, 256, 257, 300, 1001}; is = w[r.below(10)]; }
    uint32_t n_ = wide ? uint32_t(r.range(1, 4)) : count1(r, 600);
    M m = r.chance(0.5) ? tagged(is, n_, 1, dim(r)) : gen(r, is, n_, any_kind(r), dim(r));
    static const std::vector<std::string> names = {"U", "S", "Displ", "x", "xx", "U1", "1", "stress_", "yz", "a b", ""};
    std::string name = r.chance(0.7) ? names[r.below(names.size())] : odd_name(r);
    id(c, m);
    c.hash.s(name);
    c.desc = shape(m) + " name '" + name + "'";
    df::Dataframe d;
    d.add(name, m.serie());
    // others, whose names start differently
    d.add("other", gen(r, uint32_t(r.range(1, 9)), m.n, K_UNI, dim(r)).serie());
    d.add("Qscalar", gen(r, 1, m.n, K_UNI, 3).serie());
    df::Components comp;
    Strings ends = component_suffixes(is, m.dim);
    Strings listed = comp.names(d, 1, d[name], name);
    VF_CHECK(listed.size() == ends.size(), "names", "names lists " << listed.size() << " components of itemSize " << is << " dim " << m.dim);
    for (uint32_t k = 0; k < is; ++k) {
        VF_CHECK(listed[k] == name + ends[k], "names", "component " << k << " is called " << listed[k] << " instead of " << name + ends[k]);
        // a shorter ending may name a component of another Serie of this Dataframe: not here
        same(comp.serie(d, 1, name + ends[k]), column(m, k), "component", "component " + name + ends[k] + " of itemSize " + std::to_string(is) + " dim " + std::to_string(m.dim));
        c.event("columns");
    }
    if (ends[0] == "0") c.event("numbered");
    else c.event("matrices");
    {
        df::Manager mng(d, {new df::Components}, m.dim);
        uint32_t k = uint32_t(r.below(is));
        same(mng.serie(1, name + ends[k]), column(m, k), "component", "through the Manager, component " + name + ends[k]);
        c.event("via_manager");
    }
    // names which are no components
    std::set<std::string> valid(listed.begin(), listed.end());
    for (auto &e : {"w", "q", "xq", "X", "", "99", "-1", "00", "zzz", "xx", "zz", "x", "z", "yx", "2", "5"}) {
        std::string n = name + e;
        if (valid.count(n)) continue;
        bool other = false;  // does it name a component of the other Series?
        for (auto &[on, os] : d.series())
            for (auto &oe : component_suffixes(os.itemSize(), os.dimension()))
                if (os.itemSize() > 1 && n == on + oe) other = true;
        if (other) continue;
        VF_CHECK(!comp.serie(d, 1, n).isValid(), "unknown", "Components gives something for '" << n << "' (itemSize " << is << ", dim " << m.dim << ", name '" << name << "')");
        c.event("unknown");
    }
    VF_CHECK(!comp.serie(d, 2, listed[0]).isValid() && !comp.serie(d, 3, listed[0]).isValid(), "itemSize", "a component was given as a vector");
    VF_CHECK(comp.names(d, 3, d[name], name).empty(), "names", "components are listed as vectors");
    VF_CHECK(comp.names(d, 1, d["Qscalar"], "Qscalar").empty(), "names", "a scalar Serie has components");
    for (auto &n : {"positions", "indices"}) VF_CHECK(comp.names(d, 1, d[name], n).empty(), "names", "components of " << n << " are listed");
    check_unchanged(d[name], m, "input-changed");
}

VF_DRIVER("several", 2000, 40000, "Dataframes with several Series whose names begin alike: every unambiguous component name resolves to its own Serie; non-trivial: at least two Series", {{"resolved", 10000}, {"ambiguous", 10}}) {
    Rng &r = c.rng;
    static const std::vector<std::string> names = {"U", "Ux", "U1", "Uxx", "S", "S1", "T", "V"};
    df::Dataframe d;
    Model w;
    uint32_t n = count1(r, 40);
    for (size_t i = 0, k = size_t(r.range(2, 5)); i < k; ++i) {
        std::string nm = names[r.below(names.size())];
        w[nm] = tagged(r.chance(0.2) ? 1 : uint32_t(r.range(2, 11)), n, 1e6 * double(i + 1), dim(r));
        d.add(nm, w[nm].serie());
    }
    std::map<std::string, std::vector<M>> all;
    for (auto &[nm, m] : w) {
        id(c, m);
        c.hash.s(nm);
        c.desc += nm + "(" + shape(m) + ") ";
        if (m.is == 1) continue;
        Strings e = component_suffixes(m.is, m.dim);
        for (uint32_t k = 0; k < m.is; ++k) all[nm + e[k]].push_back(column(m, k));
    }
    c.nontrivial = w.size() > 1;
    df::Components comp;
    for (auto &[n2, ms] : all) {
        Serie s = comp.serie(d, 1, n2);
        VF_CHECK(s.isValid(), "component", "component " << n2 << " is not given");
        if (ms.size() == 1) { same(s, ms[0], "component", "component " + n2); c.event("resolved"); }
        else {
            bool one = false;
            for (auto &m : ms) one = one || (identical(s.asArray(), m.v) && s.count() == m.n);
            VF_CHECK(one, "component", "component " << n2 << " is none of those of that name");
            c.event("ambiguous");
        }
    }
}

VF_DRIVER("coordinates", 2000, 40000, "coordinates under given names, fewer or more than the positions have; non-trivial: always", {{"columns", 4000}, {"unknown", 2000}, {"extra_names", 200}}) {
    Huge huge_(0.004);
    Rng &r = c.rng;
    uint32_t is = r.chance(0.6) ? 3 : size_between(r, 1, 5), n = fewer(is, count1(r, 500));
    M m = r.chance(0.5) ? tagged(is, n, 5, dim(r)) : gen(r, is, n, any_kind(r), dim(r));
    Strings given = r.chance(0.4) ? Strings{"x", "y", "z"} : Strings{"lon", "lat", "alt", "time", "q", "q2"};
    if (r.chance(0.2)) for (int k = int(r.range(1, 40)); k > 0; --k) given.push_back("c" + std::to_string(k));
    given.resize(size_t(r.range(1, int64_t(given.size()))));
    df::Dataframe d;
    d.add("positions", m.serie());
    d.add("U", gen(r, 3, n, K_UNI).serie());
    id(c, m);
    for (auto &g : given) c.hash.s(g);
    c.desc = shape(m) + " " + std::to_string(given.size()) + " names from " + given[0];
    df::Coordinates k(given), dflt;
    size_t nb = std::min<size_t>(given.size(), is);
    if (given.size() > is) c.event("extra_names");
    Strings listed = k.names(d, 1, d["positions"], "positions");
    VF_CHECK(listed == Strings(given.begin(), given.begin() + nb), "names", "Coordinates lists " << listed.size() << " names for itemSize " << is);
    for (size_t i = 0; i < given.size(); ++i) {
        Serie s = k.serie(d, 1, given[i]);
        if (i < nb) {
            same(s, column(m, uint32_t(i)), "coordinate", "coordinate " + given[i]);
            c.event("columns");
        } else VF_CHECK(!s.isValid(), "coordinate", "coordinate " << given[i] << " exists for itemSize " << is);
        VF_CHECK(!k.serie(d, 3, given[i]).isValid(), "itemSize", "a coordinate was given as a vector");
    }
    static const char *xyz[] = {"x", "y", "z"};
    for (uint32_t i = 0; i < std::min<uint32_t>(3, is); ++i) same(dflt.serie(d, 1, xyz[i]), column(m, i), "coordinate", std::string("coordinate ") + xyz[i]);
    VF_CHECK(k.names(d, 1, d["U"], "U").empty() && k.names(d, 3, d["positions"], "positions").empty(), "names", "coordinates of something else");
    VF_CHECK(!k.serie(d, 1, "nobody").isValid() && !k.serie(d, 1, "").isValid(), "unknown", "an unknown coordinate is given");
    df::Dataframe e;
    VF_CHECK(!k.serie(e, 1, given[0]).isValid(), "unknown", "a coordinate without positions");
    c.event("unknown", 3);
    check_unchanged(d["positions"], m, "input-changed");
}

VF_DRIVER("eigen", 3000, 60000, "eigen values and vectors by name, against the eigen functions; non-trivial: always", {{"values", 6000}, {"vectors", 6000}, {"unknown", 10000}}) {
    Huge huge_(0.002);
    Rng &r = c.rng;
    unsigned D = dim(r);
    uint32_t is = D == 2 ? 3 : 6, n = count1(r, 200);
    M m = gen(r, is, n, tame_kind(r), D);
    static const std::vector<std::string> names = {"S", "stress", "S1", "1", "x"};
    std::string name = r.chance(0.7) ? names[r.below(names.size())] : odd_name(r);
    id(c, m);
    c.hash.s(name);
    c.desc = shape(m) + " name " + name;
    df::Dataframe d;
    d.add(name, m.serie());
    d.add("scalar", gen(r, 1, n, K_UNI, D).serie());
    d.add("V", gen(r, D == 2 ? 6 : 3, n, K_UNI, D).serie());
    df::EigenValues ev;
    df::EigenVectors ec;
    Serie vals = df::algebra::eigenValues(d[name]), vecs = df::algebra::eigenVectors(d[name]);
    Strings want;
    for (unsigned k = 1; k <= D; ++k) want.push_back(name + std::to_string(k));
    VF_CHECK(ev.names(d, 1, d[name], name) == want && ec.names(d, D, d[name], name) == want, "names", "eigen names of " << name << " in " << D << "D");
    for (unsigned k = 0; k < D; ++k) {
        Serie a = ev.serie(d, 1, want[k]), b = ec.serie(d, D, want[k]);
        check_shape(a, 1, n, "eigenvalue", "eigenvalue " + want[k]);
        check_shape(b, D, n, "eigenvector", "eigenvector " + want[k]);
        VF_CHECK(a.dimension() == D && b.dimension() == D, "dimension", "eigen quantities have dimensions " << a.dimension() << " and " << b.dimension());
        for (uint32_t i = 0; i < n; ++i) {
            VF_CHECK(same_bits(a.asArray()[i], vals.asArray()[size_t(i) * D + k]), "eigenvalue", want[k] << " of item " << i << " is " << a.asArray()[i] << " instead of " << vals.asArray()[size_t(i) * D + k]);
            for (unsigned q = 0; q < D; ++q)
                VF_CHECK(same_bits(b.asArray()[size_t(i) * D + q], vecs.asArray()[size_t(i) * D * D + k * D + q]), "eigenvector", "component " << q << " of " << want[k] << " of item " << i);
        }
        c.event("values");
        c.event("vectors");
    }
    {
        df::Manager mng(d, {new df::EigenVectors, new df::EigenValues}, D);
        unsigned k = unsigned(r.below(D));
        VF_CHECK(identical(mng.serie(1, want[k]).asArray(), ev.serie(d, 1, want[k]).asArray()), "eigenvalue", "the Manager gives another eigenvalue " << want[k]);
        VF_CHECK(identical(mng.serie(D, want[k]).asArray(), ec.serie(d, D, want[k]).asArray()), "eigenvector", "the Manager gives another eigenvector " << want[k]);
    }
    for (std::string n2 : {name + "0", name + "4", name + "9", name + "x", name, std::string("nobody1"), std::string("scalar1"), std::string("V1"), std::string(""), std::string("1"), D == 2 ? name + "3" : name + "5"}) {
        if (std::find(want.begin(), want.end(), n2) != want.end()) continue;
        VF_CHECK(!ev.serie(d, 1, n2).isValid() && !ec.serie(d, D, n2).isValid(), "unknown", "eigen quantities of '" << n2 << "' exist");
        c.event("unknown");
    }
    VF_CHECK(!ev.serie(d, 2, want[0]).isValid() && !ev.serie(d, 3, want[0]).isValid() && !ec.serie(d, 1, want[0]).isValid() && !ec.serie(d, 5 - D, want[0]).isValid(), "itemSize", "eigen quantities are given with another itemSize");
    VF_CHECK(ev.names(d, 1, d["V"], "V").empty() && ec.names(d, D, d["V"], "V").empty() && ev.names(d, 1, d["scalar"], "scalar").empty() && ev.names(d, 1, d[name], "positions").empty(), "names", "eigen names of something else");
    check_unchanged(d[name], m, "input-changed");
}

VF_DRIVER("userdefined", 2000, 30000, "user-defined decomposers: lambdas by value and by name, with state, dependent on the Dataframe; non-trivial: always", {{"asked", 8000}, {"calls", 10000}}) {
    Rng &r = c.rng;
    uint32_t n = count1(r, 100), is = item_size(r);
    M m = gen(r, is, n, any_kind(r), dim(r));
    id(c, m);
    c.nontrivial = true;
    c.desc = shape(m);
    df::Dataframe d;
    d.add("U", m.serie());
    double f = double(r.range(2, 5));
    uint64_t calls = 0;
    auto twice = [f, &calls](const df::Dataframe &x) {
        ++calls;
        const Serie &u = x["U"];
        if (!u.isValid()) return Serie();
        Serie o = u;
        for (double &v : o.asArray()) v *= f;
        return o;
    };
    std::unique_ptr<df::Decomposer> a;
    {
        auto local = twice;  // gone before the decomposer is used
        if (r.chance(0.5)) a.reset(new df::UserDefinedDecomposer(is, "twice", decltype(local)(local)));
        else a.reset(new df::UserDefinedDecomposer<decltype(local)>(is, "twice", std::move(local)));
    }
    for (int pass = 0; pass < 2; ++pass) {
        M w = m;
        for (double &v : w.v) v *= f;
        VF_CHECK(a->names(d, is, d["U"], "U") == Strings{"twice"}, "names", "the name of a user-defined decomposer is not listed");
        uint64_t before = calls;
        same(a->serie(d, is, "twice"), w, "user", "the user-defined Serie");
        VF_CHECK(calls > before, "calls", "the function was called " << calls - before << " times");
        VF_CHECK(a->names(d, is + 1, d["U"], "U").empty() && !a->serie(d, is + 1, "twice").isValid() && !a->serie(d, is, "thrice").isValid() && !a->serie(d, is, "").isValid(), "unknown", "a user-defined decomposer answers for something else");
        c.event("asked", 5);
        m = gen(r, is, count1(r, 100), any_kind(r), m.dim);  // the Dataframe changes
        d.set("U", m.serie());
    }
    d.del("U");
    VF_CHECK(a->names(d, is, Serie(), "U").empty() && !a->serie(d, is, "twice").isValid(), "unknown", "a user-defined decomposer invents a Serie");
    c.event("calls", calls);
}
VF_MAIN

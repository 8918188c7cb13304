// C25: no memory error, no undefined behaviour, whatever the arguments.
// The judges are AddressSanitizer, UndefinedBehaviorSanitizer and memcheck.
#include "ops.h"
#include <dataframe/functional/utils/print.h>
using namespace ops;

namespace {
uint32_t number(Rng &r) {
    static const uint32_t p[] = {0, 0, 1, 2, 3, 4, 5, 7, 9, 10, 31, 64, 100, 1000, 65536, 100000};
    return p[r.below(16)];
}
Serie odd(Rng &r) {
    uint32_t is = r.chance(0.7) ? uint32_t(r.range(1, 9)) : r.chance(0.5) ? 1 : uint32_t(r.range(10, 40));
    uint32_t n = r.chance(0.2) ? 0 : r.chance(0.5) ? uint32_t(r.range(1, 6)) : count(r, 200);
    Kind k = r.chance(0.4) ? K_SPECIAL : any_kind(r);
    unsigned d = dim(r);
    switch (r.below(12)) {
    case 0: return Serie();
    case 1: return Serie(int(is));
    case 2: return Serie(int(is), n, d);
    case 3: return Serie(0, values(r, n, k));
    case 4: { Serie s = gen(r, is, n, k, d).serie(); Serie t; t = s; return t.clone(); }
    case 5: { Serie s; s = Serie(int(is), Array{}, d); return s; }
    default: return gen(r, is, n, k, d).serie();
    }
}
double odd_number(Rng &r) { return r.chance(0.5) ? value(r, K_SPECIAL) : r.chance(0.5) ? r.unit() : value(r, any_kind(r)); }
// reads everything a Serie gives
uint64_t consume(const Serie &s) {
    double x = 0;
    VF_CHECK(s.itemSize() == 0 || s.asArray().size() == size_t(s.itemSize()) * s.count(), "inconsistent", "a result has itemSize " << s.itemSize() << ", count " << s.count() << " and " << s.asArray().size() << " values");
    for (uint32_t i = 0; i < s.count(); ++i) for (double v : s.value(i)) x += v;
    for (double v : s.asArray()) x -= v;
    return std::isnan(x) ? 1 : x > 0;
}
bool nan_in(const Args &a) {
    for (double x : a.d) if (std::isnan(x)) return true;
    return has_nan(a);
}
template <class F> void attempt(Ctx &c, const char *what, F &&f) {
    vf::note(what);
    try {
        f();
        c.event("returned");
    } catch (const vf::Fail &) {
        throw;
    } catch (const std::exception &) {
        c.event("threw");
    } catch (...) {
        vf::fail("exception", std::string(what) + " threw something that is not a std::exception");
    }
}
} // namespace

VF_DRIVER("program", 8000, 150000, "10 to 40 calls of any operation on a pool of Series of any shape and values (empty, invalid, NaN and infinities, the same object twice), results go back to the pool; non-trivial: always",
          {{"returned", 40000}, {"threw", 20000}, {"special", 11000}, {"aliased", 10000}}) {
    Rng &r = c.rng;
    c.nontrivial = true;
    Series pool;
    for (int i = 0; i < 8; ++i) pool.push_back(odd(r));
    for (auto &s : pool) { c.hash.u(s.itemSize()); c.hash.a(s.asArray()); }
    for (int k = int(r.range(10, 40)); k > 0; --k) {
        const Op &op = all()[r.below(all().size())];
        Args a = op.make(r, 40);
        if (!a.s.empty() && r.chance(0.1)) a.s[0] = any(r, item_size(r), count1(r, 40), dim(r));
        bool mine = a.s.empty() || r.chance(0.2);
        if (!mine) {
            uint32_t same = uint32_t(r.below(pool.size()));
            bool twice = r.chance(0.3);
            for (auto &s : a.s) if (r.chance(0.85)) s = twice ? pool[same] : r.pick(pool);
            if (twice) c.event("aliased");
        }
        for (double &x : a.d) if (r.chance(0.3)) x = odd_number(r);
        for (double &x : a.a) if (r.chance(0.2)) x = value(r, K_SPECIAL);
        for (auto &x : a.u) if (r.chance(0.3)) x = number(r);
        if (r.chance(0.1)) a.a.resize(r.below(12), 1.5);
        if (r.chance(0.1)) a.u.resize(r.below(5), 3);
        if (r.chance(0.1)) a.d.resize(r.below(4), 0.5);
        if ((op.flags & SORTS) && nan_in(a)) continue;
        if (has_nan(a)) c.event("special");
        c.desc += op.name + " ";
        attempt(c, op.name.c_str(), [&] {
            Res res = op.call(a);
            double sum = double(res.text.size());
            for (double x : res.num) sum += x;
            if (sum > 0) c.event("positive");  // a use of every number the operation gave
            for (auto &s : res.s) {
                consume(s);
                if (s.asArray().size() <= 3000 && r.chance(0.3)) pool[r.below(pool.size())] = s;
            }
        });
        if (r.chance(0.1)) pool[r.below(pool.size())] = odd(r);
    }
}

VF_DRIVER("access", 12000, 300000, "reading and writing items of one Serie with any index and any item, resizing, copying, assigning to itself; non-trivial: the Serie has items", {{"returned", 30000}, {"threw", 30000}}) {
    Rng &r = c.rng;
    Serie s = odd(r);
    const Serie &k = s;
    c.hash.u(s.itemSize()); c.hash.a(s.asArray());
    c.nontrivial = s.count() > 0;
    for (int n = int(r.range(4, 16)); n > 0; --n) {
        uint32_t edge[] = {0, 1, s.count() - 1, s.count(), s.count() + 1, s.size() - 1, s.size(), 0x7fffffff, 0x80000000u, 0xffffffffu, s.count() * 2, uint32_t(r.below(40)),
                           s.itemSize() ? uint32_t((uint64_t(1) << 32) / s.itemSize()) : 0, s.itemSize() ? uint32_t((uint64_t(1) << 32) / s.itemSize()) + 1 : 0};
        uint32_t i = edge[r.below(14)];
        Array v = values(r, r.chance(0.5) ? s.itemSize() : r.below(12), K_SPECIAL);
        double x = value(r, K_SPECIAL), sum = 0;
        switch (r.below(16)) {
        case 0: attempt(c, "value", [&] { for (double y : k.value(i)) sum += y; }); break;
        case 1: attempt(c, "scalar", [&] { sum += k.scalar(i); }); break;
        case 2: attempt(c, "get<double>", [&] { sum += k.get<double>(i); }); break;
        case 3: attempt(c, "get<Array>", [&] { for (double y : k.get<Array>(i)) sum += y; }); break;
        case 4: attempt(c, "setValue", [&] { s.setValue(i, v); }); break;
        case 5: attempt(c, "setScalar", [&] { s.setScalar(i, x); }); break;
        case 6: attempt(c, "set<double>", [&] { s.set(i, x); }); break;
        case 7: attempt(c, "set<Array>", [&] { s.set(i, v); }); break;
        case 8: attempt(c, "reCount", [&] { s.reCount(r.chance(0.5) ? uint32_t(r.below(300)) : s.count() + uint32_t(r.below(3))); }); break;
        case 9: attempt(c, "assign itself", [&] { Serie &t = s; s = t; }); break;
        case 10: attempt(c, "copies", [&] { Serie t(s), u; u = t; t = odd(r); s = u; }); break;
        case 11: attempt(c, "clone", [&] { s = s.clone(); }); break;
        case 12: attempt(c, "stream", [&] { std::ostringstream o; o << s << s.asArray() << Series{s, Serie()}; }); break;
        case 13: attempt(c, "shuffle", [&] { for (uint32_t j = 0; j < s.count(); ++j) s.set(j, s.value(s.count() - 1 - j)); }); break;
        case 14: attempt(c, "asArray", [&] { for (double &y : s.asArray()) y = -y; }); break;
        default: attempt(c, "toSerie", [&] { s = df::toSerie(s.itemSize(), s.asArray(), s.dimension()); });
        }
        consume(s);
    }
    c.desc = "itemSize " + std::to_string(s.itemSize()) + " count " + std::to_string(s.count());
}

VF_DRIVER("containers", 8000, 200000, "Dataframes filled, overwritten, emptied, copied, resized, with Series of any shape and references into themselves; Managers with any decomposers asked for any names on them; non-trivial: always", {{"returned", 60000}, {"asked", 60000}, {"listed", 30000}}) {
    Rng &r = c.rng;
    c.nontrivial = true;
    static const Strings names = {"positions", "indices", "S", "U", "n", "", "a very long name, longer than the small string buffer", "Sxx", "S1"};
    df::Dataframe D(r.chance(0.5) ? 0 : uint32_t(r.below(20))), E;
    uint32_t n = uint32_t(r.below(12));
    bool regular = r.chance(0.5);
    unsigned d = dim(r);
    auto serie = [&] { return regular ? gen(r, uint32_t(r.range(1, 9)), n, r.chance(0.2) ? K_SPECIAL : K_UNI, r.chance(0.9) ? d : 5 - d).serie() : odd(r); };
    if (r.chance(0.5)) {
        Model w;
        mesh(r, w, std::max(1u, n), uint32_t(r.below(20)));
        if (r.chance(0.5)) for (double &x : w["indices"].v) if (r.chance(0.05)) x = value(r, r.chance(0.5) ? K_SPECIAL : K_SMALLINT);
        D.add("positions", w["positions"].serie());
        D.add("indices", w["indices"].serie());
    }
    for (int k = int(r.range(2, 14)); k > 0; --k) {
        const std::string &a = r.pick(names), &b = r.pick(names);
        switch (r.below(13)) {
        case 0: case 1: case 2: attempt(c, "add", [&] { D.add(a, serie()); }); break;
        case 3: attempt(c, "set", [&] { D.set(a, serie()); }); break;
        case 4: attempt(c, "add a reference", [&] { D.add(a, D[b]); }); break;
        case 5: attempt(c, "assign a reference", [&] { D[a] = D[b]; }); break;
        case 6: attempt(c, "del", [&] { D.del(a); }); break;
        case 7: attempt(c, "copy", [&] { E = D; df::Dataframe F(E); F.del(a); D = F; D = D; }); break;
        case 8: attempt(c, "create", [&] { D.create(a, uint32_t(r.below(10)), uint32_t(r.below(20))); }); break;
        case 9: attempt(c, "setCount", [&] { D.setCount(uint32_t(r.below(30))); }); break;
        case 10: attempt(c, "get", [&] { const df::Dataframe &C = D; consume(C[a]); consume(C.get(b)); D.contains(C[a]); D.contains(b); df::nameOfSerie(D, C[b]); consume(D.get(a)); }); break;
        case 11: if (r.chance(0.2)) attempt(c, "clear", [&] { D.clear(); }); break;
        default: attempt(c, "concat", [&] { D[a] = df::utils::concat(D[b], D[b]); });
        }
    }
    for (auto &e : D.series()) { c.hash.s(e.first); c.hash.u(e.second.itemSize()); c.hash.a(e.second.asArray()); c.desc += e.first + ":" + std::to_string(e.second.itemSize()) + "x" + std::to_string(e.second.count()) + " "; }
    auto mine = [](const df::Dataframe &w) { return df::algebra::norm(w["U"]); };
    std::unique_ptr<df::Manager> M(new df::Manager(D, {}, d));
    for (int k = int(r.below(8)); k > 0; --k) {
        switch (r.below(9)) {
        case 0: M->add(new df::Components()); break;
        case 1: if (r.chance(0.3)) M->add(new df::Coordinates()); else { Strings s; for (int j = int(r.below(5)); j > 0; --j) s.push_back("c" + std::to_string(j)); attempt(c, "Coordinates", [&] { M->add(new df::Coordinates(s)); }); } break;
        case 2: M->add(new df::EigenValues()); break;
        case 3: M->add(new df::EigenVectors()); break;
        case 4: M->add(new df::Normals(r.pick(names))); break;
        case 5: M->add(new df::Area(r.pick(names))); break;
        case 6: M->add(new df::Valence(r.pick(names))); break;
        case 7: M->add(new df::UserDefinedDecomposer(uint32_t(r.below(4)), r.pick(names), std::decay_t<decltype(mine)>(mine))); break;
        default: if (r.chance(0.2)) M->clear();
        }
    }
    for (uint32_t is = 0; is < 11; ++is)
        attempt(c, "names", [&] {
            for (auto &name : M->names(is)) {
                c.event("listed");
                attempt(c, "serie", [&] { consume(M->serie(is, name)); });
                attempt(c, "serie of another size", [&] { consume(M->serie(uint32_t(r.below(11)), name)); });
            }
        });
    static const Strings more = {"x", "y", "z", "Sxx", "Sxy", "Szz", "Szx", "S0", "S9", "S99999999999999999999", "S-1", "U1", "1", "xx", "positionsx", "positions3", "S1", "S2", "S3", "n", "", "S ", "Ux", "indices0", "\xff"};
    for (int k = 20; k > 0; --k) {
        const std::string &a = r.chance(0.5) ? r.pick(more) : r.pick(names);
        uint32_t is = r.chance(0.8) ? uint32_t(r.below(11)) : number(r);
        attempt(c, "ask", [&] { consume(M->serie(is, a)); });
        attempt(c, "contains", [&] { M->contains(is, a); });
        c.event("asked");
    }
    M.reset();
    for (auto &e : D.series()) consume(e.second);
}

VF_DRIVER("views", 6000, 150000, "Matrix and Vector views of any size from 0 to 12 and any values, operands of other sizes, on temporaries and on themselves; non-trivial: not empty", {{"returned", 30000}, {"threw", 5000}}) {
    Rng &r = c.rng;
    auto vec = [&](size_t n) { return df::Vector(values(r, n, r.chance(0.3) ? K_SPECIAL : K_UNI)); };
    auto square = [&] { uint32_t m = uint32_t(r.below(r.chance(0.7) ? 5 : 13)); Array a = values(r, m * m, r.chance(0.3) ? K_SPECIAL : K_TIES); return std::pair<df::Matrix, uint32_t>(df::Matrix(a, m), m); };
    df::Vector v = vec(r.below(12));
    auto [M, m] = square();
    c.hash.a(v.array()); c.hash.u(m);
    c.nontrivial = m || v.length();
    c.desc = "vector " + std::to_string(v.length()) + " matrix " + std::to_string(m);
    for (int k = int(r.range(3, 14)); k > 0; --k) {
        df::Vector w = r.chance(0.2) ? v : vec(r.chance(0.6) ? v.length() : r.below(12));
        switch (r.below(14)) {
        case 0: attempt(c, "normalize", [&] { v.normalize(); }); break;
        case 1: attempt(c, "norm", [&] { volatile double x = v.norm(); (void)x; }); break;
        case 2: attempt(c, "mult number", [&] { v.mult(odd_number(r)); }); break;
        case 3: attempt(c, "mult", [&] { v.mult(w); }); break;
        case 4: attempt(c, "add", [&] { v.add(w).add(v); }); break;
        case 5: attempt(c, "sub", [&] { v.sub(w).sub(v); }); break;
        case 6: attempt(c, "dot", [&] { volatile double x = v.dot(w); (void)x; }); break;
        case 7: attempt(c, "toString", [&] { v.toString(); }); break;
        case 8: attempt(c, "elements", [&] { double s = 0; for (uint32_t i = 0; i < v.length(); ++i) s += v[i] + v.at(i); for (uint32_t i = 0; i < m; ++i) for (uint32_t j = 0; j < m; ++j) s += M.at(i, j); }); break;
        case 9: attempt(c, "matrix", [&] { M.isSymmetric(); M.trace(); M.array(); M = M.transpose().transpose(); }); break;
        case 10: attempt(c, "multVec", [&] { M.multVec(w); }); break;
        case 11: attempt(c, "multMat", [&] { auto o = square(); M.multMat(o.first); }); break;
        case 12: attempt(c, "multMat itself", [&] { M = M.multMat(M); }); break;
        default: attempt(c, "from array", [&] { Array a = values(r, r.below(40), K_TIES); df::Matrix x = r.chance(0.5) ? df::squaredMatrix(a) : df::symSquaredMatrix(a); x.transpose(); x.array(); });
        }
    }
}
VF_MAIN

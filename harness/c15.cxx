// C15: sort returns an ordered permutation of the items.
#include "dfh.h"
#include <dataframe/functional/utils/sort.h>
using namespace dfh;

namespace {
using Bits = std::vector<uint64_t>;
std::vector<Bits> bits(const Array &a, uint32_t is) {
    std::vector<Bits> o;
    for (size_t i = 0; i + is <= a.size(); i += is) {
        Bits b;
        for (uint32_t k = 0; k < is; ++k) b.push_back(std::bit_cast<uint64_t>(a[i + k]));
        o.push_back(b);
    }
    std::sort(o.begin(), o.end());
    return o;
}
M data(Rng &r) {
    uint32_t is = r.chance(0.35) ? 1 : item_size(r), n = count(r, r.chance(0.05) ? 20000 : 1500);
    Kind k = any_kind(r);
    M m = gen(r, is, n, k, dim(r));
    for (double &x : m.v) if (std::isnan(x)) x = 3;
    double p = r.unit();
    if (n && is > 1 && p < 0.5) {  // equal leading components: the later ones decide
        uint32_t same = uint32_t(r.below(is));
        for (uint32_t i = 0; i < n; ++i)
            for (uint32_t j = 0; j < same; ++j) m.v[size_t(i) * is + j] = r.chance(0.9) ? m.v[j] : m.v[size_t(i) * is + j];
    } else if (n > 1 && p < 0.6) {  // repeated items
        for (uint32_t i = 0; i < n; ++i)
            if (r.chance(0.5)) {
                uint32_t j = uint32_t(r.below(n));
                for (uint32_t q = 0; q < is; ++q) m.v[size_t(i) * is + q] = m.v[size_t(j) * is + q];
            }
    }
    return m;
}
template <class L> void check_sorted(Ctx &c, const M &m, const Serie &g, L &&less, const char *what) {
    check_shape(g, m.is, m.n, "shape", what);
    VF_CHECK(bits(g.asArray(), m.is) == bits(m.v, m.is), "permutation", what << " is no permutation of the items (itemSize " << m.is << ", count " << m.n << ")");
    M s = model(g);
    for (uint32_t i = 0; i + 1 < m.n; ++i) {
        Array a = s.item(i), b = s.item(i + 1);
        VF_CHECK(!less(b, a), "order", what << ": item " << i << " " << show(a) << " comes before " << show(b) << " (itemSize " << m.is << ", count " << m.n << ")");
        if (!less(a, b)) c.event("equal_neighbours");
        c.event("neighbours");
    }
}
bool lex(const Array &a, const Array &b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()); }
} // namespace

VF_DRIVER("sort", 4000, 90000, "sort without comparator: permutation of the items, ordered, input unchanged; non-trivial: at least two items", {{"neighbours", 100000}, {"equal_neighbours", 2000}}) {
    Huge huge_(0.003);
    M m = data(c.rng);
    id(c, m);
    c.nontrivial = m.n > 1;
    c.desc = shape(m);
    Serie s = m.serie();
    Serie g = df::utils::sort(s);
    check_sorted(c, m, g, lex, "sort");
    check_unchanged(s, m, "input-changed");
    // sorting again changes nothing
    VF_CHECK(df::utils::sort(g).asArray() == g.asArray(), "again", "sort changes a sorted Serie");
}

VF_DRIVER("comparator", 4000, 90000, "sort with comparators (reverse, absolute value, partial key, length, generic); non-trivial: at least two items", {{"neighbours", 100000}, {"equal_neighbours", 2000}, {"reverse", 500}, {"partial", 500}}) {
    Huge huge_(0.003);
    Rng &r = c.rng;
    M m = data(r);
    int kind = int(r.below(6));
    uint32_t key = uint32_t(r.below(m.is));
    id(c, m);
    c.hash.u(kind);
    c.hash.u(key);
    c.nontrivial = m.n > 1;
    c.desc = shape(m) + " comparator " + std::to_string(kind);
    Serie s = m.serie();
    auto rev = [](const Array &a, const Array &b) { return lex(b, a); };
    auto part = [key](const Array &a, const Array &b) { return a[key] < b[key]; };
    auto len = [](const Array &a, const Array &b) {
        double x = 0, y = 0;
        for (double v : a) x = std::max(x, fabs(v));
        for (double v : b) y = std::max(y, fabs(v));
        return x < y;
    };
    uint64_t calls = 0;
    switch (kind) {
    case 0: check_sorted(c, m, df::utils::sort(s, std::greater<>{}), rev, "sort in decreasing order"); c.event("reverse"); break;
    case 1: check_sorted(c, m, df::utils::sort(s, rev), rev, "sort in decreasing order"); c.event("reverse"); break;
    case 2: check_sorted(c, m, df::utils::sort(s, part), part, "sort by one component"); c.event("partial"); break;
    case 3: check_sorted(c, m, df::utils::sort(s, len), len, "sort by largest absolute value"); break;
    case 4: check_sorted(c, m, df::utils::sort(s, [&calls](const auto &a, const auto &b) { ++calls; return a < b; }), lex, "sort with a generic comparator");
        VF_CHECK(m.n < 2 || calls > 0, "comparator", "the comparator was not used");
        break;
    default: check_sorted(c, m, df::utils::sort(s, std::less<>{}), lex, "sort with std::less"); break;
    }
    check_unchanged(s, m, "input-changed");
}

VF_DRIVER("patterns", 1500, 20000, "already sorted, reversed, saw-tooth, organ-pipe and constant inputs around the sizes where sort changes its algorithm; non-trivial: always", {{"neighbours", 50000}}) {
    Rng &r = c.rng;
    static const uint32_t ns[] = {2, 3, 15, 16, 17, 18, 31, 32, 33, 64, 100, 255, 256, 257, 1000, 3000};
    uint32_t n = ns[r.below(16)], is = r.chance(0.5) ? 1 : size_between(r, 2, 6), kind = uint32_t(r.below(6));
    if (is > 14) n = std::min(n, 300u);
    M m = tagged(is, n, 0, dim(r));
    for (uint32_t i = 0; i < n; ++i) {
        double k = kind == 0 ? i : kind == 1 ? n - i : kind == 2 ? i % 7 : kind == 3 ? std::min(i, n - i) : kind == 4 ? 1 : (i * 7919u) % n;
        m.v[size_t(i) * is] = k;
    }
    id(c, m);
    c.nontrivial = true;
    c.desc = shape(m) + " pattern " + std::to_string(kind);
    Serie s = m.serie();
    check_sorted(c, m, df::utils::sort(s), lex, "sort");
    check_sorted(c, m, df::utils::sort(s, std::greater<>{}), [](const Array &a, const Array &b) { return lex(b, a); }, "sort in decreasing order");
    check_unchanged(s, m, "input-changed");
}

namespace {
struct Deep {  // a comparator which sorts, with comparators of its own type
    Ctx &c;
    int depth;
    uint64_t salt;
    bool down;
    bool operator()(const Array &a, const Array &b) const {
        if (depth > 0 && vf::mix(salt + uint64_t(std::abs(a[0]) * 16)) % 4 == 0) {
            Serie s(int(a.size()), {}), t = s;
            Array v;
            for (const Array *x : {&a, &b, &a, &b, &b}) v.insert(v.end(), x->begin(), x->end());
            const Array o = df::utils::sort(Serie(int(a.size()), v), Deep{c, depth - 1, vf::mix(salt), down}).asArray();
            const bool first = down ? lex(b, a) : lex(a, b);
            Array want = first ? [&] { Array w; for (const Array *x : {&a, &a, &b, &b, &b}) w.insert(w.end(), x->begin(), x->end()); return w; }()
                               : [&] { Array w; for (const Array *x : {&b, &b, &b, &a, &a}) w.insert(w.end(), x->begin(), x->end()); return w; }();
            if (a != b) VF_CHECK(identical(o, want), "nested", "sort called by a comparator of sort gives " << show(o) << " instead of " << show(want));
            c.event("nested");
        }
        return down ? lex(b, a) : lex(a, b);
    }
};
} // namespace

VF_DRIVER("nested", 600, 10000, "comparators which call sort with a comparator of the same type; non-trivial: always", {{"nested", 20000}, {"neighbours", 5000}}) {
    Rng &r = c.rng;
    M m{uint32_t(r.range(1, 4)), uint32_t(r.range(2, 40)), dim(r), {}};
    for (uint32_t i = 0; i < m.n * m.is; ++i) m.v.push_back(double(r.range(0, 20)) / 4 + 0.25);
    id(c, m);
    c.nontrivial = true;
    c.desc = shape(m);
    const bool down = r.chance(0.5);
    Serie s = m.serie();
    check_sorted(c, m, df::utils::sort(s, Deep{c, int(r.range(1, 2)), r.next(), down}), [down](const Array &a, const Array &b) { return down ? lex(b, a) : lex(a, b); }, "sort whose comparator sorts");
    check_unchanged(s, m, "input-changed");
}
VF_MAIN

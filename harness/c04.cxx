// C04: zip, unzip, merge, concat and partition_n neither lose, duplicate nor
// move data. Values identify their place of origin (tagged) or are arbitrary.
#include "dfh.h"
#include <dataframe/functional/merge.h>
#include <dataframe/functional/utils/concat.h>
#include <dataframe/functional/utils/partition_n.h>
#include <dataframe/functional/utils/unzip.h>
#include <dataframe/functional/utils/zip.h>
using namespace dfh;

namespace {
// Calls f(s[0], ..., s[k-1]) for 1 <= k <= 6
template <class F, class S> auto spread(F &&f, const S &s) {
    switch (s.size()) {
    case 1: return f(s[0]);
    case 2: return f(s[0], s[1]);
    case 3: return f(s[0], s[1], s[2]);
    case 4: return f(s[0], s[1], s[2], s[3]);
    case 5: return f(s[0], s[1], s[2], s[3], s[4]);
    default: return f(s[0], s[1], s[2], s[3], s[4], s[5]);
    }
}
struct Set {
    std::vector<M> m;
    Several s;
};
Set make(Ctx &c, size_t k, int is, int64_t n, bool same_dim = false) {
    Rng &r = c.rng;
    Set o;
    bool tags = r.chance(0.5);
    for (size_t i = 0; i < k; ++i) {
        uint32_t isz = is > 0 ? uint32_t(is) : uint32_t(r.chance(0.4) ? 1 : r.range(2, 9));
        // now and then more components in an item than bits in a word or byte
        if (is <= 0 && n < 300 && r.chance(0.06)) isz = uint32_t(r.range(10, r.chance(0.3) ? 300 : 80));
        uint32_t cnt = n >= 0 ? uint32_t(n) : fewer(isz, count(r, n == -2 ? 12 : 1500));
        unsigned d = same_dim && i ? o.m[0].dim : dim(r);
        M m = tags ? tagged(isz, cnt, double(i) * 1e7, d) : gen(r, isz, cnt, any_kind(r), d);
        id(c, m);
        o.s.push_back(m.serie());
        o.m.push_back(std::move(m));
    }
    if (alias(r, o.s, o.m)) c.event("same_object");
    return o;
}
void same(Ctx &c, const Serie &s, const M &m, const std::string &what) {
    check_same(s, m, "content", what);
    VF_CHECK(identical(s.asArray(), m.v), "content", what << " changed the bits of a value");
    c.event("values", m.v.size());
    c.event("results");
}
void unchanged(const Set &x) {
    for (size_t i = 0; i < x.s.size(); ++i) check_unchanged(x.s[i], x.m[i], "input-changed");
}
std::string describe(const Set &x) {
    std::string o;
    for (auto &m : x.m) o += (o.empty() ? "" : ", ") + std::to_string(m.n) + "x" + std::to_string(m.is);
    return o;
}
} // namespace

VF_DRIVER("zip", 3000, 80000, "zip or zipVector of 1 to 6 Series of the same count, then unzip; non-trivial: at least one item", {{"values", 50000}, {"results", 5000}, {"refused", 200}}) {
    Huge huge_(0.004);
    Rng &r = c.rng;
    size_t k = 1 + r.below(6);
    Set x = make(c, k, 0, count(r, 2000));
    uint32_t n = x.m[0].n;
    c.desc = "zip " + describe(x);
    M z{0, n, x.m[0].dim, {}};
    std::vector<uint32_t> sizes;
    for (auto &m : x.m) { z.is += m.is; sizes.push_back(m.is); }
    for (uint32_t i = 0; i < n; ++i)
        for (auto &m : x.m) { Array a = m.item(i); z.v.insert(z.v.end(), a.begin(), a.end()); }
    Serie a = spread([](const auto &...s) { return df::utils::zip(s...); }, x.s);
    same(c, a, z, "zip");
    Serie b = df::utils::zipVector(x.s.list());
    same(c, b, z, "zipVector");
    unchanged(x);
    Series u = df::utils::unzip(a, sizes);
    VF_CHECK(u.size() == k, "content", "unzip gave " << u.size() << " Series instead of " << k);
    for (size_t i = 0; i < k; ++i) { M m = x.m[i]; m.dim = x.m[0].dim; same(c, u[i], m, "unzip " + std::to_string(i)); }
    check_unchanged(a, z, "input-changed");
    // another cutting of the same items
    std::vector<uint32_t> other;
    for (uint32_t left = z.is; left > 0;) { uint32_t t = uint32_t(r.range(1, left)); other.push_back(t); left -= t; }
    Series o = df::utils::unzip(a, other);
    VF_CHECK(o.size() == other.size(), "content", "unzip gave " << o.size() << " Series instead of " << other.size());
    uint32_t at = 0;
    for (size_t i = 0; i < other.size(); ++i) {
        M m{other[i], n, z.dim, {}};
        for (uint32_t j = 0; j < n; ++j) m.v.insert(m.v.end(), z.v.begin() + size_t(j) * z.is + at, z.v.begin() + size_t(j) * z.is + at + other[i]);
        at += other[i];
        same(c, o[i], m, "unzip");
    }
    // item sizes of 0 among the others: refused, or parts without any number
    std::vector<uint32_t> zeros = other;
    const size_t hole = r.below(zeros.size() + 1);
    zeros.insert(zeros.begin() + hole, 0);
    Series h;
    if (!refused([&] { h = df::utils::unzip(a, zeros); return Serie(1, 1); })) {
        VF_CHECK(h.size() == zeros.size(), "content", "unzip gave " << h.size() << " Series instead of " << zeros.size());
        for (size_t i = 0; i < h.size(); ++i) {
            if (i == hole) VF_CHECK(h[i].asArray().empty(), "content", "unzip with the item sizes " << zeros.size() << " gave " << h[i].asArray().size() << " numbers for an item size of 0");
            else VF_CHECK(identical(h[i].asArray(), o[i - (i > hole)].asArray()) && h[i].itemSize() == zeros[i], "content", "unzip with an item size of 0 gave " << show(h[i]) << " at " << i);
            c.event("zero_sizes");
        }
    }
    // refusals
    std::vector<uint32_t> bad = sizes;
    if (r.chance(0.5)) bad.push_back(1 + uint32_t(r.below(3))); else bad.back() += 1;
    VF_CHECK(throws([&] { df::utils::unzip(a, bad); }), "accepted", "unzip accepted item sizes which do not sum to " << z.is);
    VF_CHECK(throws([&] { df::utils::unzip(a, {}); }), "accepted", "unzip accepted no item sizes");
    VF_CHECK(throws([&] { df::utils::zipVector({}); }), "accepted", "zipVector accepted no Series");
    if (k > 1) {
        Set y = x;
        size_t w = r.below(k);
        M m = gen(r, y.m[w].is, r.chance(0.5) || n == 0 ? n + 1 : n - 1, K_UNI, 3);
        y.s.set(w, m.serie());
        VF_CHECK(throws([&] { spread([](const auto &...s) { return df::utils::zip(s...); }, y.s); }), "accepted", "zip accepted Series of different counts");
        VF_CHECK(throws([&] { df::utils::zipVector(y.s.list()); }), "accepted", "zipVector accepted Series of different counts");
        c.event("refused", 2);
    }
}

VF_DRIVER("lists", 400, 8000, "zipVector, unzip and the list form of concat with 7 to 300 Series, more than 256 components per item; non-trivial: at least one item", {{"values", 50000}, {"results", 5000}}) {
    Rng &r = c.rng;
    size_t k = r.chance(0.6) ? 7 + r.below(30) : 60 + r.below(240);
    Set x = make(c, k, 0, r.below(8));
    uint32_t n = x.m[0].n;
    c.desc = "list of " + std::to_string(k) + " Series of " + std::to_string(n) + " items";
    M z{0, n, x.m[0].dim, {}};
    std::vector<uint32_t> sizes;
    for (auto &m : x.m) { z.is += m.is; sizes.push_back(m.is); }
    for (uint32_t i = 0; i < n; ++i)
        for (auto &m : x.m) { Array a = m.item(i); z.v.insert(z.v.end(), a.begin(), a.end()); }
    Serie a = df::utils::zipVector(x.s.list());
    same(c, a, z, "zipVector");
    Series u = df::utils::unzip(a, sizes);
    VF_CHECK(u.size() == k, "content", "unzip gave " << u.size() << " Series instead of " << k);
    for (size_t i = 0; i < k; ++i) { M m = x.m[i]; m.dim = x.m[0].dim; same(c, u[i], m, "unzip " + std::to_string(i)); }
    unchanged(x);
    Set y = make(c, k, int(r.range(1, 4)), -2, true);
    M cat{y.m[0].is, 0, y.m[0].dim, {}};
    for (auto &m : y.m) { cat.v.insert(cat.v.end(), m.v.begin(), m.v.end()); cat.n += m.n; }
    same(c, df::utils::concat(y.s.list()), cat, "concat list");
    unchanged(y);
}

VF_DRIVER("join", 3000, 80000, "concat and merge (appended or interleaved, two-Serie, variadic and list forms) of 1 to 6 Series of the same item size; non-trivial: at least one item", {{"values", 50000}, {"results", 5000}, {"refused", 200}}) {
    Huge huge_(0.003);
    Rng &r = c.rng;
    size_t k = 1 + r.below(6);
    int is = int(r.chance(0.3) ? 1 : size_between(r, 2, 12));
    Set x = make(c, k, is, r.chance(0.2) ? int64_t(count(r, 300)) : -1);
    c.desc = "join " + describe(x);
    M cat{uint32_t(is), 0, x.m[0].dim, {}}, inter = cat;
    uint32_t mx = 0;
    for (auto &m : x.m) {
        cat.v.insert(cat.v.end(), m.v.begin(), m.v.end());
        cat.n += m.n;
        mx = std::max(mx, m.n);
    }
    for (uint32_t i = 0; i < mx; ++i)
        for (auto &m : x.m)
            if (i < m.n) inter.push(m.item(i));
    same(c, df::utils::concat(x.s.list()), cat, "concat of a list");
    same(c, spread([](const auto &...s) { return df::utils::concat(s...); }, x.s), cat, "concat");
    same(c, spread([](const auto &...s) { return df::merge(true, s...); }, x.s), cat, "merge(true, ...)");
    same(c, spread([](const auto &...s) { return df::merge(false, s...); }, x.s), inter, "merge(false, ...)");
    if (k == 2) {
        same(c, df::merge(x.s[0], x.s[1]), cat, "merge(a, b)");
        same(c, df::merge(x.s[0], x.s[1], true), cat, "merge(a, b, true)");
        same(c, df::merge(x.s[0], x.s[1], false), inter, "merge(a, b, false)");
        same(c, df::merge(x.s[0], x.s[0], false), [&] { M m{uint32_t(is), 0, x.m[0].dim, {}}; for (uint32_t i = 0; i < x.m[0].n; ++i) { m.push(x.m[0].item(i)); m.push(x.m[0].item(i)); } return m; }(), "merge(a, a, false)");
    }
    unchanged(x);
    VF_CHECK(throws([&] { df::utils::concat(std::vector<Serie>{}); }), "accepted", "concat accepted no Series");
    if (k > 1) {
        Set y = x;
        size_t w = r.below(k);
        y.s.set(w, gen(r, uint32_t(is) + 1 + uint32_t(r.below(2)), r.chance(0.3) ? 0 : x.m[w].n, K_UNI, 3).serie());
        bool il = r.chance(0.5);
        VF_CHECK(throws([&] { df::utils::concat(y.s.list()); }), "accepted", "concat accepted different item sizes");
        VF_CHECK(throws([&] { spread([il](const auto &...s) { return df::merge(il, s...); }, y.s); }), "accepted", "merge accepted different item sizes");
        if (k == 2) VF_CHECK(throws([&] { df::merge(y.s[0], y.s[1], il); }), "accepted", "merge(a, b) accepted different item sizes");
        c.event("refused", 2);
    }
}

VF_DRIVER("partition_n", 4000, 100000, "partition_n of one Serie, or of several at once, in 1 to 70 parts, sometimes up to 100000 (more parts than items included); non-trivial: at least one item", {{"values", 50000}, {"results", 5000}, {"fewer_items_than_parts", 50}, {"refused", 100}}) {
    Huge huge_(0.004);
    Rng &r = c.rng;
    bool several = r.chance(0.4);
    size_t k = several ? 2 + r.below(3) : 1;
    uint32_t n = count(r, 5000);
    uint32_t parts = r.chance(0.3) ? uint32_t(r.range(1, 4)) : r.chance(0.4) ? uint32_t(r.range(1, 70)) : r.chance(0.5) ? std::max(1u, n + uint32_t(r.range(0, 2)) - 1) : uint32_t(r.range(5, 33));
    if (parts > 6000) parts = 6000;
    if (r.chance(0.02)) { static const uint32_t many[] = {255, 256, 257, 1000, 65535, 65536, 65537, 100000}; parts = many[r.below(several ? 4 : 8)]; }
    Set x = make(c, k, 0, n);
    c.hash.u(parts);
    c.desc = "partition_n(" + std::to_string(parts) + ") of " + describe(x);
    if (n < parts) c.event("fewer_items_than_parts");
    std::vector<Series> all;
    if (several) all = spread([&](const auto &...s) -> std::vector<Series> {
        if constexpr (sizeof...(s) > 1) return df::utils::partition_n(parts, s...);
        else return {};
    }, x.s);
    else all.push_back(df::utils::partition_n(parts, x.s[0]));
    VF_CHECK(all.size() == k, "content", "partition_n of " << k << " Series gave " << all.size());
    for (size_t i = 0; i < k; ++i) {
        const Series &p = all[i];
        const M &m = x.m[i];
        // parts without items may be left out at the end
        VF_CHECK(p.size() <= parts && p.size() >= std::min<size_t>(parts, n), "parts", "partition_n(" << parts << ") of " << n << " items gave " << p.size() << " parts");
        VF_CHECK(!p.empty(), "parts", "no part");
        uint32_t at = 0;
        for (size_t j = 0; j < p.size(); ++j) {
            uint32_t want = n / parts + (j < n % parts ? 1 : 0);
            M e{m.is, want, m.dim, Array(m.v.begin() + size_t(at) * m.is, m.v.begin() + size_t(std::min(n, at + want)) * m.is)};
            same(c, p[j], e, "part " + std::to_string(j) + " of " + std::to_string(parts));
            at += want;
        }
        VF_CHECK(at == n, "parts", "the parts hold " << at << " of " << n << " items");
        same(c, df::utils::concat(p), m, "concat of the parts");
    }
    unchanged(x);
    VF_CHECK(throws([&] { df::utils::partition_n(0, x.s[0]); }), "accepted", "partition_n accepted 0 parts");
    if (k > 1) {
        Serie o = gen(r, 2, n + 1, K_UNI, 3).serie();
        VF_CHECK(throws([&] { df::utils::partition_n(parts, x.s[0], o); }), "accepted", "partition_n accepted different counts");
        VF_CHECK(throws([&] { df::utils::partition_n(0, x.s[0], x.s[1]); }), "accepted", "partition_n accepted 0 parts");
        c.event("refused");
    }
}
VF_MAIN

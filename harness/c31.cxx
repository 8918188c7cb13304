// C31: unsuitable arguments are refused, suitable ones never.
#include "ops.h"
using namespace ops;

namespace {
std::string outcome(const Got &g) {
    return g.o == THREW ? "an exception (" + g.what + ")" : g.o == INVALID_SERIE ? "an invalid Serie" : "a result: " + show(g.r);
}
void judge(Ctx &c, const Op &op, const Args &a) {
    Fit f = op.suit(a);
    vf::note(op.name);
    Args before = a;
    Got g = run(op, a);
    VF_CHECK(identical(a, before), "arguments-changed-" + op.name, op.name << " changed its arguments " << show(before));
    if (f == REFUSE) {
        VF_CHECK(g.o == THREW || (g.o == INVALID_SERIE && (op.flags & INVALID)), "accepted-" + op.name, op.name << " gives " << outcome(g) << " for the unsuitable arguments " << show(a));
        c.event("refused");
        c.event(g.o == THREW ? "by_exception" : "by_invalid_serie");
    } else if (f == ACCEPT) {
        bool empty = false;
        for (auto &s : a.s) if (!s.count()) empty = true;
        VF_CHECK(g.o == VALUE || (g.o == INVALID_SERIE && empty), "refused-" + op.name, op.name << " gives " << outcome(g) << " for the suitable arguments " << show(a));
        c.event("accepted");
    } else {
        c.event("either");
    }
}
} // namespace

VF_DRIVER("spoiled", 30000, 600000, "suitable arguments of a random operation with 0 to 3 changes (itemSize, count, dimension, invalid, sizes of arrays, numbers out of range); non-trivial: the arguments are certainly suitable or certainly not", {{"refused", 5000}, {"accepted", 8000}, {"by_exception", 4000}, {"by_invalid_serie", 100}}) {
    Rng &r = c.rng;
    const Op &op = all()[c.index % all().size()];
    Args a = op.make(r, 40), good = a;
    VF_CHECK(op.suit(a) == ACCEPT || (op.suit(a) == REFUSE && (op.name.find("wrong") != std::string::npos || op.name.find("beyond") != std::string::npos || op.name.find("ragged") != std::string::npos)) || op.suit(a) == EITHER, "harness", op.name << " makes arguments that do not suit it: " << show(a));
    for (int k = int(r.below(4)); k > 0; --k) spoil(r, a);
    if (op.flags & SORTS) for (double &x : a.d) if (std::isnan(x)) x = 2;
    id(c, a);
    c.hash.s(op.name);
    c.nontrivial = op.suit(a) != EITHER;
    c.desc = op.name + " " + show(a);
    judge(c, op, a);
    judge(c, op, good);  // a refusal leaves nothing behind
}

VF_DRIVER("shapes", 4000, 60000, "per case one pair of item sizes (0 to 10 each), both dimensions, counts equal, one more, one less, double, none, both none: given to every operation; non-trivial: always", {{"refused", 60000}, {"accepted", 30000}}) {
    Rng &r = c.rng;
    // enumerated over the cases
    uint64_t k = c.index;
    uint32_t p = uint32_t(k % 11), q = uint32_t(k / 11 % 11);
    unsigned d = k / 121 % 2 ? 2 : 3;
    uint32_t n = uint32_t(r.range(1, 9)), m;
    switch (k / 242 % 6) { case 0: m = n; break; case 1: m = n + 1; break; case 2: m = n - 1; break; case 3: m = 2 * n; break; case 4: m = 0; break; default: n = m = 0; }
    if (k / 1452 % 2) std::swap(n, m);
    c.hash.u(p); c.hash.u(q); c.hash.u(d); c.hash.u(n); c.hash.u(m);
    c.nontrivial = true;
    c.desc = "itemSizes " + std::to_string(p) + "," + std::to_string(q) + " counts " + std::to_string(n) + "," + std::to_string(m) + " dimension " + std::to_string(d);
    Serie A = p ? any(r, p, n, d) : Serie(), B = q ? any(r, q, m, d) : Serie();
    for (auto &op : all()) {
        Args a = op.make(r, 4);
        if (a.s.empty()) continue;
        a.s[0] = A;
        for (size_t i = 1; i < a.s.size(); ++i) a.s[i] = i == 1 || r.chance(0.5) ? B : A;
        judge(c, op, a);
    }
}

VF_DRIVER("lists", 6000, 120000, "2 to 40 Series alike, often without items, of which one at any place is invalid, has an item more or less, or another item size, given to every operation on several Series; non-trivial: one differs", {{"refused", 3500}, {"accepted", 300}, {"empty", 1200}, {"last", 900}, {"wrap", 50}}) {
    Rng &r = c.rng;
    static const std::vector<const Op *> list = [] { std::vector<const Op *> v; for (auto &o : all()) for (auto n : {"zip", "concat", "merge", "add", "sub", "weigthedSum", "equalityMask", "approximateEqualityMask", "dot", "filter", "reject", "map-t", "forEach-t", "partition_n-", "countAndCheck"}) if (!o.name.compare(0, std::strlen(n), n)) { Rng q(1); if (o.make(q, 3).s.size() > 1 || o.name == "zipVector" || o.name == "concat-list") { v.push_back(&o); break; } } return v; }();
    const Op &op = *list[c.index % list.size()];
    Args a = op.make(r, 12);
    if (a.s.size() < 2) return;
    const bool empty = r.chance(0.3);
    if (empty) {
        for (auto &s : a.s) s = Serie(int(s.itemSize()), 0, s.dimension());
        c.event("empty");
    }
    Args good = a;
    size_t at = r.chance(0.3) ? a.s.size() - 1 : r.below(a.s.size());
    Serie &s = a.s[at];
    const bool wrap = r.chance(0.02);  // apart by 256 or 65536, which narrower integers do not see
    if (wrap) c.event("wrap");
    if (wrap) s = Serie(int(s.itemSize() % 4 + 1), s.count() + (r.chance(0.5) && s.itemSize() < 20 ? 65536u : 256u), s.dimension());
    else switch (r.below(5)) {
    case 0: case 1: s = Serie(); break;
    case 2: s = any(r, s.itemSize(), s.count() + 1, s.dimension()); break;
    case 3: s = any(r, s.itemSize() + 1, s.count(), s.dimension()); break;
    default: s = any(r, s.itemSize(), s.count() ? s.count() - 1 : uint32_t(r.range(1, 9)), s.dimension());
    }
    if (at + 1 == a.s.size()) c.event("last");
    id(c, a);
    c.hash.s(op.name);
    c.nontrivial = true;
    c.desc = op.name + " " + std::to_string(a.s.size()) + " Series, " + std::to_string(at) + " differs: " + show(a);
    judge(c, op, a);
    judge(c, op, good);
}

VF_DRIVER("access", 6000, 120000, "items and numbers of a Serie read and written with every index and item size in reach, right or wrong by one or more; non-trivial: at least one item", {{"refused", 20000}, {"accepted", 20000}}) {
    Rng &r = c.rng;
    M m = gen(r, item_size(r), r.chance(0.05) ? 0 : count(r, 200), any_kind(r), dim(r));
    if (r.chance(0.05)) m = M();
    id(c, m);
    c.nontrivial = m.n;
    c.desc = shape(m);
    Serie s = m.is ? m.serie() : Serie();
    const Serie &k = s;
    auto expect = [&](bool good, const std::string &what, bool threw) {
        VF_CHECK(threw == !good, (good ? "refused-" : "accepted-") + what, what << (threw ? " is refused on " : " is accepted on ") << shape(m));
        c.event(good ? "accepted" : "refused");
    };
    const uint32_t size = uint32_t(m.v.size());
    auto index = [&](uint32_t n) -> uint32_t {
        switch (r.below(8)) {
        case 0: return n;
        case 1: return n + uint32_t(r.range(1, 3));
        case 2: return r.chance(0.5) ? 0xffffffffu - uint32_t(r.below(3)) : 0x80000000u + uint32_t(r.below(5));
        case 3: return n * 2 + uint32_t(r.below(3));
        default: return n ? (r.chance(0.2) ? n - 1 : uint32_t(r.below(n))) : 0;
        }
    };
    for (int step = 0; step < 12; ++step) {
        const uint32_t i = index(m.n), q = index(size);
        expect(i < m.n, "value", throws([&] { (void)k.value(i); }));
        expect(i < m.n, "get-item", throws([&] { (void)k.get<Array>(i); }));
        expect(q < size, "scalar", throws([&] { (void)k.scalar(q); }));
        expect(q < size, "get-number", throws([&] { (void)k.get<double>(q); }));
        uint32_t len = m.is;
        switch (r.below(7)) {
        case 0: len = m.is + 1; break;
        case 1: len = m.is ? m.is - 1 : 2; break;
        case 2: len = uint32_t(r.below(12)); break;
        case 3: len = m.is * 2; break;
        default: break;
        }
        const Array item = values(r, len, any_kind(r));
        const bool good = i < m.n && len == m.is;
        const bool first = r.chance(0.5);
        expect(good, first ? "setValue" : "set-item", throws([&] { if (first) s.setValue(i, item); else s.set(i, item); }));
        if (good) std::copy(item.begin(), item.end(), m.v.begin() + long(i) * long(m.is));
        const double x = value(r, any_kind(r));
        expect(q < size, first ? "setScalar" : "set-number", throws([&] { if (first) s.setScalar(q, x); else s.set(q, x); }));
        if (q < size) m.v[q] = x;
        if (m.is) check_unchanged(s, m, "access-content");
    }
}
VF_MAIN

// C30: no side effects: inputs unchanged, results independent, repeated calls agree.
#include "ops.h"
#include <cfenv>
#include <clocale>
#include <locale>
#include <thread>
using namespace ops;

namespace {
void scribble(Res &r, double v) {
    for (auto &s : r.s) for (double &x : s.asArray()) x = v;
    for (double &x : r.num) x = v;
}
void scribble(Args &a, double v) {
    for (auto &s : a.s) for (double &x : s.asArray()) x = v;
    for (double &x : a.a) x = v;
}
void odd(Rng &r, Args &a, unsigned flags) {  // special values in some places
    for (auto &s : a.s)
        if (s.count() && r.chance(0.6)) {
            Array &v = s.asArray();
            const bool zeros = r.chance(0.3);  // of both signs
            for (size_t k = r.chance(0.4) ? 1 : r.below(v.size()) + 1; k > 0; --k)
                v[r.below(v.size())] = zeros || (flags & SORTS) ? (r.chance(0.5) ? -0.0 : 0.0) : value(r, K_SPECIAL);
        }
    for (double &x : a.a) if (r.chance(0.1)) x = -0.0;
}
// what a program shares with everything it calls
struct Process {
    struct Stream {
        std::ostream &o;
        std::ios::fmtflags flags;
        std::streamsize precision, width;
        char fill;
        std::streambuf *buf;
        explicit Stream(std::ostream &o) : o(o), flags(o.flags()), precision(o.precision()), width(o.width()), fill(o.fill()), buf(o.rdbuf()) {}
        bool same() const { return o.flags() == flags && o.precision() == precision && o.width() == width && o.fill() == fill && o.rdbuf() == buf; }
    } out{std::cout}, err{std::cerr}, log{std::clog};
    int rounding = std::fegetround();
    std::string locale = std::locale().name(), clocale = std::setlocale(LC_ALL, nullptr);
    unsigned seed;
    int first;
    explicit Process(unsigned s) : seed(s) { std::srand(seed); first = std::rand(); std::srand(seed); }
    void check(const std::string &name) const {
        VF_CHECK(out.same() && err.same() && log.same(), "streams", name << " changed the format of a standard stream");
        VF_CHECK(std::fegetround() == rounding, "rounding", name << " changed the rounding mode");
        volatile double tiny = std::numeric_limits<double>::min(), half = 0.5;
        VF_CHECK(tiny * half > 0, "denormals", name << " made denormal numbers zero");
        VF_CHECK(std::locale().name() == locale && clocale == std::setlocale(LC_ALL, nullptr), "locale", name << " changed the locale");
        VF_CHECK(std::rand() == first, "rand", name << " used the random numbers of the program");
    }
};
} // namespace

VF_DRIVER("single", 12000, 250000, "every operation twice on the same arguments, with results and arguments overwritten in between; non-trivial: at least one item", {{"calls", 40000}, {"results_overwritten", 8000}, {"process_states", 8000}}) {
    Huge huge_(0.0008);
    Rng &r = c.rng;
    const Op &op = all()[c.index % all().size()];
    vf::note(op.name);
    Args a = op.make(r, r.chance(0.1) ? 4000 : 200);
    bool mesh = op.name == "normals" || op.name == "areas" || op.name == "manager-mesh";
    if (r.chance(0.3) && !mesh) odd(r, a, op.flags);
    id(c, a);
    c.hash.s(op.name);
    for (auto &s : a.s) if (s.count()) c.nontrivial = true;
    if (a.s.empty()) c.nontrivial = true;
    c.desc = op.name + " " + show(a);
    Args before = a;
    Process process(unsigned(c.index + 1));
    Got g = run(op, a);
    process.check(op.name);
    c.event("process_states");
    VF_CHECK(identical(a, before), "input-" + op.name, op.name << " changed its arguments: " << show(before) << " became " << show(a));
    Got keep = g;
    scribble(g.r, -12345.5);  // the result is its own
    VF_CHECK(identical(a, before), "shared-" + op.name, "writing to the result of " << op.name << " changed its arguments");
    c.event("results_overwritten");
    Got h = run(op, a);
    VF_CHECK(agree(keep, h), "repeat-" + op.name, op.name << " gives " << show(h.r) << h.what << " at the second call instead of " << show(keep.r) << keep.what << " on " << show(before));
    Args copy = before;
    scribble(a, 777);  // the arguments change: what was returned does not
    VF_CHECK(agree(keep, h), "alias-" + op.name, "writing to the arguments of " << op.name << " changed its result");
    Got other = run(op, a);  // another call on other values, in the same places
    Got k = run(op, copy);
    {
        Args fresh = a;
        Got f = run(op, fresh);
        VF_CHECK(agree(f, other), "stale-" + op.name, op.name << " gives " << show(other.r) << other.what << " after its arguments were overwritten, " << show(f.r) << f.what << " for the same values elsewhere");
        // the same again with the values the other way round
        a = before;
        run(op, a);
        for (auto &s : a.s) {
            Array &v = s.asArray();
            if (r.chance(0.5)) std::reverse(v.begin(), v.end());
            else if (v.size() > 1) std::swap(v[r.below(v.size())], v[r.below(v.size())]);
        }
        for (double &x : a.a) if (r.chance(0.5)) x = -x;
        Got g2 = run(op, a);
        Args fresh2 = a;
        Got f2 = run(op, fresh2);
        VF_CHECK(agree(f2, g2), "stale-" + op.name, op.name << " gives " << show(g2.r) << g2.what << " after its arguments were changed, " << show(f2.r) << f2.what << " for the same values elsewhere");
        c.event("changed_in_place", 2);
    }
    VF_CHECK(agree(keep, k), "later-" + op.name, op.name << " gives " << show(k.r) << k.what << " after a call with other values, instead of " << show(keep.r) << keep.what);
    c.event("calls", 9);
}

VF_DRIVER("history", 1500, 30000, "5 to 12 calls of operations, refused ones included, repeated 30 to 80 times in random order, some in another thread; every repetition must give what the first call gave; non-trivial: always", {{"repeats", 50000}, {"in_thread", 500}, {"refusals", 1000}}) {
    Rng &r = c.rng;
    c.nontrivial = true;
    struct Call { const Op *op; Args a, before; Got g; };
    std::vector<Call> calls;
    for (int i = int(r.range(5, 12)); i > 0; --i) {
        const Op &op = all()[r.below(all().size())];
        Call k{&op, op.make(r, r.chance(0.03) ? 3000 : 40), {}, {}};
        if (i > 1 && r.chance(0.4)) calls.push_back(Call{&op, op.make(r, 40), {}, {}});  // the same operation on something else
        if (r.chance(0.2)) unsuit(r, op, k.a);
        else if (r.chance(0.2) && k.a.s.size() > 1) k.a.s[0] = any(r, k.a.s[0].itemSize() + 1, k.a.s[0].count() + 1, 3);
        calls.push_back(k);
    }
    for (auto &k : calls) {
        k.before = k.a;
        vf::note(k.op->name);
        k.g = run(*k.op, k.a);
        id(c, k.a);
        c.desc += k.op->name + " ";
        if (k.g.o == THREW) c.event("refusals");
    }
    auto again = [&](Call &k) {
        vf::note(k.op->name);
        Got g = run(*k.op, k.a);
        VF_CHECK(agree(k.g, g), "history-" + k.op->name, k.op->name << " gives " << show(g.r) << g.what << " instead of " << show(k.g.r) << k.g.what << " when repeated after other operations");
        VF_CHECK(identical(k.a, k.before), "history-input-" + k.op->name, "the arguments of " << k.op->name << " changed");
    };
    for (int i = int(r.range(30, 80)); i > 0; --i) { again(calls[r.below(calls.size())]); c.event("repeats"); }
    if (r.chance(0.5)) {
        Call &k = calls[r.below(calls.size())];
        Got g;
        std::thread([&] { g = run(*k.op, k.a); }).join();
        VF_CHECK(agree(k.g, g), "thread-" + k.op->name, k.op->name << " gives something else in another thread");
        c.event("in_thread");
    }
    VF_CHECK(std::fegetround() == FE_TONEAREST, "rounding", "the rounding mode was changed");
}

VF_DRIVER("dataframe", 3000, 60000, "operations on Series inside a Dataframe and through a Manager: the Dataframe and everything else in it stays as it is; non-trivial: always", {{"calls", 20000}}) {
    Rng &r = c.rng;
    c.nontrivial = true;
    df::Dataframe D;
    Model w;
    uint32_t n = count1(r, 40);
    unsigned d = dim(r);
    Series parts;
    static const uint32_t sizes[] = {1, 1, 2, 3, 3, 4, 6, 9};
    int k = int(r.range(2, 6));
    for (int i = 0; i < k; ++i) w["s" + std::to_string(i)] = gen(r, sizes[r.below(8)], n, tame_kind(r), d);
    if (r.chance(0.5)) mesh(r, w, n, uint32_t(r.range(1, 20)));
    for (auto &[name, m] : w) { D.add(name, m.serie()); dfh::id(c, m); }
    c.desc = std::to_string(w.size()) + " Series of " + std::to_string(n) + " items";
    const df::Dataframe &K = D;
    auto intact = [&](const std::string &after) {
        VF_CHECK(K.series().size() == w.size(), "dataframe-" + after, after << " changed the names of a Dataframe");
        for (auto &[name, m] : w) {
            VF_CHECK(K.contains(name), "dataframe-" + after, after << " removed a Serie of a Dataframe");
            check_unchanged(K[name], m, "dataframe-" + after, name);
        }
    };
    df::Manager mng(D, {}, d);
    mng.add(new df::Components());
    mng.add(new df::Coordinates());
    mng.add(new df::EigenValues());
    mng.add(new df::EigenVectors());
    if (w.count("indices")) { mng.add(new df::Normals("n")); mng.add(new df::Area("a")); mng.add(new df::Valence("v")); }
    for (int i = 0; i < 8; ++i) {
        if (r.chance(0.4)) {
            uint32_t is = uint32_t(r.range(1, 3));
            Strings names = mng.names(is), again = mng.names(is);
            VF_CHECK(names == again, "names", "names differ at the second call");
            intact("Manager-names");
            if (names.empty()) continue;
            const String &name = names[r.below(names.size())];
            Serie s = mng.serie(is, name), t = mng.serie(is, name);
            VF_CHECK(same(s, t), "manager-repeat", name << " differs at the second call");
            for (double &x : s.asArray()) x = 99;
            intact("Manager-serie");
            VF_CHECK(same(mng.serie(is, name), t), "manager-shared", "writing to what the Manager gave changes what it gives");
            mng.serie(is, "no such name");
            mng.contains(is, name);
            intact("Manager-contains");
            c.event("calls", 4);
        } else {
            const Op &op = all()[r.below(all().size())];
            Args a = op.make(r, 4);
            std::vector<const Serie *> in;
            for (auto &s : a.s) s = K[r.chance(0.5) || !w.count("s1") ? "s0" : "s1"];
            vf::note(op.name);
            run(op, a);
            K["no such name"];
            intact(op.name);
            c.event("calls");
        }
    }
}
VF_MAIN

// C32: the helpers that count, compare, search, transform and report.
#include "dfh.h"
#include <algorithm>
#include <list>
#include <dataframe/functional/utils/print.h>
#include <dataframe/utils.h>
#include <dataframe/utils/nameOfSerie.h>
#include <dataframe/utils/utils.h>
using namespace dfh;
namespace ut = df::utils;

namespace {
template <class F> auto of_size(size_t k, F &&f) {
    switch (k) {
    case 1: return f(std::make_index_sequence<1>{});
    case 2: return f(std::make_index_sequence<2>{});
    case 3: return f(std::make_index_sequence<3>{});
    case 4: return f(std::make_index_sequence<4>{});
    case 5: return f(std::make_index_sequence<5>{});
    case 8: return f(std::make_index_sequence<8>{});
    case 17: return f(std::make_index_sequence<17>{});
    default: return f(std::make_index_sequence<40>{});
    }
}
std::string word(Rng &r) {
    static const char *p[] = {"", "U", "stress", "S\xc3\xa9rie", "a b", "tab\t", "%s", "\033[0m", "Info : ", "line\nbreak", "error"};
    std::string w = r.chance(0.5) ? p[r.below(11)] : "w" + std::to_string(r.below(5000));
    if (r.chance(0.03)) w += std::string(r.below(5000), 'x');
    return w;
}
size_t times(const std::string &t, const std::string &w) {
    size_t k = 0;
    for (size_t at = t.find(w); at != std::string::npos; at = t.find(w, at + 1)) ++k;
    return k;
}
// the two standard streams while it lives
struct Capture {
    std::ostringstream out, err;
    std::streambuf *o = std::cout.rdbuf(out.rdbuf()), *e = std::cerr.rdbuf(err.rdbuf());
    ~Capture() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};
} // namespace

VF_DRIVER("counts", 4000, 100000, "count, getCount and countAndCheck of 1 to 40 Series whose counts agree or differ in one place; non-trivial: at least two Series", {{"agree", 800}, {"differ", 800}, {"differ_last", 100}, {"counts", 8000}}) {
    Rng &r = c.rng;
    static const size_t ks[] = {1, 2, 3, 4, 5, 8, 17, 40};
    const size_t k = ks[r.below(8)];
    const uint32_t n = r.chance(0.05) ? uint32_t(r.range(60000, 70000)) : r.chance(0.1) ? uint32_t(r.range(250, 260)) : count(r, 300);
    std::vector<uint32_t> want(k, n);
    size_t at = 0;
    const bool differ = k > 1 && r.chance(0.5);
    if (differ) {
        at = r.chance(0.3) ? k - 1 : r.chance(0.3) ? 0 : r.below(k);
        static const int d[] = {1, -1, 2, 256, 65536, -256};
        int64_t x = int64_t(n) + d[r.below(6)];
        if (x < 0 || x > 140000) x = n + 1;
        want[at] = uint32_t(x);
        if (r.chance(0.2)) for (size_t i = 0; i < k; ++i) if (i != at && r.chance(0.3)) want[i] = uint32_t(r.below(300));
    }
    bool same = true;
    for (uint32_t w : want) same = same && w == want[0];
    std::vector<Serie> s;
    for (size_t i = 0; i < k; ++i) s.emplace_back(n > 5000 ? 1u : uint32_t(r.range(1, 7)), want[i]);
    for (uint32_t w : want) c.hash.u(w);
    c.nontrivial = k > 1;
    c.desc = std::to_string(k) + " Series of " + std::to_string(n) + (same ? "" : ", one of " + std::to_string(want[at]) + " at " + std::to_string(at));
    auto as_wanted = [&](const auto &got, const char *what) {
        VF_CHECK(got.size() == k, what, what << " gave " << got.size() << " counts for " << c.desc);
        for (size_t i = 0; i < k; ++i) VF_CHECK(got[i] == want[i], what, what << " gave " << got[i] << " for Serie " << i << " of " << want[i] << " items");
        c.event("counts");
    };
    as_wanted(ut::getCount(s), "getCount");
    as_wanted(of_size(k, [&]<size_t... K>(std::index_sequence<K...>) { auto a = ut::count(s[K]...); return std::vector<size_t>(a.begin(), a.end()); }), "count");
    auto checked = [&](auto &&call, const char *what) {
        bool bad = false;
        std::string message;
        std::vector<size_t> got;
        try { got = call(); } catch (const std::exception &e) { bad = true; message = e.what(); }
        if (!bad) as_wanted(got, what);
        VF_CHECK(bad == !same, what, what << (bad ? " refused " : " accepted ") << c.desc);
        if (bad) VF_CHECK(!message.empty(), what, what << " refused without a message");
    };
    checked([&] { return ut::countAndCheck(s); }, "countAndCheck of a list");
    checked([&] { return of_size(k, [&]<size_t... K>(std::index_sequence<K...>) { auto a = ut::countAndCheck(s[K]...); return std::vector<size_t>(a.begin(), a.end()); }); }, "countAndCheck");
    c.event(same ? "agree" : "differ");
    if (!same && at == k - 1) c.event("differ_last");
    VF_CHECK(ut::getCount({}).empty() && ut::countAndCheck(std::vector<Serie>{}).empty(), "none", "counts of no Series");
}

VF_DRIVER("search", 5000, 100000, "contains, map over a std::vector and nameOfSerie; non-trivial: at least one element", {{"found", 500}, {"missing", 500}, {"found_last", 100}, {"mapped", 20000}, {"named", 500}, {"named_empty", 1000}, {"unnamed", 500}}) {
    Rng &r = c.rng;
    const uint32_t n = r.chance(0.05) ? 0 : r.chance(0.05) ? uint32_t(r.range(200, 3000)) : uint32_t(r.range(1, 30));
    std::vector<std::string> w;
    for (uint32_t i = 0; i < n; ++i) w.push_back(word(r));
    std::string x = word(r);
    if (n && r.chance(0.5)) x = r.chance(0.3) ? w.back() : r.chance(0.3) ? w[0] : w[r.below(n)];
    if (r.chance(0.2) && !x.empty()) x.pop_back();
    std::set<std::string> known(w.begin(), w.end());
    for (auto &z : w) c.hash.s(z);
    c.hash.s(x);
    c.nontrivial = n > 0;
    c.desc = "\"" + x.substr(0, 40) + "\" in " + std::to_string(n) + " words";
    VF_CHECK(df::contains(w, x) == bool(known.count(x)), "contains", "contains says " << df::contains(w, x) << " for " << c.desc);
    c.event(known.count(x) ? "found" : "missing");
    if (n && w.back() == x) c.event("found_last");
    Array a;
    for (uint32_t i = 0; i < n; ++i) a.push_back(double(r.range(-20, 20)) / 4);
    double y = double(r.range(-20, 20)) / 4;
    VF_CHECK(df::contains(a, y) == (std::count(a.begin(), a.end(), y) > 0), "contains", "contains says " << df::contains(a, y) << " for " << y << " in " << show(a));
    std::vector<int> ints(a.begin(), a.end());
    VF_CHECK(df::contains(ints, int(y)) == (std::count(ints.begin(), ints.end(), int(y)) > 0), "contains", "contains says " << df::contains(ints, int(y)) << " for " << int(y));
    // map: once per element, in order
    std::vector<std::string> seen;
    auto m = df::map<std::string>(w, [&](const std::string &z) { seen.push_back(z); return z + "/" + std::to_string(seen.size()); });
    VF_CHECK(seen == w && m.size() == w.size(), "map", "map called its function for " << seen.size() << " elements and gave " << m.size() << " of " << n);
    for (size_t i = 0; i < m.size(); ++i) VF_CHECK(m[i] == w[i] + "/" + std::to_string(i + 1), "map", "element " << i << " of map is " << m[i]);
    // numbers, with repeats next to each other and a function that remembers
    if (a.size() > 1 && r.chance(0.3)) for (size_t i = 1; i < a.size(); ++i) if (r.chance(0.5)) a[i] = a[i - 1];
    size_t calls = 0;
    auto d = df::map<double>(a, [&](double v) { return 2 * v + double(calls++); });
    VF_CHECK(d.size() == a.size() && calls == a.size(), "map", "map called its function " << calls << " times and gave " << d.size() << " of " << a.size() << " numbers");
    for (size_t i = 0; i < d.size(); ++i) VF_CHECK(d[i] == 2 * a[i] + double(i), "map", "number " << i << " of map is " << d[i]);
    calls = 0;
    auto di = df::map<int>(ints, [&](int v) { return (v / 2) ^ int(calls++); });
    VF_CHECK(di.size() == ints.size() && calls == ints.size(), "map", "map called its function " << calls << " times and gave " << di.size() << " of " << ints.size() << " integers");
    for (size_t i = 0; i < di.size(); ++i) VF_CHECK(di[i] == ((ints[i] / 2) ^ int(i)), "map", "integer " << i << " of map is " << di[i]);
    c.event("mapped", m.size());
    // nameOfSerie: by identity
    df::Dataframe f;
    std::set<std::string> names;
    for (uint32_t i = 0; i < n && i < 12; ++i) {
        static const int shapes[][2] = {{2, 1}, {2, 1}, {1, 0}, {1, 0}, {0, 0}, {0, 0}, {3, 0}, {1, 1}};
        const auto &s = shapes[r.below(8)];
        f.add(w[i], Serie(s[0], Array(s[0] * s[1], 1.0), r.chance(0.5) ? 2 : 3));
        names.insert(w[i]);
        if (s[1] == 0) c.event("named_empty");
    }
    const df::Dataframe &cf = f;
    for (const auto &p : cf.series()) {
        VF_CHECK(df::nameOfSerie(cf, p.second) == p.first, "nameOfSerie", "nameOfSerie gave \"" << df::nameOfSerie(cf, p.second) << "\" for \"" << p.first << "\"");
        c.event("named");
    }
    Serie other(2, Array{1, 2});
    VF_CHECK(df::nameOfSerie(cf, other).empty(), "nameOfSerie", "a Serie outside of the Dataframe has the name " << df::nameOfSerie(cf, other));
    if (!names.empty()) {
        Serie copy = f.get(*names.begin());
        df::Dataframe twin = f;
        VF_CHECK(df::nameOfSerie(cf, copy).empty() && df::nameOfSerie(twin, cf.series().begin()->second).empty(), "nameOfSerie", "a copy of a Serie has a name");
    }
    c.event("unnamed");
}

VF_DRIVER("messages", 4000, 100000, "info, log, warning and error: the message once, on the stream it belongs to, nothing on the other; non-trivial: always", {{"cout", 500}, {"cerr", 500}, {"log_many", 60}, {"log_empty", 20}, {"null", 60}}) {
    Rng &r = c.rng;
    std::string m = word(r);
    if (r.chance(0.05)) { m += std::string("a\0b", 3); c.event("null"); }
    const std::string id = "<" + std::to_string(r.below(1u << 30)) + ">" + m + "<end>";
    const double x = double(r.range(-1000, 1000)) / 8;
    const int k = int(r.range(-100000, 100000));
    c.hash.s(id);
    c.nontrivial = true;
    const uint64_t what = r.below(4);
    c.desc = std::to_string(what) + " " + id.substr(0, 60);
    std::string out, err, wanted;
    {
        Capture cap;
        switch (what) {
        case 0: df::info(id); break;
        case 1: df::warning(id); break;
        case 2: df::error(id); break;
        default: {
            const std::string w1 = word(r), w2 = word(r);
            const bool yes = r.chance(0.5);
            const char ch = "a \n0"[r.below(4)];
            std::ostringstream e;
            switch (r.below(8)) {
            case 0: df::log(id); e << id; break;
            case 1: df::log(id, w1); e << id << ' ' << w1; break;
            case 2: df::log(w1, id, w2); e << w1 << ' ' << id << ' ' << w2; break;
            case 3: df::log(x, yes, ch, id, x); e << x << ' ' << yes << ' ' << ch << ' ' << id << ' ' << x; break;
            case 4: df::log(id, "", w1.c_str(), "", k); e << id << "  " << w1.c_str() << "  " << k; break;
            case 5: df::log(id, std::string(), std::string(), x, x); e << id << "   " << x << ' ' << x; break;
            case 6: df::log(id, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, w1, k, w2, x); e << id << " 0 1 2 3 4 5 6 7 8 9 10 11 " << w1 << ' ' << k << ' ' << w2 << ' ' << x; c.event("log_many"); break;
            default: df::log(id, x, k, "last"); e << id << ' ' << x << ' ' << k << " last";
            }
            if (w1.empty()) c.event("log_empty");
            wanted = e.str();
        }
        }
        out = cap.out.str();
        err = cap.err.str();
    }
    const bool to_err = what == 1 || what == 2;
    const std::string &there = to_err ? err : out, &not_there = to_err ? out : err;
    VF_CHECK(not_there.empty(), "stream", "wrote " << not_there << " on the wrong stream");
    VF_CHECK(times(there, id) == 1, "message", "the message " << id << " is " << times(there, id) << " times in " << there.substr(0, 300));
    if (what == 3) {
        VF_CHECK(there == wanted || there == wanted + "\n", "log", "log wrote " << there.substr(0, 300) << " instead of " << wanted.substr(0, 300));
    } else {
        static const char *kind[] = {"Info", "Warn", "Error"};
        const size_t at = there.find(kind[what]);
        VF_CHECK(at != std::string::npos && at < there.find(id), "kind", there.substr(0, 300) << " does not begin with " << kind[what]);
        VF_CHECK(!there.empty() && there.back() == '\n', "line", "no end of line");
    }
    c.event(to_err ? "cerr" : "cout");
}
VF_MAIN

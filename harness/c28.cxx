// C28: what streaming, print and dump write, and where.
#include "dfh.h"
#include <dataframe/functional/utils/print.h>
using namespace dfh;

namespace {
// everything the process writes while it lives: the C++ streams and file descriptor 1
struct Capture {
    std::ostringstream out, err, log;
    std::streambuf *o, *e, *l;
    int saved, file;
    static int memfile() {
        static int f = memfd_create("out", 0);
        return f;
    }
    Capture() {
        std::cout.flush();
        fflush(stdout);
        o = std::cout.rdbuf(out.rdbuf());
        e = std::cerr.rdbuf(err.rdbuf());
        l = std::clog.rdbuf(log.rdbuf());
        saved = dup(1);
        file = memfile();
        if (ftruncate(file, 0)) abort();
        lseek(file, 0, SEEK_SET);
        dup2(file, 1);
    }
    ~Capture() { stop(); }
    long bytes = 0;  // written to the file descriptor past std::cout
    void stop() {
        if (saved < 0) return;
        fflush(stdout);
        bytes = long(lseek(file, 0, SEEK_CUR));
        dup2(saved, 1);
        close(saved);
        saved = -1;
        std::cout.rdbuf(o);
        std::cerr.rdbuf(e);
        std::clog.rdbuf(l);
    }
};
using Tokens = std::vector<std::string>;
// the numbers of a text, as written
Tokens numbers(const std::string &t) {
    Tokens v;
    std::string w;
    auto end = [&] {
        if (w.size()) {
            char *e = nullptr;
            std::strtod(w.c_str(), &e);
            if (!*e) v.push_back(w);
        }
        w.clear();
    };
    for (char c : t)
        if (std::strchr(" \t\r\n[](){},:;=\"#|", c) && c) end(); else w += c;
    end();
    return v;
}
std::string join(const Tokens &t) {
    std::string o;
    for (size_t i = 0; i < t.size() && i < 60; ++i) o += (i ? " " : "") + t[i];
    return o;
}
struct Format {
    std::ios_base::fmtflags flags;
    std::streamsize precision;
    char fill;
    explicit Format(std::ostream &o) : flags(o.flags()), precision(o.precision()), fill(o.fill()) {}
    bool operator==(const Format &f) const { return flags == f.flags && precision == f.precision && fill == f.fill; }
    void set(std::ostream &o) const { o.flags(flags); o.precision(precision); o.fill(fill); }
};
template <class T> std::string text(const Format &f, T x) {
    std::ostringstream o;
    f.set(o);
    o << x;
    return o.str();
}
void random_format(Rng &r, std::ostream &o) {
    o.precision(r.chance(0.4) ? 6 : r.chance(0.5) ? 17 : int(r.range(1, 20)));
    switch (r.below(4)) {
    case 0: o << std::scientific; break;
    case 1: o << std::showpoint; break;
    case 2: o << std::fixed; break;
    default: break;
    }
    if (r.chance(0.15)) o << std::showpos;
    if (r.chance(0.15)) o << std::uppercase;
}
void header(Tokens &t, const Format &f, const M &m) { t.push_back(text(f, m.is)); t.push_back(text(f, m.n)); t.push_back(text(f, m.dim)); }
void vals(Tokens &t, const Format &f, const Array &a) { for (double x : a) t.push_back(text(f, x)); }
void same_tokens(const std::string &got, const Tokens &want, const std::string &key) {
    Tokens g = numbers(got);
    VF_CHECK(g == want, key, key << " wrote the numbers " << join(g) << " instead of " << join(want) << "; the text is " << got.substr(0, 400));
}
void silent(Capture &k, bool out, bool err, const std::string &key) {
    k.stop();
    VF_CHECK(out || k.out.str().empty(), key + "-cout", key << " wrote to the standard output: " << k.out.str().substr(0, 200));
    VF_CHECK(err || (k.err.str().empty() && k.log.str().empty()), key + "-cerr", key << " wrote to the standard error: " << (k.err.str() + k.log.str()).substr(0, 200));
    VF_CHECK(k.bytes == 0, key + "-stdout", key << " wrote " << k.bytes << " bytes to the standard output past std::cout");
}
M one(Rng &r) {
    M m = gen(r, item_size(r), r.chance(0.1) ? 0 : count(r, 60), any_kind(r), dim(r));
    return m;
}
std::string name(Rng &r) {
    static const char *p[] = {"positions", "U", "a name", "S\xc3\xa9rie", "x y z", "n.", "[0]", "a,b", "%d %s", "long long long long long name of a property", "tab\tbed", "q\"uote"};
    if (r.chance(0.08)) return std::string(size_t(r.range(40, 700)), char('b' + r.below(20))) + "n" + std::to_string(r.below(1000));
    return r.chance(0.5) ? p[r.below(12)] : "n" + std::to_string(r.below(1000));
}
} // namespace

VF_DRIVER("stream", 12000, 300000, "an array, a list of names, a Serie or a list of Series streamed into a string stream (any number format), std::cout or std::cerr; the numbers and names of the text, the streams written and the format left behind; non-trivial: something to write",
          {{"arrays", 1500}, {"names", 1500}, {"series", 1500}, {"lists", 1500}, {"to_cout", 600}, {"to_cerr", 600}, {"numbers_seen", 100000}}) {
    Rng &r = c.rng;
    int where = r.chance(0.7) ? 0 : r.chance(0.5) ? 1 : 2;
    std::ostringstream mine;
    Format cf(std::cout), ef(std::cerr);
    std::ostream &o = where == 0 ? static_cast<std::ostream &>(mine) : where == 1 ? std::cout : std::cerr;
    if (where == 0 || r.chance(0.3)) random_format(r, o);
    Format f(o);
    Tokens want;
    Strings names;
    std::string key;
    bool back = false;
    Capture cap;
    switch (r.below(4)) {
    case 0: {
        key = "array";
        c.event("arrays");
        const Array a = values(r, r.chance(0.1) ? 0 : count(r, 100), any_kind(r)), b = a;
        c.hash.a(a);
        c.nontrivial = a.size();
        vals(want, f, a);
        back = &(o << a) == &o;
        VF_CHECK(dfh::identical(a, b), "array-changed", "streaming changed the array");
        break;
    }
    case 1: {
        key = "names";
        c.event("names");
        for (int k = int(r.chance(0.02) ? r.range(90, 400) : r.below(8)); k > 0; --k) names.push_back(name(r));
        for (auto &n : names) c.hash.s(n);
        c.nontrivial = names.size();
        back = &(o << names) == &o;
        break;
    }
    case 2: {
        key = "serie";
        c.event("series");
        M m = one(r);
        id(c, m);
        header(want, f, m);
        vals(want, f, m.v);
        const Serie s = m.serie();
        back = &(o << s) == &o;
        check_unchanged(s, m, "serie-changed");
        break;
    }
    default: {
        key = "list";
        c.event("lists");
        Series all;
        std::vector<M> ms;
        if (r.chance(0.02)) for (int k = int(r.range(90, 300)); k > 0; --k) ms.push_back(gen(r, uint32_t(r.range(1, 3)), uint32_t(r.range(1, 3)), K_SMALLINT, dim(r)));
        else for (int k = int(r.below(5)); k > 0; --k) ms.push_back(one(r));
        want.push_back(text(f, ms.size()));
        for (auto &m : ms) { id(c, m); all.push_back(m.serie()); header(want, f, m); vals(want, f, m.v); }
        c.nontrivial = ms.size();
        back = &(o << all) == &o;
    }
    }
    cap.stop();
    Format after(o);
    std::string t = where == 0 ? mine.str() : where == 1 ? cap.out.str() : cap.err.str();
    cf.set(std::cout);
    ef.set(std::cerr);
    VF_CHECK(back, key + "-returns", "operator<< does not return its stream");
    VF_CHECK(after == f, key + "-format", "operator<< left another number format on the stream");
    silent(cap, where == 1, where == 2, key);
    if (where == 1) c.event("to_cout");
    if (where == 2) c.event("to_cerr");
    c.desc = key + " " + join(want);
    if (key == "names") {
        // each on a line of its own, in order
        Strings lines;
        std::istringstream in(t);
        for (std::string l; std::getline(in, l);) {
            size_t a = l.find_first_not_of(' ');
            if (a != std::string::npos) lines.push_back(l.substr(a));
        }
        VF_CHECK(lines == names, key, "the list of names " << [&] { std::string s; for (auto &n : names) s += n + "|"; return s; }() << " is written as " << t);
        c.event("names_seen", names.size());
    } else {
        same_tokens(t, want, key);
        c.event("numbers_seen", want.size());
    }
}

VF_DRIVER("print", 8000, 200000, "df::utils::print of one to four Series and df::print of an array: everything on the standard output, item by item; non-trivial: at least one item",
          {{"single", 1500}, {"several", 1500}, {"items", 20000}}) {
    Rng &r = c.rng;
    int k = int(r.below(5));
    std::vector<M> ms;
    Tokens want;
    Format f(std::cout);
    if (r.chance(0.5)) random_format(r, std::cout);
    Format g(std::cout);
    for (int i = 0; i < std::max(1, k); ++i) ms.push_back(one(r));
    for (size_t i = 0; i < ms.size(); ++i) {
        id(c, ms[i]);
        if (ms.size() > 1) want.push_back(text(g, i + 1));
        header(want, g, ms[i]);
        vals(want, g, ms[i].v);
    }
    c.desc = join(want);
    std::vector<Serie> s;
    for (auto &m : ms) s.push_back(m.serie());
    Capture cap;
    switch (ms.size()) {
    case 1: df::utils::print(s[0]); break;
    case 2: df::utils::print(s[0], s[1]); break;
    case 3: df::utils::print(s[0], s[1], s[2]); break;
    default: df::utils::print(s[0], s[1], s[2], s[3]);
    }
    cap.stop();
    Format after(std::cout);
    f.set(std::cout);
    c.event(ms.size() == 1 ? "single" : "several");
    for (size_t i = 0; i < s.size(); ++i) check_unchanged(s[i], ms[i], "print-changed");
    VF_CHECK(after == g, "print-format", "print left another number format on std::cout");
    silent(cap, true, false, "print");
    std::string t = cap.out.str();
    same_tokens(t, want, "print");
    // vector items are bracketed one by one
    std::vector<Tokens> items;
    for (size_t a = t.find('('); a != std::string::npos; a = t.find('(', a + 1)) items.push_back(numbers(t.substr(a, t.find(')', a) - a)));
    size_t at = 0;
    for (auto &m : ms) {
        if (m.is > 1)
            for (uint32_t i = 0; i < m.n; ++i, ++at) {
                Tokens w;
                vals(w, g, m.item(i));
                VF_CHECK(at < items.size() && items[at] == w, "print-item", "item " << i << " " << join(w) << " is not written as one item in " << t.substr(0, 400));
            }
        c.event("items", m.n);
    }
    VF_CHECK(at == items.size(), "print-item", items.size() << " items written, " << at << " expected");
}

VF_DRIVER("dump", 5000, 100000, "dump of a Serie (index and values of each item), of a Dataframe (names, itemSizes and counts) and df::print of an array, on the standard error; non-trivial: something to write", {{"serie", 1000}, {"dataframe", 1000}, {"long", 2}}) {
    Rng &r = c.rng;
    Tokens want;
    Format g(std::cerr);
    std::string key;
    Capture cap;
    switch (r.below(3)) {
    case 0: {
        key = "dump-serie";
        c.event("serie");
        M m = r.chance(c.thorough ? 0.0005 : 0.004) ? gen(r, 1, uint32_t(r.range(65530, 70000)), K_UNI) : one(r);
        if (m.n > 60000) c.event("long");
        id(c, m);
        for (uint32_t i = 0; i < m.n; ++i) { want.push_back(text(g, i)); vals(want, g, m.item(i)); }
        m.serie().dump();
        break;
    }
    case 1: {
        key = "dump-dataframe";
        c.event("dataframe");
        df::Dataframe d;
        std::map<std::string, M> w;
        uint32_t n = uint32_t(r.range(1, 30));
        for (int k = int(r.below(6)); k > 0; --k) {
            std::string nm = "n" + std::to_string(r.below(50)) + "x";
            if (r.chance(0.2)) nm += std::string(size_t(r.range(10, 700)), char('x' + r.below(3))); // one word for numbers()
            if (r.chance(0.1)) nm = "S\xc3\xa9rie%dx" + nm;
            w[nm] = gen(r, item_size(r), n, K_UNI);
        }
        for (auto &[k, m] : w) { d.add(k, m.serie()); id(c, m); }
        c.nontrivial = w.size();
        d.dump();
        cap.stop();
        // one line per Serie: its name, itemSize and count
        std::istringstream in(cap.err.str());
        std::set<std::string> left;
        for (auto &e : w) left.insert(e.first);
        for (std::string l; std::getline(in, l);) {
            if (l.find_first_not_of(' ') == std::string::npos) continue;
            std::string found;
            for (auto &n : left) if (l.find("\"" + n + "\"") != std::string::npos) found = n;
            VF_CHECK(found.size(), key, "unexpected line " << l);
            left.erase(found);
            VF_CHECK((numbers(l) == Tokens{text(g, w[found].is), text(g, w[found].n)}), key, "line " << l << " for itemSize " << w[found].is << ", count " << w[found].n);
        }
        VF_CHECK(left.empty(), key, "no line for " << *left.begin() << " in " << cap.err.str());
        break;
    }
    default: {
        key = "print-array";
        const Array a = values(r, count(r, 60), any_kind(r));
        c.hash.a(a);
        c.nontrivial = a.size();
        vals(want, g, a);
        df::print(a);
    }
    }
    silent(cap, false, true, key);
    if (key != "dump-dataframe") same_tokens(cap.err.str(), want, key);
    c.desc = key + " " + join(want);
}
VF_MAIN

// Shared core of all harnesses: seeded cases, crash breadcrumbs, violation
// records, observation counters. Only the public API of /repo is used by the
// harnesses; this file does not depend on /repo at all.
#pragma once
#include <algorithm>
#include <atomic>
#include <bit>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vf {

// ------------------------------------------------------------ random numbers
inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
    uint64_t next() { return s = mix(s); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + int64_t(below(uint64_t(b - a) + 1)); }
    double unit() { return double(next() >> 11) * 0x1p-53; }
    double uni(double a, double b) { return a + (b - a) * unit(); }
    bool chance(double p) { return unit() < p; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    template <class T> void shuffle(std::vector<T> &v) {
        for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]);
    }
};

// ------------------------------------------------------------ hashing
struct Hash {
    uint64_t h = 0x243f6a8885a308d3ull;
    void u(uint64_t v) { h = mix(h ^ v); }
    void d(double v) { u(std::bit_cast<uint64_t>(v)); }
    void s(const std::string &v) { for (char c : v) u(uint8_t(c)); u(v.size()); }
    void a(const std::vector<double> &v) { u(v.size()); for (double x : v) d(x); }
};

// ------------------------------------------------------------ failure
struct Fail {  // deliberately not a std::exception
    std::string key, msg;
};
[[noreturn]] inline void fail(const std::string &key, const std::string &msg) { throw Fail{key, msg}; }
#define VF_CHECK(cond, key, msg)                                      \
    do {                                                              \
        if (!(cond)) {                                                \
            std::ostringstream vf_o_;                                 \
            vf_o_ << std::setprecision(17) << msg;                    \
            ::vf::fail(key, vf_o_.str());                             \
        }                                                             \
    } while (0)

struct Driver;
struct Ctx {
    Rng rng;
    uint64_t index = 0;
    bool thorough = false;
    const Driver *driver = nullptr;
    Hash hash;          // identity of the case
    bool nontrivial = false;
    std::string desc;   // short description of the case (for samples)
    void event(const std::string &name, uint64_t n = 1) { (*counters)[name] += n; }
    std::map<std::string, uint64_t> *counters = nullptr;
};
struct Driver {
    std::string name;
    uint64_t quick, thorough;
    std::function<void(Ctx &)> run;
    std::string rule;
    std::vector<std::pair<std::string, uint64_t>> need;  // counters that must reach a minimum
};
inline std::vector<Driver> &drivers() {
    static std::vector<Driver> d;
    return d;
}
struct Register {
    Register(Driver d) { drivers().push_back(std::move(d)); }
};

// ------------------------------------------------------------ breadcrumb
struct Crumb {
    char driver[64];
    uint64_t index;
    uint64_t started_ms;
    uint64_t active;
    char note[160];
};
inline Crumb *&crumb() {
    static Crumb *c = nullptr;
    return c;
}
inline uint64_t now_ms() {
    return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
inline void note(const std::string &s) {
    if (crumb()) {
        std::strncpy(crumb()->note, s.c_str(), sizeof(Crumb::note) - 1);
    }
}

inline std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o + "\"";
}

struct Options {
    uint64_t seed = 1;
    bool thorough = false;
    std::string out, crumbfile, only;
    uint64_t shard = 0, shards = 1;
    bool single = false;
    uint64_t single_index = 0;
    std::string resume_driver;
    uint64_t resume_index = 0;
    double scale = 1.0;
};
inline uint64_t case_seed(uint64_t seed, const std::string &driver, uint64_t index) {
    Hash h;
    h.u(seed);
    h.s(driver);
    h.u(index);
    return h.h;
}

inline int main_(int argc, char **argv) {
    Options o;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(argv[++i]); };
        if (a == "--seed") o.seed = std::stoull(val());
        else if (a == "--tier") o.thorough = val() == "thorough";
        else if (a == "--out") o.out = val();
        else if (a == "--crumb") o.crumbfile = val();
        else if (a == "--driver" || a == "--only") o.only = "," + val() + ",";
        else if (a == "--shard") { o.shard = std::stoull(val()); o.shards = std::stoull(val()); }
        else if (a == "--case") { o.single = true; o.single_index = std::stoull(val()); }
        else if (a == "--resume") { o.resume_driver = val(); o.resume_index = std::stoull(val()); }
        else if (a == "--scale") o.scale = std::stod(val());
        else if (a == "--list") {
            for (auto &d : drivers()) std::cout << d.name << " " << d.quick << " " << d.thorough << "\n";
            return 0;
        } else { std::cerr << "bad option " << a << "\n"; return 3; }
    }
    if (!o.crumbfile.empty()) {
        int fd = open(o.crumbfile.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Crumb)) != 0) return 3;
        crumb() = (Crumb *)mmap(nullptr, sizeof(Crumb), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
        if (crumb() == MAP_FAILED) return 3;
    }
    std::ostringstream out;
    out << "{\"drivers\":[";
    bool firstd = true;
    uint64_t nviol = 0;
    std::ostringstream viols;
    bool resuming = !o.resume_driver.empty();
    for (auto &d : drivers()) {
        if (!o.only.empty() && o.only.find("," + d.name + ",") == std::string::npos) continue;
        uint64_t n = o.thorough ? d.thorough : d.quick;
        n = std::max<uint64_t>(1, uint64_t(double(n) * o.scale));
        std::map<std::string, uint64_t> counters;
        std::unordered_set<uint64_t> seen;
        std::vector<std::string> samples;
        std::map<std::string, int> per_key;
        uint64_t evals = 0;
        uint64_t from = 0;
        if (resuming) {
            if (d.name != o.resume_driver) continue;
            from = o.resume_index;
            resuming = false;
        }
        for (uint64_t i = from; i < n; ++i) {
            if (o.single) { if (i != from) break; i = o.single_index; }
            else if (i % o.shards != o.shard) continue;
            Ctx c;
            c.rng = Rng(case_seed(o.seed, d.name, i));
            c.index = i;
            c.thorough = o.thorough;
            c.driver = &d;
            c.counters = &counters;
            if (crumb()) {
                std::strncpy(crumb()->driver, d.name.c_str(), 63);
                crumb()->index = i;
                crumb()->started_ms = now_ms();
                crumb()->note[0] = 0;
                crumb()->active = 1;
            }
            try {
                d.run(c);
            } catch (const Fail &f) {
                ++nviol;
                if (per_key[f.key]++ < 2)
                    viols << (viols.tellp() ? "," : "") << "{\"driver\":" << jstr(d.name) << ",\"index\":" << i
                          << ",\"key\":" << jstr(f.key) << ",\"msg\":" << jstr(f.msg.substr(0, 1500))
                          << ",\"desc\":" << jstr(c.desc.substr(0, 500)) << "}";
            } catch (const std::exception &e) {
                ++nviol;
                std::string key = "unexpected-exception";
                if (per_key[key]++ < 2)
                    viols << (viols.tellp() ? "," : "") << "{\"driver\":" << jstr(d.name) << ",\"index\":" << i
                          << ",\"key\":" << jstr(key) << ",\"msg\":" << jstr(std::string(e.what()).substr(0, 1000))
                          << ",\"desc\":" << jstr(c.desc.substr(0, 500)) << "}";
            }
            if (crumb()) crumb()->active = 0;
            ++evals;
            if (c.nontrivial && seen.insert(c.hash.h).second && samples.size() < 3 && !c.desc.empty()) samples.push_back(c.desc.substr(0, 300));
            if (nviol > 200) break;
        }
        out << (firstd ? "" : ",") << "{\"name\":" << jstr(d.name) << ",\"evaluations\":" << evals << ",\"rule\":" << jstr(d.rule)
            << ",\"hashes\":[";
        firstd = false;
        bool f = true;
        for (auto h : seen) { out << (f ? "" : ",") << h; f = false; }
        out << "],\"samples\":[";
        for (size_t k = 0; k < samples.size(); ++k) out << (k ? "," : "") << jstr(samples[k]);
        out << "],\"need\":{";
        for (size_t k = 0; k < d.need.size(); ++k) out << (k ? "," : "") << jstr(d.need[k].first) << ":" << d.need[k].second;
        out << "},\"events\":{";
        f = true;
        for (auto &[k, v] : counters) { out << (f ? "" : ",") << jstr(k) << ":" << v; f = false; }
        out << "}}";
        if (nviol > 200) break;
    }
    out << "],\"violations\":[" << viols.str() << "]}";
    if (!o.out.empty()) {
        FILE *fp = fopen(o.out.c_str(), "w");
        if (!fp) return 3;
        std::string s = out.str();
        fwrite(s.data(), 1, s.size(), fp);
        fclose(fp);
    } else if (nviol) {
        std::cout << "VIOLATIONS [" << viols.str() << "]\n";
    }
    return nviol ? 1 : 0;
}
} // namespace vf
#define VF_MAIN                                                    \
    int main(int argc, char **argv) { return vf::main_(argc, argv); }
#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
#define VF_DRIVER(nm, q, t, rule, ...)                                                    \
    static void VF_CAT(vf_run_, __LINE__)(vf::Ctx & c);                                   \
    static vf::Register VF_CAT(vf_reg_, __LINE__)(                                        \
        vf::Driver{nm, q, t, VF_CAT(vf_run_, __LINE__), rule, __VA_ARGS__});               \
    static void VF_CAT(vf_run_, __LINE__)([[maybe_unused]] vf::Ctx & c)

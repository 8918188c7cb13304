// C29: random: shape, interval, reproducibility, frequencies.
#include "dfh.h"
#include <dataframe/functional/math/random.h>
#include <dataframe/functional/utils/sort.h>
#include <thread>
using namespace dfh;

namespace {
struct Ask {
    uint32_t n, is;
    double lo, hi;
    unsigned seed;
    Serie run() const { return df::math::random(n, is, lo, hi, seed); }
};
std::string show(const Ask &a) {
    std::ostringstream o;
    o << std::setprecision(17) << "random(" << a.n << ", " << a.is << ", " << a.lo << ", " << a.hi << ", " << a.seed << ")";
    return o.str();
}
Ask ask(Rng &r, uint32_t max) {
    Ask a{count(r, max), item_size(r), 0, 1, unsigned(r.next())};
    if (r.chance(0.2)) a.seed = unsigned(r.below(3));
    switch (r.below(8)) {
    case 0: break;
    case 1: a.lo = -1; break;
    case 2: a.lo = a.hi = value(r, K_UNI); break;
    case 3: a.lo = value(r, K_WIDE); a.hi = a.lo + std::fabs(a.lo) * r.unit(); break;
    case 4: a.lo = -1e300; a.hi = 1e300 * r.unit(); break;
    case 5: a.lo = value(r, K_UNI); a.hi = std::nextafter(a.lo, 1e9); break;
    case 6: a.lo = -r.uni(0, 1e-300); a.hi = r.uni(0, 1e-300); break;
    default: a.lo = r.uni(-100, 100); a.hi = a.lo + r.uni(0, 50);
    }
    return a;
}
bool wide(const Ask &a) { return a.hi - a.lo > 1e-3 * std::max(std::fabs(a.lo), std::fabs(a.hi)) && a.hi - a.lo > 1e-290; }
void check_bounds(const Serie &s, const Ask &a, const std::string &key) {
    check_shape(s, a.is, a.n, key + "-shape", show(a));
    for (double v : s.asArray()) VF_CHECK(v >= a.lo && v <= a.hi, key + "-interval", show(a) << " contains " << v);
}
double chi2(const std::vector<uint32_t> &bin, double expected) {
    double x = 0;
    for (uint32_t b : bin) x += (b - expected) * (b - expected) / expected;
    return x;
}
// upper quantile of chi-square for a probability of about 1e-14 (Wilson-Hilferty, rounded up)
double limit(double dof) {
    double h = 2 / (9 * dof), q = 1 - h + 8.0 * std::sqrt(h);
    return dof * q * q * q + 10;
}
} // namespace

VF_DRIVER("calls", 6000, 150000, "several calls with random arguments (any interval, also a point or 1e300 wide): shape and bounds; each repeated in another order, some in other threads: same values; the same call with another seed: other values; non-trivial: at least one value and an interval that is not a point",
          {{"values", 200000}, {"repeats", 6000}, {"threads", 900}, {"other_seed", 4000}}) {
    Huge huge_(0.002);
    Rng &r = c.rng;
    std::vector<Ask> a;
    std::vector<Serie> s;
    for (int k = int(r.range(1, 4)); k > 0; --k) {
        a.push_back(ask(r, 300));
        s.push_back(a.back().run());
        check_bounds(s.back(), a.back(), "random");
        c.hash.a(s.back().asArray());
        if (a.back().n && a.back().hi > a.back().lo) c.nontrivial = true;
        c.event("values", s.back().asArray().size());
        c.desc += show(a.back()) + " ";
    }
    for (int k = int(r.range(2, 6)); k > 0; --k) {
        size_t i = r.below(a.size());
        if (r.chance(0.1)) { Serie any = df::math::random(uint32_t(r.below(10)), 1); for (double v : any.asArray()) VF_CHECK(v >= 0 && v <= 1, "default-interval", "random without an interval gives " << v); }
        Serie t = a[i].run();
        VF_CHECK(dfh::identical(t.asArray(), s[i].asArray()) && t.count() == s[i].count() && t.itemSize() == s[i].itemSize(), "repeat", show(a[i]) << " gives other values the second time");
        c.event("repeats");
    }
    if (r.chance(0.25)) {
        std::vector<std::thread> th;
        std::vector<Serie> got(4);
        for (size_t k = 0; k < 4; ++k) th.emplace_back([&, k] { for (int j = 0; j < 3; ++j) got[k] = a[k % a.size()].run(); });
        for (auto &t : th) t.join();
        for (size_t k = 0; k < 4; ++k)
            VF_CHECK(dfh::identical(got[k].asArray(), s[k % a.size()].asArray()), "thread", show(a[k % a.size()]) << " gives other values in another thread");
        c.event("threads");
    }
    for (size_t i = 0; i < a.size(); ++i) {
        if (!wide(a[i]) || a[i].n * a[i].is < 4) continue;
        Ask b = a[i];
        b.seed = r.chance(0.5) ? b.seed + 1 : b.seed ^ (1u << r.below(32));
        Serie t = b.run();
        uint32_t equal = 0;
        for (size_t k = 0; k < t.asArray().size(); ++k) equal += t.asArray()[k] == s[i].asArray()[k];
        VF_CHECK(equal * 4 <= t.asArray().size() + 3, "seed", show(a[i]) << " has " << equal << " values in common with those of seed " << b.seed);
        c.event("other_seed");
    }
}

VF_DRIVER("frequency", 250, 4000, "16384 to 40000, sometimes 300000, values: chi-square of the values in 64 parts of the interval, per component, of consecutive values in 8 x 8 parts, of the values of neighbouring seeds in 8 x 8 parts; no part of the interval left out; Kolmogorov-Smirnov; nearly all values different; non-trivial: always", {{"chi_square_tests", 1500}}) {
    Rng &r = c.rng;
    Ask a{0, uint32_t(r.chance(0.3) ? 1 : r.range(2, 6)), 0, 1, unsigned(r.next())};
    if (r.chance(0.3)) a.seed = unsigned(r.below(100));
    switch (r.below(4)) {
    case 0: break;
    case 1: a.lo = -1; break;
    case 2: a.lo = -1e6 * r.unit(); a.hi = 1e6 * r.unit() + 1; break;
    default: a.lo = r.uni(-10, 10); a.hi = a.lo + r.uni(1, 20);
    }
    a.n = uint32_t(r.chance(0.2) ? r.range(100000, 300000) : r.range(16384, 40000)) / a.is;
    c.nontrivial = true;
    c.desc = show(a);
    Serie s = a.run();
    check_bounds(s, a, "frequency");
    c.hash.a(s.asArray());
    Ask b = a;
    b.seed = r.chance(0.5) ? a.seed + 1 : a.seed + a.n;
    Serie t = b.run();
    const Array &v = s.asArray(), &w = t.asArray();
    auto part = [&](double x, uint32_t k) { return std::min(k - 1, uint32_t((x - a.lo) / (a.hi - a.lo) * k)); };
    auto test = [&](const std::vector<uint32_t> &bin, const std::string &key) {
        double total = 0;
        for (auto x : bin) total += x;
        double x = chi2(bin, total / double(bin.size()));
        VF_CHECK(x <= limit(double(bin.size() - 1)), key, show(a) << ": chi-square " << x << " over " << bin.size() << " parts, at most " << limit(double(bin.size() - 1)) << " expected");
        c.event("chi_square_tests");
    };
    std::vector<uint32_t> whole(64), pairs(64), seeds(64), next(64);
    std::vector<std::vector<uint32_t>> comp(a.is, std::vector<uint32_t>(32));
    for (size_t i = 0; i < v.size(); ++i) {
        ++whole[part(v[i], 64)];
        ++comp[i % a.is][part(v[i], 32)];
        ++seeds[part(v[i], 8) * 8 + part(w[i], 8)];
        if (i % 2 == 0 && i + 1 < v.size()) ++pairs[part(v[i], 8) * 8 + part(v[i + 1], 8)];
        if (i / a.is % 2 == 0 && i + a.is < v.size()) ++next[part(v[i], 8) * 8 + part(v[i + a.is], 8)];
    }
    test(whole, "uniform");
    for (auto &k : comp) test(k, "uniform-component");
    test(pairs, "uniform-pairs");
    test(next, "uniform-items");
    test(seeds, "uniform-seeds");
    Array sorted = v;
    std::sort(sorted.begin(), sorted.end());
    // no part of the interval is left out (a gap of 45 mean distances has a probability below 1e-14)
    double widest = std::max(sorted.front() - a.lo, a.hi - sorted.back()), distance = (a.hi - a.lo) / double(v.size());
    for (size_t i = 1; i < sorted.size(); ++i) widest = std::max(widest, sorted[i] - sorted[i - 1]);
    VF_CHECK(widest <= 45 * distance, "gap", show(a) << " leaves out an interval of " << widest);
    // Kolmogorov-Smirnov: a distance of 4.1 / sqrt(n) has a probability below 1e-14
    double ks = 0;
    for (size_t i = 0; i < sorted.size(); ++i) {
        double p = (sorted[i] - a.lo) / (a.hi - a.lo), n = double(sorted.size());
        ks = std::max({ks, std::fabs(p - double(i) / n), std::fabs(p - double(i + 1) / n)});
    }
    VF_CHECK(ks * std::sqrt(double(v.size())) <= 4.1, "uniform-ks", show(a) << ": the distribution is " << ks << " off a uniform one");
    c.event("gap_tests");
    // nor does one place attract them (8 values within 1e-8 of the interval have a probability below 1e-15)
    for (size_t i = 7; i < sorted.size(); ++i)
        VF_CHECK(sorted[i] - sorted[i - 7] > 1e-8 * (a.hi - a.lo), "place", show(a) << " has 8 values within " << sorted[i] - sorted[i - 7] << " of " << sorted[i]);
    size_t different = size_t(std::unique(sorted.begin(), sorted.end()) - sorted.begin());
    VF_CHECK(different >= v.size() * 0.99, "different", show(a) << " has only " << different << " different values");
}
VF_MAIN

// C05: parallel_execute gives the sequential result under every schedule.
// The functor itself is the probe: it registers its piece, and waits where a
// schedule says so. Waits are bounded and never decide the verdict.
#include "dfh.h"
#include <condition_variable>
#include <dataframe/functional/utils/memoize.h>
#include <dataframe/functional/utils/parallel_execute.h>
#include <dlfcn.h>
#include <pthread.h>
#include <thread>
using namespace dfh;

// ---- fault injection: the n-th thread creation fails
namespace {
std::atomic<long> g_fail_at{-1};   // counts down; the creation that finds 0 fails
std::atomic<long> g_created{0}, g_failed{0};
} // namespace
#ifndef VF_NO_INTERPOSE
extern "C" int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
    using fn = int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
    static fn real = (fn)dlsym(RTLD_NEXT, "pthread_create");
    if (g_fail_at.load() >= 0 && g_fail_at.fetch_sub(1) == 0) {
        ++g_failed;
        return EAGAIN;
    }
    ++g_created;
    return real(t, a, f, x);
}
#endif

namespace {
double item_fn(uint64_t salt, const double *p, uint32_t is, uint32_t comp) {
    double acc = double(int64_t(vf::mix(salt + comp) % 1000)) / 8;
    for (uint32_t j = 0; j < is; ++j) acc = acc * 0.75 + p[j];
    return acc;
}
Serie item_wise(const Serie &s, uint64_t salt, uint32_t os) {
    Array out;
    out.reserve(size_t(s.count()) * os);
    const Array &v = s.asArray();
    for (uint32_t i = 0; i < s.count(); ++i)
        for (uint32_t k = 0; k < os; ++k) out.push_back(item_fn(salt, v.data() + size_t(i) * s.itemSize(), s.itemSize(), k));
    return Serie(int(os), out, s.dimension());
}
enum Fault { F_NONE, F_STD, F_OTHER, F_MORE, F_LESS, F_EMPTY };
// What one call of parallel_execute did
struct Trace {
    std::mutex mx;
    std::condition_variable cv;
    std::vector<std::pair<uint32_t, uint32_t>> pieces;  // first item, count, in start order
    std::vector<uint32_t> finished;                     // first items, in finishing order
    int running = 0, max_running = 0;
    bool closed = false, late = false;
    size_t turn = 0;
};
struct Plan {
    uint32_t expect = 1;                      // pieces the schedule waits for
    std::vector<uint32_t> finish_rank;        // by piece number: its place in the finishing order
    bool gate = false;
    uint64_t jitter = 0;
    std::map<uint32_t, Fault> fault;          // by first item
    std::map<uint32_t, uint32_t> slow;        // by first item: milliseconds the job takes
};
struct Probe {
    std::shared_ptr<Trace> t;
    std::shared_ptr<Plan> p;
    uint64_t salt;
    uint32_t os;
    Array origin;   // first component of each item, which numbers the items
    Serie operator()(const Serie &s) const {
        uint32_t first = s.count() ? uint32_t(s.asArray()[0]) : 0xffffffff;
        struct Running {
            Trace &t;
            uint32_t first;
            Running(Trace &t, uint32_t f) : t(t), first(f) {
                std::lock_guard l(t.mx);
                if (t.closed) t.late = true;
                ++t.running;
                t.max_running = std::max(t.max_running, t.running);
            }
            ~Running() {
                std::lock_guard l(t.mx);
                if (t.closed) t.late = true;
                --t.running;
                ++t.turn;
                t.finished.push_back(first);
                t.cv.notify_all();
            }
        };
        Running run(*t, first);
        uint32_t number = 0;
        {
            std::unique_lock l(t->mx);
            t->pieces.push_back({first, s.count()});
            t->cv.notify_all();
            if (p->gate) {
                auto until = std::chrono::steady_clock::now() + std::chrono::milliseconds(60);
                t->cv.wait_until(l, until, [&] { return t->pieces.size() >= p->expect; });
                for (auto &q : t->pieces) number += q.first < first;
                if (number < p->finish_rank.size())
                    t->cv.wait_until(l, until, [&] { return t->turn >= p->finish_rank[number]; });
            }
        }
        if (p->jitter) {
            uint64_t z = vf::mix(p->jitter + first);
            if (z & 1) std::this_thread::sleep_for(std::chrono::microseconds((z >> 8) % 300));
            else for (volatile uint64_t k = (z >> 8) % 20000; k > 0; k = k - 1) {}
        }
        if (auto w = p->slow.find(first); w != p->slow.end()) std::this_thread::sleep_for(std::chrono::milliseconds(w->second));
        auto f = p->fault.find(first);
        Fault k = f == p->fault.end() ? F_NONE : f->second;
        if (k == F_STD) throw std::runtime_error("job");
        if (k == F_OTHER) throw 42;
        Serie r = item_wise(s, salt, os);
        if (k == F_MORE) { Array a = r.asArray(); a.insert(a.end(), os, 7.0); return Serie(int(os), a, s.dimension()); }
        if (k == F_LESS) { Array a = r.asArray(); a.resize(a.size() - os); return Serie(int(os), a, s.dimension()); }
        if (k == F_EMPTY) return Serie(int(os), 0u, s.dimension());
        return r;
    }
};
// the items of s carry their number in their first component
M numbered(Rng &r, uint32_t is, uint32_t n) {
    M m = gen(r, is, n, K_UNI, dim(r));
    for (uint32_t i = 0; i < n; ++i) m.v[size_t(i) * is] = i;
    return m;
}
uint32_t cores(Rng &r, uint32_t n) {
    if (n < 40 ? r.chance(0.2) : r.chance(0.01)) {  // many more cores than anyone has
        static const uint32_t many[] = {255, 256, 257, 300, 512};
        static const uint32_t more[] = {1000, 65535, 65536, 65537, 131072};
        return n < 40 && r.chance(0.5) ? more[r.below(5)] : many[r.below(5)];
    }
    if (r.chance(0.5)) return uint32_t(r.range(1, 9));
    if (r.chance(0.5)) return uint32_t(r.range(10, 64));
    return std::clamp<uint32_t>(n + uint32_t(r.range(0, 2)) - 1, 1, 64);
}
uint32_t items(Rng &r) {
    if (r.chance(0.5)) return uint32_t(r.range(0, 70));
    return count(r, 3000);
}
void check_pieces(Trace &t, uint32_t n, uint32_t nc, bool whole) {
    auto p = t.pieces;
    std::sort(p.begin(), p.end());
    uint32_t at = 0;
    for (auto [f, k] : p) {
        if (f == 0xffffffff) continue;  // a piece without items
        VF_CHECK(whole ? f == at : f >= at, "pieces", "a job got items from " << f << ", the previous piece ended at " << at);
        at = f + k;
        VF_CHECK(at <= n, "pieces", "a job got items beyond the end");
    }
    if (whole) VF_CHECK(at == n, "pieces", "the jobs covered " << at << " of " << n << " items");
    VF_CHECK(p.size() <= std::max(1u, nc), "pieces", p.size() << " jobs for " << nc << " cores");
}
void close(Trace &t) {
    std::lock_guard l(t.mx);
    t.closed = true;
    VF_CHECK(t.running == 0, "still-running", t.running << " jobs were still running when parallel_execute ended");
}
void note_order(Ctx &c, Trace &t) {
    bool inorder = std::is_sorted(t.finished.begin(), t.finished.end());
    for (uint32_t f : t.finished) c.hash.u(f);
    c.event("jobs", t.pieces.size());
    if (!inorder) c.event("finished_out_of_order");
    bool st = true;
    for (size_t i = 1; i < t.pieces.size(); ++i) st &= t.pieces[i - 1].first < t.pieces[i].first;
    if (!st) c.event("started_out_of_order");
    if (t.max_running > 1) c.event("concurrent");
}
} // namespace

VF_DRIVER("schedule", 1600, 30000, "one parallel run with a forced finishing order of the jobs or with random delays, against the sequential run; non-trivial: at least two jobs; distinct by the observed finishing order", {{"jobs", 3000}}) {
    Huge huge_(0.004);
    Rng &r = c.rng;
    M m = numbered(r, r.chance(0.4) ? 1 : uint32_t(r.range(2, 9)), items(r));
    Serie s = m.serie();
    uint32_t nc = cores(r, m.n);
    uint32_t np = std::min(nc, m.n);
    auto t = std::make_shared<Trace>();
    auto p = std::make_shared<Plan>();
    p->expect = np;
    uint64_t mode = r.below(4);
    std::string how = "free";
    if (mode < 2 && np > 1) {
        p->gate = true;
        std::vector<uint32_t> order(np);
        for (uint32_t i = 0; i < np; ++i) order[i] = i;
        uint64_t kind = r.below(4);
        if (kind == 0) std::reverse(order.begin(), order.end());
        else if (kind == 1) std::rotate(order.begin(), order.begin() + 1 + long(r.below(np - 1)), order.end());
        else r.shuffle(order);
        p->finish_rank = order;
        how = kind == 0 ? "reverse order" : "random order";
    } else if (mode == 2) {
        p->jitter = r.next() | 1;
        how = "random delays";
    }
    id(c, m);
    c.hash.u(nc);
    c.nontrivial = np > 1;
    c.desc = std::to_string(nc) + " cores, " + shape(m) + ", " + how;
    Probe f{t, p, r.next(), uint32_t(r.range(1, 4)), {}};
    Serie want = item_wise(s, f.salt, f.os);
    Serie got;
    if (r.chance(0.5)) got = df::utils::parallel_execute(f, s, nc);
    else got = df::utils::parallel_execute(Probe(f), s, nc);
    close(*t);
    check_pieces(*t, m.n, nc, true);
    check_same(got, model(want), "result", "parallel_execute with " + std::to_string(nc) + " cores");
    VF_CHECK(identical(got.asArray(), want.asArray()), "result", "bits differ from the sequential result");
    VF_CHECK(got.dimension() == want.dimension(), "result", "dimension " << got.dimension() << " instead of " << want.dimension());
    check_unchanged(s, m, "input-changed");
    note_order(c, *t);
}

VF_DRIVER("slow", 16, 100, "one parallel run in which one or several jobs take seconds, others failing at once or not; non-trivial: always", {{"slow_jobs", 16}}) {
    Rng &r = c.rng;
    const uint32_t np = uint32_t(r.range(2, 8));
    M m = numbered(r, uint32_t(r.range(1, 3)), np * uint32_t(r.range(1, 4)));
    Serie s = m.serie();
    auto t = std::make_shared<Trace>();
    auto p = std::make_shared<Plan>();
    p->expect = np;
    const uint32_t per = m.n / np;
    uint32_t ms = uint32_t(c.thorough ? r.range(1200, 12000) : r.range(1200, 3000)), which = uint32_t(r.below(np)), bad = uint32_t(r.below(np));
    p->slow[which * per] = ms;
    if (r.chance(0.3)) for (uint32_t k = 0; k < np; ++k) p->slow[k * per] = ms / 2 + uint32_t(r.below(300));
    const bool fails = r.chance(0.3);
    if (fails) p->fault[bad * per] = r.chance(0.5) ? F_STD : F_LESS;
    id(c, m);
    c.hash.u(ms);
    c.nontrivial = true;
    c.desc = std::to_string(np) + " cores, " + shape(m) + ", job " + std::to_string(which) + " takes " + std::to_string(ms) + " ms" + (fails ? ", job " + std::to_string(bad) + " fails" : "");
    Probe f{t, p, r.next(), uint32_t(r.range(1, 4)), {}};
    Serie want = item_wise(s, f.salt, f.os), got;
    bool threw = false;
    std::string why;
    try { got = df::utils::parallel_execute(f, s, np); } catch (const std::exception &e) { threw = true; why = e.what(); }
    close(*t);
    VF_CHECK(threw == fails, "slow", "parallel_execute " << (threw ? "threw " + why : std::string("did not throw")) << " with " << c.desc);
    check_pieces(*t, m.n, np, true);
    if (!fails) check_same(got, model(want), "result", "parallel_execute with " + c.desc);
    c.event("slow_jobs", p->slow.size());
}

VF_DRIVER("faults", 1200, 20000, "one parallel run in which a subset of the jobs throws or returns the wrong number of items (counts which balance out included); non-trivial: a fault was reached", {{"jobs", 1500}, {"faults", 200}}) {
    Rng &r = c.rng;
    M m = numbered(r, r.chance(0.4) ? 1 : uint32_t(r.range(2, 6)), std::max(4u, items(r)));
    Serie s = m.serie();
    uint32_t nc = std::max(2u, cores(r, m.n));
    uint32_t np = std::min(nc, m.n);
    auto t = std::make_shared<Trace>();
    auto p = std::make_shared<Plan>();
    p->expect = np;
    // first item of each piece under the documented cutting
    std::vector<uint32_t> firsts;
    for (uint32_t i = 0, at = 0; i < np; ++i) { firsts.push_back(at); at += m.n / nc + (i < m.n % nc ? 1 : 0); }
    bool balanced = r.chance(0.25);
    std::string what;
    if (balanced) {
        size_t a = r.below(np), b = (a + 1 + r.below(np - 1)) % np;
        p->fault[firsts[a]] = F_MORE;
        p->fault[firsts[b]] = F_LESS;
        what = "one item more and one less";
    } else {
        size_t k = r.chance(0.6) ? 1 : 1 + r.below(np);
        for (size_t i = 0; i < k; ++i) {
            Fault f = Fault(1 + r.below(5));
            p->fault[firsts[r.below(np)]] = f;
        }
        what = std::to_string(p->fault.size()) + " failing jobs";
    }
    if (r.chance(0.4)) {
        p->gate = true;
        std::vector<uint32_t> order(np);
        for (uint32_t i = 0; i < np; ++i) order[i] = i;
        r.shuffle(order);
        p->finish_rank = order;
    } else if (r.chance(0.5)) p->jitter = r.next() | 1;
    id(c, m);
    c.hash.u(nc);
    c.desc = std::to_string(nc) + " cores, " + shape(m) + ", " + what;
    Probe f{t, p, r.next(), uint32_t(r.range(1, 3)), {}};
    bool threw = false;
    Serie got;
    try {
        got = df::utils::parallel_execute(f, s, nc);
    } catch (...) {
        threw = true;
    }
    close(*t);
    check_pieces(*t, m.n, nc, false);
    uint32_t hit = 0;
    for (auto &q : t->pieces) hit += p->fault.count(q.first);
    c.nontrivial = hit > 0;
    if (hit) {
        c.event("faults", hit);
        if (balanced) c.event("balanced");
        VF_CHECK(threw, "fault-swallowed", "parallel_execute returned " << show(got) << " though " << hit << " jobs failed (" << what << ")");
    }
    note_order(c, *t);
    // the same call without faults succeeds
    p->fault.clear();
    auto t2 = std::make_shared<Trace>();
    Probe g{t2, std::make_shared<Plan>(), f.salt, f.os, {}};
    Serie again = df::utils::parallel_execute(g, s, nc);
    VF_CHECK(identical(again.asArray(), item_wise(s, f.salt, f.os).asArray()), "result", "the run after a failed run is wrong");
}

#ifndef VF_NO_INTERPOSE
VF_DRIVER("threads", 600, 8000, "one parallel run in which the n-th thread creation fails; non-trivial: the failure was reached", {{"jobs", 300}, {"creation_failed", 200}}) {
    Rng &r = c.rng;
    M m = numbered(r, uint32_t(r.range(1, 4)), std::max(2u, items(r)));
    Serie s = m.serie();
    uint32_t nc = std::max(2u, cores(r, m.n));
    auto t = std::make_shared<Trace>();
    auto p = std::make_shared<Plan>();
    if (r.chance(0.5)) p->jitter = r.next() | 1;
    id(c, m);
    c.hash.u(nc);
    long at = long(r.below(std::min(nc, m.n)));
    c.hash.u(uint64_t(at));
    c.desc = std::to_string(nc) + " cores, " + shape(m) + ", thread " + std::to_string(at) + " cannot start";
    Probe f{t, p, r.next(), 2, {}};
    long failed = g_failed;
    g_fail_at = at;
    bool threw = false;
    Serie got;
    try {
        got = df::utils::parallel_execute(f, s, nc);
    } catch (...) {
        threw = true;
    }
    g_fail_at = -1;
    close(*t);
    check_pieces(*t, m.n, nc, false);
    if (g_failed > failed) {
        c.nontrivial = true;
        c.event("creation_failed");
        if (!threw)
            VF_CHECK(identical(got.asArray(), item_wise(s, f.salt, 2).asArray()), "partial-result", "a thread could not be started and the result is " << show(got));
    } else VF_CHECK(!threw, "spurious-exception", "parallel_execute threw without a fault");
    note_order(c, *t);
    Probe g{std::make_shared<Trace>(), std::make_shared<Plan>(), f.salt, 2, {}};
    Serie again = df::utils::parallel_execute(g, s, nc);
    VF_CHECK(identical(again.asArray(), item_wise(s, f.salt, 2).asArray()), "result", "the run after a failed run is wrong");
}
#endif

namespace {
// No synchronisation of its own: a race inside the library stays visible to
// the race detector. Each copy owns its scratch space.
struct Pure {
    uint64_t salt;
    uint32_t os;
    uint64_t spin;
    mutable Array scratch;
    Serie operator()(const Serie &s) const {
        if (spin) for (volatile uint64_t k = vf::mix(spin + s.count() + uint64_t(s.asArray()[0])) % spin; k > 0; k = k - 1) {}
        scratch.clear();
        const Array &v = s.asArray();
        for (uint32_t i = 0; i < s.count(); ++i)
            for (uint32_t k = 0; k < os; ++k) scratch.push_back(item_fn(salt, v.data() + size_t(i) * s.itemSize(), s.itemSize(), k));
        return Serie(int(os), scratch, s.dimension());
    }
};
} // namespace
VF_DRIVER("pure", 900, 15000, "parallel runs of functors which share nothing and synchronise nothing (also memoized ones, failing ones, and several parallel runs on the same Serie at once); non-trivial: at least two jobs", {{"runs", 500}}) {
    Huge huge_(0.004);
    Rng &r = c.rng;
    M m = numbered(r, uint32_t(r.range(1, 6)), std::max(1u, items(r)));
    const Serie s = m.serie();
    uint32_t nc = cores(r, m.n);
    id(c, m);
    c.hash.u(nc);
    c.nontrivial = std::min(nc, m.n) > 1;
    uint64_t mode = r.below(4);
    c.hash.u(mode);
    c.desc = std::to_string(nc) + " cores, " + shape(m) + ", mode " + std::to_string(mode);
    Pure f{r.next(), uint32_t(r.range(1, 3)), r.chance(0.6) ? r.below(60000) : 0, {}};
    Serie want = item_wise(s, f.salt, f.os);
    auto check = [&](const Serie &got) {
        VF_CHECK(got.itemSize() == f.os && got.count() == m.n && identical(got.asArray(), want.asArray()), "result", "parallel_execute with " << nc << " cores differs from the sequential result");
    };
    if (mode == 0) check(df::utils::parallel_execute(f, s, nc));
    else if (mode == 1) {
        auto g = df::utils::memoize(f);
        check(df::utils::parallel_execute(g, s, nc));
        check(df::utils::parallel_execute(g, s, nc));
    } else if (mode == 2) {  // failing jobs
        uint64_t salt = r.next();
        std::atomic<bool> any{false};
        auto bad = [&f, &any, salt](const Serie &x) -> Serie {
            if (x.count() && vf::mix(salt + uint64_t(x.asArray()[0])) % 3 == 0) {
                any.store(true, std::memory_order_relaxed);
                throw std::runtime_error("x");
            }
            return f.os == 1 ? item_wise(x, f.salt, 1) : item_wise(x, f.salt, f.os);
        };
        bool threw = false;
        try { check(df::utils::parallel_execute(bad, s, nc)); } catch (const std::exception &) { threw = true; }
        if (any) VF_CHECK(threw, "fault-swallowed", "a failing job went unnoticed");
    } else {
        std::vector<std::thread> th;
        std::vector<Serie> out(3);
        std::vector<std::string> err(3);
        for (int k = 0; k < 3; ++k)
            th.emplace_back([&, k] {
                Pure own = f;
                try { out[k] = df::utils::parallel_execute(own, s, nc); } catch (const std::exception &e) { err[k] = e.what(); }
            });
        for (auto &x : th) x.join();
        for (int k = 0; k < 3; ++k) { VF_CHECK(err[k].empty(), "spurious-exception", err[k]); check(out[k]); }
    }
    check_unchanged(s, m, "input-changed");
    c.event("runs");
    VF_CHECK(throws([&] { df::utils::parallel_execute(f, s, 0); }), "accepted", "0 cores accepted");
}
VF_MAIN

// C07: concurrent reads and operations on shared objects. The judges are
// ThreadSanitizer and the results a single thread gets.
#include "ops.h"
#include <dataframe/utils.h>
#include <dataframe/utils/utils.h>
#include <barrier>
#include <memory>
#include <thread>
using namespace ops;

namespace {
struct Task {
    std::string name;
    std::function<Got()> run;
};
template <class F> Got got(F &&f) {
    Got g;
    try {
        f(g.r);
    } catch (const std::exception &e) {
        g.o = THREW;
        g.what = e.what();
    }
    return g;
}
// Shared objects, written by one thread before the others start
struct World {
    std::vector<std::pair<const Op *, Args>> calls;
    df::Dataframe D;
    std::unique_ptr<df::Manager> M;
    unsigned d = 3;
    Series in;
    std::vector<Task> tasks;
};
auto counter(double k) { return [k](const Serie &s) { return df::math::mult(s, k); }; }

void containers(Rng &r, World &w) {
    w.d = dim(r);
    uint32_t n = count1(r, 60);
    Model m;
    if (r.chance(0.4)) { mesh(r, m, std::max(3u, n), count1(r, 40)); w.d = 3; }
    static const uint32_t sizes[] = {1, 2, 3, 3, 4, 6, 6, 9};
    for (int i = int(r.range(2, 5)); i > 0; --i) m["s" + std::to_string(i)] = gen(r, sizes[r.below(8)], n, tame_kind(r), w.d);
    m["U"] = gen(r, 3, n, K_UNI, w.d);
    for (auto &[k, x] : m) w.D.add(k, x.serie());
    w.M.reset(new df::Manager(w.D, {}, w.d));
    w.M->add(new df::Components());
    if (r.chance(0.7)) w.M->add(new df::Coordinates());
    if (r.chance(0.7)) w.M->add(new df::EigenValues());
    if (r.chance(0.7)) w.M->add(new df::EigenVectors());
    if (is_mesh(m)) { w.M->add(new df::Normals("normals")); w.M->add(new df::Area("areas")); w.M->add(new df::Valence("valences")); }
    w.M->add(new df::UserDefinedDecomposer(1, "mine", [](const df::Dataframe &x) { return df::algebra::norm(x["U"]); }));
    const df::Dataframe &D = w.D;
    const df::Manager *M = w.M.get();
    std::vector<std::pair<uint32_t, String>> all;
    auto add = [&](const char *name, auto f) { w.tasks.push_back(Task{name, [f] { return got(f); }}); };
    for (uint32_t is : {1u, 2u, 3u, 6u}) {
        add("names", [M, is](Res &o) { for (auto &n : M->names(is)) o.put(n); });
        Strings names{"mine", "U", "Ux", "U1", "nothing", "s1", "s2", "s3", "s1xx", "s2xy", "s2S1", "s1S2", "x", "y", "normals", "areas", "valences"};
        for (auto &n : names) if (r.chance(0.5)) add("serie", [M, is, n](Res &o) { o.put(M->contains(is, n)); o.put(M->serie(is, n)); });
    }
    add("all names", [M](Res &o) { for (uint32_t is = 1; is <= 3; ++is) for (auto &n : M->names(is)) { o.put(n); o.put(M->serie(is, n)); } });
    for (auto &e : D.series()) {
        String n = e.first;
        add("dataframe", [&D, n](Res &o) { o.put(D[n]); o.put(D.get(n)); o.put(D.contains(n)); o.put(D.contains(D[n])); o.put(df::nameOfSerie(D, D[n])); });
    }
    add("missing", [&D](Res &o) { o.put(D["none"].isValid()); o.put(D.get("none").count()); o.put(D.contains("none")); });
    add("copy of the dataframe", [&D](Res &o) { df::Dataframe x = D; x.del("U"); for (auto &e : x.series()) { o.put(e.first); o.put(e.second); } });
    add("dump", [&D](Res &o) { std::ostringstream s; for (auto &e : D.series()) s << e.second; o.put(s.str()); });
    df::Dataframe copy = D;
    auto shared = std::make_shared<df::Dataframe>(copy);
    add("own manager", [shared](Res &o) { df::Manager m(*shared, {new df::Components(), new df::Coordinates(), new df::EigenValues()}, 3); for (uint32_t is = 1; is <= 3; ++is) for (auto &n : m.names(is)) { o.put(n); o.put(m.serie(is, n)); } });
}
template <class F> void pipeline(World &w, const char *name, F f) {
    auto p = std::make_shared<const F>(std::move(f));
    for (size_t i = 0; i < w.in.size(); ++i)
        w.tasks.push_back(Task{name, [p, &w, i] { return got([&](Res &o) { o.put((*p)(w.in[i])); }); }});
}
void pipelines(Rng &r, World &w) {
    double k = r.uni(-2, 2);
    uint32_t is = uint32_t(r.range(2, 4)), n = count1(r, 60);
    for (int i = 0; i < 3; ++i) w.in.push_back(any(r, is, n, dim(r)));
    Serie other = any(r, is, n, w.in[0].dimension());
    auto keep = [k](const Array &v, uint32_t i) { return v[0] > k || i % 3 == 0; };
    auto by = [k](const Array &v, uint32_t) { return Array{v[0] * k, v[1]}; };
    auto s1 = [by](const Serie &s) { return df::map(by, s); };
    auto s2 = [keep](const Serie &s) { return df::filter(keep, s); };
    auto s3 = [](const Serie &s) { return df::algebra::norm(s); };
    pipeline(w, "make_pipe", df::make_pipe(s1, s2, counter(k)));
    pipeline(w, "compose", df::utils::compose(s3, s2, s1));
    pipeline(w, "make_add", df::math::make_add(other));
    pipeline(w, "make_dot", df::algebra::make_dot(other));
    pipeline(w, "make_concat", df::utils::make_concat(other));
    pipeline(w, "parallel", [by](const Serie &s) { return df::utils::parallel_execute([by](const Serie &x) { return df::map(by, x); }, s, 3); });
    for (size_t i = 0; i < 3; ++i)
        w.tasks.push_back(Task{"read", [&w, i] { return got([&](Res &o) {
            const Serie &s = w.in[i];
            o.put(s); o.put(s.clone()); o.put(s.count()); o.put(s.itemSize()); o.put(s.dimension()); o.put(s.isValid());
            for (uint32_t j = 0; j < s.count(); ++j) o.put(s.value(j));
            std::ostringstream t; t << s; o.put(t.str());
        }); }});
}
// the small helpers on shared Series and vectors
void helpers(Rng &r, World &w) {
    const uint32_t n = count1(r, 40);
    auto v = std::make_shared<const Array>([&] { Array a(r.below(50)); for (double &x : a) x = r.uni(-9, 9); return a; }());
    auto s = std::make_shared<const Series>(Series{any(r, 1, n, 3), any(r, 2, n, 3), any(r, 1, r.chance(0.5) ? n : n + 1, 3)});
    auto add = [&](const char *name, auto f) { for (int i = 0; i < 2; ++i) w.tasks.push_back(Task{name, [f] { return got(f); }}); };
    add("map", [v](Res &o) { for (double x : df::map<double>(*v, [](double y) { return 2 * y; })) o.put(x); for (double x : df::map<double>(Array{1, 2}, [](double y) { return y + 1; })) o.put(x); });
    add("contains", [v](Res &o) { for (double x : *v) o.put(df::contains(*v, x)); o.put(df::contains(*v, 100.0)); o.put(df::contains(Strings{"a", "b"}, String("b"))); });
    add("getCount", [s](Res &o) { for (auto k : df::utils::getCount(*s)) o.put(k); });
    add("count", [s](Res &o) { for (auto k : df::utils::count((*s)[0], (*s)[1], (*s)[2])) o.put(k); });
    add("countAndCheck", [s](Res &o) { for (auto k : df::utils::countAndCheck((*s)[0], (*s)[1], (*s)[2])) o.put(k); });
    add("nameOfSerie", [s](Res &o) { df::Dataframe d; for (size_t i = 0; i < s->size(); ++i) if ((*s)[i].count() == (*s)[0].count()) d.add("n" + std::to_string(i), (*s)[i]); for (auto &e : d.series()) o.put(df::nameOfSerie(d, e.second)); o.put(df::nameOfSerie(d, (*s)[1])); });
}
void judge(Ctx &c, const std::string &what, const Got &g, const Got &want, size_t thread) {
    VF_CHECK(agree(g, want), "differs-" + what, what << " in thread " << thread << " gives " << show(g.r) << g.what << " instead of " << show(want.r) << want.what);
    c.event("results");
}
} // namespace

VF_DRIVER("first", 240, 6000, "every operation started by all threads together on the same arguments, in the first case of a process also for the first time in that process; non-trivial: always", {{"results", 45000}}) {
    Rng &r = c.rng;
    c.nontrivial = true;
    size_t T = size_t(r.range(2, 6));
    World w;
    for (auto &op : all()) {
        w.calls.emplace_back(&op, op.make(r, 40));
        id(c, w.calls.back().second);
    }
    size_t suitable = w.calls.size();
    for (size_t i = 0; i < suitable; ++i)
        if (r.chance(0.5)) {
            Args a = w.calls[i].second;
            unsuit(r, *w.calls[i].first, a);
            w.calls.emplace_back(w.calls[i].first, a);
            c.event(w.calls[i].first->suit(a) == REFUSE ? "unsuitable" : "changed");
        }
    r.shuffle(w.calls);
    std::vector<std::vector<Got>> res(T, std::vector<Got>(w.calls.size()));
    std::barrier<> b{std::ptrdiff_t(T)};
    std::vector<std::thread> th;
    for (size_t t = 0; t < T; ++t)
        th.emplace_back([&, t] {
            for (size_t i = 0; i < w.calls.size(); ++i) {
                b.arrive_and_wait();
                res[t][i] = run(*w.calls[i].first, w.calls[i].second);
            }
        });
    for (auto &t : th) t.join();
    for (size_t i = 0; i < w.calls.size(); ++i) {
        Got want = run(*w.calls[i].first, w.calls[i].second);
        for (size_t t = 0; t < T; ++t) judge(c, w.calls[i].first->name, res[t][i], want, t);
    }
    c.desc = std::to_string(T) + " threads, " + std::to_string(w.calls.size()) + " operations";
}

VF_DRIVER("shared", 6000, 120000, "2 to 8 threads, each a random sequence of operations on shared arguments, of lookups in a shared Dataframe and Manager, of calls of shared pipelines, with random yields; the results compared with those of one thread, computed before or after; non-trivial: at least one task runs in two threads",
          {{"results", 200000}, {"operations", 80000}, {"manager", 50000}, {"pipelines", 20000}, {"helpers", 5000}, {"after", 2000}}) {
    Rng &r = c.rng;
    World w;
    size_t T = size_t(r.range(2, 8));
    bool cont = r.chance(0.6), pipes = r.chance(0.6);
    for (int k = int(r.range(3, 8)); k > 0; --k) {
        const Op &op = r.pick(all());
        w.calls.emplace_back(&op, op.make(r, 60));
        if (r.chance(0.2)) unsuit(r, op, w.calls.back().second);
        if (op.suit(w.calls.back().second) == REFUSE) c.event("unsuitable");
        id(c, w.calls.back().second);
    }
    for (auto &k : w.calls) w.tasks.push_back(Task{k.first->name, [&k] { return run(*k.first, k.second); }});
    size_t n_ops = w.tasks.size();
    if (cont) containers(r, w);
    size_t n_cont = w.tasks.size();
    if (pipes) pipelines(r, w);
    const size_t n_pipes = w.tasks.size();
    if (r.chance(0.3)) helpers(r, w);
    std::vector<std::vector<size_t>> plan(T);
    std::vector<std::vector<Got>> res(T);
    std::map<size_t, size_t> in;
    bool same = r.chance(0.3);
    for (size_t t = 0; t < T; ++t) {
        if (same && t) { plan[t] = plan[0]; }
        else for (int k = int(r.range(4, 14)); k > 0; --k) plan[t].push_back(r.chance(0.35) ? r.below(n_ops) : r.below(w.tasks.size()));
        for (size_t i : plan[t]) { if (in[i]++) c.nontrivial = true; c.hash.u(i); c.event(i < n_ops ? "operations" : i < n_cont ? "manager" : i < n_pipes ? "pipelines" : "helpers"); }
        res[t].resize(plan[t].size());
    }
    std::vector<Got> want(w.tasks.size());
    bool before = r.chance(0.5);
    auto sequential = [&] { for (auto &e : in) want[e.first] = w.tasks[e.first].run(); };
    if (before) sequential();
    std::barrier<> b{std::ptrdiff_t(T)};
    std::vector<std::thread> th;
    uint64_t seed = r.next();
    for (size_t t = 0; t < T; ++t)
        th.emplace_back([&, t] {
            Rng q(seed + t);
            b.arrive_and_wait();
            for (size_t i = 0; i < plan[t].size(); ++i) {
                if (q.chance(0.2)) std::this_thread::yield();
                res[t][i] = w.tasks[plan[t][i]].run();
            }
        });
    for (auto &t : th) t.join();
    if (!before) { sequential(); c.event("after"); }
    for (size_t t = 0; t < T; ++t)
        for (size_t i = 0; i < plan[t].size(); ++i) judge(c, w.tasks[plan[t][i]].name, res[t][i], want[plan[t][i]], t);
    c.desc = std::to_string(T) + " threads, " + std::to_string(in.size()) + " different tasks";
}
VF_MAIN

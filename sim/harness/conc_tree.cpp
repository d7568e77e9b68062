// Parallel tree traversals and parallel array evaluation against their serial counterparts.
#include <functional>
#include <algorithm>
#include <condition_variable>
#include <atomic>
#include <memory>
#include <stdexcept>
#include <iostream>
#include "core_ndarray.hpp"
#include "core_ndarray_ops.hpp"
#include "core_tree.hpp"
#include "core_thread_pool.hpp"
#include "app_parallel.hpp"
#include "rt.hpp"

using namespace sim;
namespace {

void judge(Ctx& c, const Outcome& o, const char* what) {
    if (o.kind == Outcome::OK) { c.trivial = o.switches < 2; return; }
    if (o.kind == Outcome::ERROR) { c.fail("ERROR: %s", o.msg.c_str()); return; }
    if (o.kind == Outcome::SIGNAL) { c.fail("process died (signal %d): %s; stderr: %.300s", o.code, what, o.err.c_str()); return; }
    if (o.kind == Outcome::EXIT) { c.fail("process exited %d: %s", o.code, what); return; }
    c.fail("%s", o.msg.c_str());
}

template<std::size_t Rank, class T> struct Flat { std::vector<std::pair<std::vector<long>, T>> v; };

template<std::size_t Rank, class TreeT, class T>
void flatten(const TreeT& t, std::vector<long>& path, std::vector<std::pair<std::vector<long>, T>>& out) {
    if (t.has_value()) { out.push_back({path, t.value()}); return; }
    long k = 0;
    for (const auto& c : t.children()) { path.push_back(k++); flatten<Rank, TreeT, T>(c, path, out); path.pop_back(); }
}
template<std::size_t Rank, class T, class TreeT> auto flat(const TreeT& t) { Rt q; std::vector<std::pair<std::vector<long>, T>> o; std::vector<long> p; flatten<Rank, TreeT, T>(t, p, o); return o; }

struct Item { int id; std::shared_ptr<std::vector<double>> data; };

// results depend on the item only
struct Res { int id = -1; double sum = 0; std::string tag; bool operator==(const Res& o) const { return id == o.id && sum == o.sum && tag == o.tag; } };

struct Odd { int id; };       // an exception that is not derived from std::exception
std::vector<int>* calls;      // per item id, executions of the parallel mapping

Res compute(const Item& it, int salt, int throw_mod, bool counted) {
    if (counted) { Rt q; if (it.id < (int)calls->size()) (*calls)[it.id]++; event("leaf", it.id); }
    Res r; r.id = it.id;
    for (double x : *it.data) { r.sum = r.sum * 0.5 + x * (salt + 1); if (counted) sim::yield(); }
    r.tag = "leaf-" + std::to_string(it.id) + std::string(it.id % 7, 'x');
    if (throw_mod && it.id % throw_mod == throw_mod - 1) { if (salt == 1) throw Odd{it.id}; throw std::runtime_error("leaf " + std::to_string(it.id)); }
    return r;
}

template<std::size_t Rank>
auto random_tree(int max_leaves) {
    Rt q;
    int next = 0;
    auto item = [&next] { Item i; i.id = next++; i.data = std::make_shared<std::vector<double>>(); int n = 1 + (i.id * 7) % 5; for (int k = 0; k < n; ++k) i.data->push_back(1.0 / (1 + i.id + k)); return i; };
    auto t = mara::tree_of<Rank>(item());
    int leaves = 1; int rounds = (int)choose(W, 4);
    for (int r = 0; r < rounds; ++r) {
        t = t.bifurcate_if([&] (const Item&) { return leaves + (1 << Rank) - 1 <= max_leaves && choose(W, 2) == 1; }, [&] (const Item&) {
            leaves += (1 << Rank) - 1;
            return mara::iota<1 << Rank>().map([&] (auto) { return item(); });
        });
    }
    return t;
}

template<std::size_t Rank, class TreeT>
void one_client(const TreeT& tree, mara::thread_pool_t* pool, int mode, int salt, int throw_mod, int repeat) {
    using R = mara::arithmetic_binary_tree_t<Res, Rank>;
    for (int k = 0; k < repeat; ++k) {
        std::string serial_what, par_what; bool st = false, pt = false;
        std::vector<std::pair<std::vector<long>, Res>> A, B;
        { Rt q; try { R s = tree.map([=] (const Item& i) { return compute(i, salt, throw_mod, false); }); A = flat<Rank, Res>(s); } catch (const std::runtime_error& e) { st = true; serial_what = e.what(); } catch (const Odd& e) { st = true; serial_what = "odd " + std::to_string(e.id); } }
        auto fn = [=] (Item i) { return compute(i, salt, throw_mod, true); };
        try {
            if (mode == 0) { R p = tree.map(fn, *pool); B = flat<Rank, Res>(p); }
            else if (mode == 1) {
                auto pairs = tree.pair(tree.map([salt] (const Item& i) { return i.id + salt; }));
                auto g = [=] (Item i, int ids) { if (ids != i.id + salt) violation("apply got mismatched arguments: leaf %d", i.id); return compute(i, salt, throw_mod, true); };
                R p = pairs.apply(g, *pool); B = flat<Rank, Res>(p);
            }
            else if (mode == 2) { auto t2 = tree; R p = t2.map(fn, std::launch::async); B = flat<Rank, Res>(p); }
            else if (mode == 3) { auto t2 = tree; R p = t2.map(fn, std::launch::deferred); B = flat<Rank, Res>(p); }
            else { auto pairs = tree.pair(tree); auto g = [=] (Item i, Item j) { return compute(i.id == j.id ? i : Item{-5, i.data}, salt, throw_mod, true); }; R p = pairs.apply(g, std::launch::async); B = flat<Rank, Res>(p); }
        } catch (const std::runtime_error& e) { pt = true; Rt q; par_what = e.what(); } catch (const Odd& e) { pt = true; Rt q; par_what = "odd " + std::to_string(e.id); }
        Rt q;
        if (st != pt) violation("parallel and serial traversal disagree about failure: serial %s, parallel %s", st ? serial_what.c_str() : "succeeds", pt ? par_what.c_str() : "succeeds");
        if (st && serial_what != par_what) violation("parallel traversal reports another failure: serial '%s', parallel '%s'", serial_what.c_str(), par_what.c_str());
        if (!st) {
            if (A.size() != B.size()) violation("parallel traversal changes the tree: %zu leaves, expected %zu", B.size(), A.size());
            for (size_t i = 0; i < A.size(); ++i) {
                if (A[i].first != B[i].first) violation("parallel traversal changes the tree: leaf %zu is elsewhere", i);
                if (!(A[i].second == B[i].second)) violation("parallel traversal gives another value: leaf %zu holds the value of item %d, expected %d", i, B[i].second.id, A[i].second.id);
            }
        }
        count("parallel_maps"); if (st) count_fault("leaf_function_throws");
        event("mapped", A.size(), st);
    }
}

template<std::size_t Rank>
void run_tree() {
    auto cfg = random_sched(); cfg.step_budget = 20000000;
    hang_label = "parallel traversal never completes";
    int mode = (int)choose(W, 5), clients = mode < 2 ? (int)choose(W, 3) : 0, workers = 1 + (int)choose(W, 4), salt = (int)choose(W, 3), repeat = 1 + (int)choose(W, 2);
    int tm = choose(W, 3) == 2 ? 2 + (int)choose(W, 6) : 0;
    auto tree = random_tree<Rank>(mode >= 2 ? 22 : 40);
    int n = 0; { Rt q; auto f = flat<Rank, Item>(tree); for (auto& x : f) n = std::max(n, x.second.id + 1); count("leaves", f.size()); }
    { Rt q; calls = new std::vector<int>(n, 0); }
    activate(cfg);
    {
        std::unique_ptr<mara::thread_pool_t> pool;
        if (mode < 2) pool = std::make_unique<mara::thread_pool_t>(workers);
        std::vector<int> ids;
        for (int c = 0; c < clients; ++c) ids.push_back(sim::spawn([&] { one_client<Rank>(tree, pool.get(), mode, salt, tm, repeat); }));
        one_client<Rank>(tree, pool.get(), mode, salt, tm, repeat);
        for (int i : ids) sim::join(i);
    }
    Rt q;
    auto f = flat<Rank, Item>(tree);
    for (auto& x : f) {
        int want = (clients + 1) * repeat, got = (*calls)[x.second.id];
        bool exact = tm == 0 || mode != 3;      // deferred evaluation stops at the first failure
        if (exact ? got != want : got > want) violation("leaf function executed %d times, expected %d: leaf %d", got, want, x.second.id);
    }
}

// ------------------------------------------------------------------ evaluate_on
struct EvalLedger { std::map<std::vector<std::size_t>, int> n; };
EvalLedger* E;

template<std::size_t N, std::size_t Rank, class V>
void run_eval(nd::shape_t<Rank> shape, std::function<V(std::size_t)> value, int rounds, int who = 0) {
    EvalLedger* ledger = &E[who]; int round = 0; auto val = [&] (std::size_t k) { return value(k + 1000 * round + 7000 * who); };
    std::vector<std::size_t> strides(Rank, 1);
    for (int i = (int)Rank - 2; i >= 0; --i) strides[i] = strides[i + 1] * std::max<std::size_t>(1, shape[i + 1]);
    auto base = nd::make_shared_array<double>(shape);
    auto mapping_of = [=] (int round) { return [=] (nd::index_t<Rank> index) -> V {
        std::size_t k = 0; std::vector<std::size_t> ix;
        { Rt q; for (std::size_t a = 0; a < Rank; ++a) { k += index[a] * strides[a]; ix.push_back(index[a]); if (index[a] >= shape[a]) violation("element outside the array evaluated: axis %zu index %zu of %zu", a, (size_t)index[a], (size_t)shape[a]); } ledger->n[ix]++; }
        sim::yield();
        double b = base(index);
        (void)b;
        return value(k + 1000 * round + 7000 * who);
    }; };
    std::vector<nd::shared_array<V, Rank>> kept;
    for (round = 0; round < rounds; ++round) {
        { Rt q; ledger->n.clear(); }
        auto lazy = nd::make_array(mapping_of(round), shape);
        auto got = lazy | mara::evaluate_on<N>();
        Rt q;
        std::size_t total = 1; for (std::size_t a = 0; a < Rank; ++a) { if (got.shape(a) != shape[a]) violation("parallel evaluation changes the shape: axis %zu", a); total *= shape[a]; }
        if (ledger->n.size() != total) violation("elements skipped: %zu of %zu evaluated", ledger->n.size(), total);
        for (auto& e : ledger->n) if (e.second != 1) violation("element evaluated %d times", e.second);
        std::size_t seen = 0;
        for (auto index : got.indexes()) {
            std::size_t k = 0; for (std::size_t a = 0; a < Rank; ++a) k += index[a] * strides[a];
            if (!(got(index) == val(k))) violation("parallel evaluation gives another value: element %zu", k);
            ++seen;
        }
        if (seen != total) violation("parallel evaluation changes the element count: %zu of %zu", seen, total);
        count("parallel_evaluations"); event("evaluated", total);
        kept.push_back(got);
    }
    for (round = 0; round < rounds; ++round) {      // what was evaluated first is still that
        auto& got = kept[round]; Rt q;
        for (auto index : got.indexes()) { std::size_t k = 0; for (std::size_t a = 0; a < Rank; ++a) k += index[a] * strides[a]; if (!(got(index) == val(k))) violation("an array evaluated earlier changes: element %zu", k); }
    }
}
template<std::size_t N> void eval_n(int rank, int type, int rounds) {
    int callers = choose(W, 4) == 3 ? 2 + (int)choose(W, 2) : 1;       // arrays evaluated by several threads at once
    auto dim = [] (int m) { Rt q; return (std::size_t)1 + choose(W, m); };
    std::size_t a = choose(W, 2) ? dim(30) : dim(6), b = dim(5), c = dim(3);
    if (choose(W, 12) == 11) { int z = (int)choose(W, 3); (z == 0 ? a : z == 1 ? b : c) = 0; }     // empty arrays
    auto fd = std::function<double(std::size_t)>([] (std::size_t k) { return 1.0 / (1 + k); });
    auto fs = std::function<std::string(std::size_t)>([] (std::size_t k) { return std::string(k % 40, 'a' + k % 26); });
    activate([&] { auto cfg = random_sched(); cfg.step_budget = 20000000; return cfg; }());
    hang_label = "parallel evaluation never completes";
    auto one = [=] (int who) {
        if (rank == 1) { if (type) run_eval<N, 1, std::string>(nd::make_shape(a), fs, rounds, who); else run_eval<N, 1, double>(nd::make_shape(a), fd, rounds, who); }
        if (rank == 2) { if (type) run_eval<N, 2, std::string>(nd::make_shape(a, b), fs, rounds, who); else run_eval<N, 2, double>(nd::make_shape(a, b), fd, rounds, who); }
        if (rank == 3) { run_eval<N, 3, double>(nd::make_shape(a, b, c), fd, rounds, who); }
    };
    std::vector<int> ids; for (int i = 1; i < callers; ++i) ids.push_back(sim::spawn([=] { one(i); }));
    one(0);
    for (int i : ids) sim::join(i);
    if (live_threads() != 1) { Rt q; violation("evaluation threads outlive the call"); }
}
void run_evaluate() {
    { Rt q; E = new EvalLedger[3]; }
    int n = (int)choose(W, 6), rank = 1 + (int)choose(W, 3), type = (int)choose(W, 2), rounds = 1 + (int)choose(W, 2);
    switch (n) { case 0: eval_n<2>(rank, type, rounds); break; case 1: eval_n<1>(rank, type, rounds); break; case 2: eval_n<3>(rank, type, rounds); break; case 3: eval_n<5>(rank, type, rounds); break; case 4: eval_n<7>(rank, type, rounds); break; default: eval_n<12>(rank, type, rounds); }
}

Register r1("tree_map", [](Ctx& c) {
    int rank = 1 + (int)choose(W, 3);
    auto o = c.segment(rank == 1 ? run_tree<1> : rank == 2 ? run_tree<2> : run_tree<3>);
    c.note("rank %d tree: %lu steps, %lu switches, outcome %s", rank, (unsigned long)o.steps, (unsigned long)o.switches, o.kind_name());
    judge(c, o, "parallel tree traversal");
});
Register r2("evaluate_on", [](Ctx& c) {
    auto o = c.segment(run_evaluate);
    c.note("evaluate: %lu steps, %lu switches, outcome %s", (unsigned long)o.steps, (unsigned long)o.switches, o.kind_name());
    judge(c, o, "parallel array evaluation");
});
}

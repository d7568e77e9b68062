// Thread pool under simulated schedules: exactly-once execution, result delivery, shutdown.
#include <functional>
#include <algorithm>
#include <condition_variable>
#include <atomic>
#include <memory>
#include <stdexcept>
#include "core_thread_pool.hpp"
#include "rt.hpp"

using namespace sim;
namespace {

struct Task { int id = 0, kind = 0, parent = -1; int ran = 0; bool accepted = false, before_stop = false, dead_ok = false; long seq = 0; };
struct Ledger {
    std::vector<Task> t; int running = 0, max_running = 0, workers = 0; bool stopping = false;
    long seq = 0; std::vector<int> started;
};
Ledger* L;

enum { VALUE = 0, THROW, NESTED, YIELDY, RENDEZVOUS, THROW_INT };
struct Odd { int id; };               // an exception that is not derived from std::exception
// tasks of kind THROW throw a type that depends on their id
constexpr int NTYPES = 8;
const char* const type_names[NTYPES] = {"runtime_error", "bad_alloc", "logic_error", "system_error", "future_error", "out_of_range", "const char*", "int"};
[[noreturn]] void throw_typed(int id) {
    auto text = "task " + std::to_string(id);
    switch (id % NTYPES) {
    case 1: throw std::bad_alloc();
    case 2: throw std::logic_error(text);
    case 3: throw std::system_error(EAGAIN, std::generic_category(), text);
    case 4: throw std::future_error(std::future_errc::no_state);
    case 5: throw std::out_of_range(text);
    case 6: throw "text";
    case 7: throw id;
    default: throw std::runtime_error(text);
    }
}
// the type and identity of the exception in flight; -1: another one
int caught_type(int id) {
    auto text = "task " + std::to_string(id);
    try { throw; }
    catch (const std::bad_alloc&) { return 1; }
    catch (const std::system_error& e) { return e.code().value() == EAGAIN && std::string(e.what()).compare(0, text.size() + 1, text + ":") == 0 ? 3 : -1; }
    catch (const std::future_error& e) { return e.code() == std::future_errc::no_state ? 4 : -1; }
    catch (const std::out_of_range& e) { return e.what() == text ? 5 : -1; }
    catch (const std::logic_error& e) { return e.what() == text ? 2 : -1; }
    catch (const std::runtime_error& e) { return e.what() == text ? 0 : -1; }
    catch (const char* e) { return std::string(e) == "text" ? 6 : -1; }
    catch (int e) { return e == id ? 7 : -1; }
    catch (...) { return -1; }
}
struct Gate { int need = 0, in = 0; };

// what a task returns: derived from its id, so that a result is attributable to one task
long value_of(int id) { return 1000003L * id + 17; }

struct Slot { long v = 0; };          // plain memory written by the worker, read by the client after get()

int new_task(int kind) { Rt q; Task k; k.id = (int)L->t.size(); k.kind = kind; k.seq = L->seq++; L->t.push_back(k); return k.id; }

long body(mara::thread_pool_t* pool, int id, Slot* slot, std::shared_ptr<Gate> gate, std::shared_ptr<std::vector<std::pair<int, std::shared_future<long>>>> nested) {
    int kind;
    {
        Rt q;
        if (++L->t[id].ran > 1) violation("task executed twice: task %d", id);
        L->started.push_back(id); kind = L->t[id].kind;
        if (++L->running > L->workers) violation("more tasks in flight than workers: %d of %d", L->running, L->workers);
        L->max_running = std::max(L->max_running, L->running);
        event("run", id);
    }
    sim::yield();
    slot->v = value_of(id);
    if (kind == YIELDY) for (int i = 0; i < 6; ++i) sim::yield();
    if (kind == RENDEZVOUS) {
        { Rt q; gate->in++; }
        poke();
        block_until("rendezvous of as many tasks as there are workers", [&] { return gate->in >= gate->need; });
    }
    if (kind == NESTED) {
        int sub = new_task(VALUE);
        { Rt q; L->t[sub].parent = id; L->t[sub].accepted = true; L->t[sub].before_stop = true; }
        auto s2 = std::make_shared<Slot>();
        pool->enqueue([=] { return body(pool, sub, s2.get(), nullptr, nullptr) + (s2->v - s2->v); });
    }
    { Rt q; L->running--; event("done", id); }
    if (kind == THROW) throw_typed(id);
    if (kind == THROW_INT) throw Odd{id};
    return value_of(id);
}

struct Pending { int id; std::future<long> f; Slot* slot; };

void check_result(Pending& p) {
    int kind; { Rt q; kind = L->t[p.id].kind; }
    try {
        long v = p.f.get();
        { Rt q; if (kind == THROW || kind == THROW_INT) violation("exception lost: task %d threw, its future returned a value", p.id); if (v != value_of(p.id)) violation("wrong result: future of task %d holds the value of another task", p.id); }
        if (p.slot->v != value_of(p.id)) violation("result not published: write of task %d not visible after its future was ready", p.id);
    } catch (const Odd& e) {
        Rt q;
        if (kind != THROW_INT || e.id != p.id) violation("exception delivered to the wrong task: %d", p.id);
    } catch (...) {
        int t = caught_type(p.id);
        Rt q;
        if (kind != THROW) {
            if (t == -1) try { throw; } catch (const std::future_error& e) { violation("future broken: task %d: %s", p.id, e.what()); } catch (...) {}
            violation("exception delivered to the wrong task: %d", p.id);
        }
        if (t != p.id % NTYPES) violation("wrong exception: task %d threw %s", p.id, type_names[p.id % NTYPES]);
        if (L->t[p.id].ran != 1) violation("result delivered but task not executed once: %d", p.id);
    }
    { Rt q; if (L->t[p.id].ran != 1) violation("result delivered but task not executed once: %d", p.id); event("got", p.id); }
}

// One client: submits tasks and collects results in a random order.
void client(mara::thread_pool_t& pool, std::vector<std::unique_ptr<Slot>>& slots, int nops, bool throws, bool nested) {
    std::vector<Pending> mine;
    for (int i = 0; i < nops; ++i) {
        int op, kind, slotno; 
        { Rt q; op = (int)choose(W, 5); }
        if (op <= 2 || mine.empty()) {
            { Rt q; int k = (int)choose(W, 8); kind = k < 3 ? VALUE : k < 5 ? YIELDY : k == 5 ? (nested ? NESTED : VALUE) : k == 6 ? (throws ? THROW : VALUE) : (throws && choose(W, 2) ? THROW_INT : VALUE); }
            int id = new_task(kind);
            Slot* s; { Rt q; slots.push_back(std::make_unique<Slot>()); s = slots.back().get(); slotno = (int)slots.size(); (void)slotno; }
            auto pp = &pool;
            // arguments are passed by value: the caller's copies change or vanish right after the call
            std::string text(40 + id % 3, 'a' + id % 26); auto list = std::make_shared<std::vector<long>>(3, id); std::weak_ptr<std::vector<long>> weak = list;
            auto f = pool.enqueue([pp, id, s] (std::string a, std::shared_ptr<std::vector<long>> b, int c) {
                { Rt q; if (a != std::string(40 + id % 3, 'a' + id % 26) || !b || b->size() != 3 || (*b)[1] != id || c != id) violation("task runs with other arguments than it was given: task %d", id); }
                return body(pp, id, s, nullptr, nullptr);
            }, text, list, id);
            text.assign(text.size(), '!'); list.reset(); (void)weak;
            { Rt q; L->t[id].accepted = true; L->t[id].before_stop = true; event("accepted", id); }
            mine.push_back(Pending{id, std::move(f), s});
        } else {
            size_t k; { Rt q; k = choose(W, mine.size()); }
            if (op == 3) { check_result(mine[k]); mine.erase(mine.begin() + k); }
            else { if (mine[k].f.wait_for(std::chrono::seconds(0)) == std::future_status::ready) { check_result(mine[k]); mine.erase(mine.begin() + k); } }
        }
    }
    int leave; { Rt q; leave = (int)choose(W, 3); }
    if (leave == 0) { for (auto& p : mine) check_result(p); }           // collect all
    else if (leave == 1) { for (size_t i = mine.size(); i-- > 0;) check_result(mine[i]); }
    // else: futures are dropped; tasks must still run
}

// Many small tasks, all submitted before any result is asked for, collected in one of several orders.
void storm(mara::thread_pool_t& pool, std::vector<std::unique_ptr<Slot>>& slots, int n, bool throws) {
    std::vector<Pending> mine; { Rt q; mine.reserve(n); }
    for (int i = 0; i < n; ++i) {
        int kind; { Rt q; kind = throws && choose(W, 8) == 7 ? THROW : VALUE; }
        int id = new_task(kind); Slot* s; { Rt q; slots.push_back(std::make_unique<Slot>()); s = slots.back().get(); }
        auto pp = &pool;
        auto f = pool.enqueue([pp, id, s] { return body(pp, id, s, nullptr, nullptr); });
        { Rt q; L->t[id].accepted = L->t[id].before_stop = true; }
        mine.push_back(Pending{id, std::move(f), s});
    }
    int order; { Rt q; order = (int)choose(W, 3); count("storm_tasks", n); }
    if (order == 0) for (auto& p : mine) check_result(p);
    else if (order == 1) for (size_t i = mine.size(); i-- > 0;) check_result(mine[i]);
}

void check_drained(const char* when) {
    Rt q;
    for (auto& t : L->t) {
        if (t.before_stop && t.ran != 1) violation("task lost: task %d was accepted before %s and has run %d times", t.id, when, t.ran);
        if (t.ran > 1) violation("task executed twice: task %d", t.id);
    }
    if (L->running) violation("task still running after %s returned", when);
}

void setup() { Rt q; L = new Ledger; }

// P01: exactly once, each future its own outcome
void run_exactly_once() {
    setup();
    auto cfg = random_sched(); cfg.step_budget = 12000000;
    hang_label = "results never delivered";
    int workers = 1 + (int)choose(W, 4), clients = (int)choose(W, 4), nops = 2 + (int)choose(W, 12);
    bool throws = choose(W, 2), nested = choose(W, 2);
    if (choose(W, 16) == 15) { workers = 6; clients = 6; nops = 4; }
    L->workers = workers;
    activate(cfg);
    std::vector<std::unique_ptr<Slot>> slots; { Rt q; slots.reserve(16384); }
    {
        mara::thread_pool_t pool(workers);
        std::vector<int> ids;
        for (int c = 0; c < clients; ++c) ids.push_back(sim::spawn([&] { client(pool, slots, nops, throws, nested); }));
        client(pool, slots, nops, throws, nested);
        int n = 0; { Rt q; if (choose(W, 12) == 11) n = 20 << choose(W, 5); }
        if (n) storm(pool, slots, n, throws);
        for (int i : ids) sim::join(i);
        int how; { Rt q; how = (int)choose(W, 3); }
        if (how == 1) { pool.stop_all(); check_drained("stop"); }
        if (how == 2) {
            int w2; { Rt q; w2 = 1 + (int)choose(W, 4); L->workers = std::max(workers, w2); }
            pool.restart(w2);
            check_drained("restart");
            { Rt q; L->workers = w2; }
            client(pool, slots, nops, throws, false);
        }
    }
    check_drained("destruction");
    Rt q;
    if (workers == 1 && clients == 0 && !nested) {
        for (size_t i = 1; i < L->started.size(); ++i) if (L->workers == 1 && L->started[i] < L->started[i - 1]) violation("submission order broken: one worker started task %d before task %d", L->started[i - 1], L->started[i]);
    }
    count("tasks", L->t.size()); if (L->max_running > 1) count("runs_with_parallel_tasks");
    for (auto& t : L->t) if (t.kind == THROW || t.kind == THROW_INT) count_fault("task_throws");
}

// P02: stop / restart / destroy always finish, whatever the phase of every worker
void run_lifecycle() {
    setup();
    auto cfg = random_sched(); cfg.step_budget = 12000000;
    hang_label = "shutdown never completes";
    int rounds = 1 + (int)choose(W, 4);
    activate(cfg);
    std::vector<std::unique_ptr<Slot>> slots; { Rt q; slots.reserve(16384); }
    int w = 1 + (int)choose(W, 4);
    bool throws = choose(W, 3) == 2;
    { Rt q; L->workers = w; }
    auto pool = std::make_unique<mara::thread_pool_t>(w);
    int cw = w; bool stopped = false;
    std::vector<Pending> waiting;       // submitted to a stopped pool: run after the next restart
    for (int r = 0; r < rounds; ++r) {
        int op; { Rt q; op = (int)choose(W, 8); if (op == 7 && choose(W, 3)) op = 0; }
        if (op <= 1 && !stopped) { client(*pool, slots, 1 + (int)choose(W, 5), throws, true); }
        else if (op == 2) { pool->stop_all(); stopped = true; check_drained("stop"); }
        else if (op == 3 || (stopped && op <= 1)) {
            int n; { Rt q; n = 1 + (int)choose(W, 5); L->workers = std::max(cw, n); }
            pool->restart(n);
            if (!stopped) check_drained("restart");
            { Rt q; L->workers = n; } cw = n; stopped = false;
            int collect; { Rt q; for (auto& p : waiting) L->t[p.id].before_stop = true; collect = (int)choose(W, 2); }
            if (collect) for (auto& p : waiting) check_result(p);
            waiting.clear();
        }
        else if (stopped && op == 4) {
            int n; { Rt q; n = 1 + (int)choose(W, 3); count("submitted_while_stopped", n); }
            for (int i = 0; i < n; ++i) {
                int id = new_task(VALUE); Slot* s; { Rt q; slots.push_back(std::make_unique<Slot>()); s = slots.back().get(); L->t[id].accepted = true; }
                auto pp = pool.get();
                auto f = pool->enqueue([pp, id, s] { return body(pp, id, s, nullptr, nullptr); });
                waiting.push_back(Pending{id, std::move(f), s});
            }
        }
        else if (op == 4 && !stopped && !throws) {
            // as many mutually waiting tasks as workers: all must be able to run at once
            auto g = std::make_shared<Gate>(); g->need = cw;
            std::vector<std::future<long>> fs; std::vector<int> ids;
            for (int i = 0; i < cw; ++i) {
                int id = new_task(RENDEZVOUS); Slot* s; { Rt q; slots.push_back(std::make_unique<Slot>()); s = slots.back().get(); }
                auto pp = pool.get();
                fs.push_back(pool->enqueue([pp, id, s, g] { return body(pp, id, s, g, nullptr); }));
                { Rt q; L->t[id].accepted = L->t[id].before_stop = true; } ids.push_back(id);
            }
            bool wait; { Rt q; wait = choose(W, 2); }
            if (wait) for (int i = 0; i < cw; ++i) { long v = fs[i].get(); if (v != value_of(ids[i])) violation("wrong result: future of task %d", ids[i]); }
            count("rendezvous_rounds");
        }
        else if (op == 7 && !stopped) {
            int n; { Rt q; n = 20 << choose(W, 5); }
            storm(*pool, slots, n, throws);
        }
        else if (op == 5) { int n = (int)choose(W, 30); for (int i = 0; i < n; ++i) sim::yield(); }
        else if (op == 6) {
            // submit while another thread destroys/stops is not allowed; submit right before instead
            if (!stopped) client(*pool, slots, 1, false, false);
            pool.reset(); waiting.clear();
            check_drained("destruction");
            int n; { Rt q; n = 1 + (int)choose(W, 4); L->workers = n; }
            pool = std::make_unique<mara::thread_pool_t>(n); cw = n; stopped = false;
        }
    }
    pool.reset();
    check_drained("destruction");
    Rt q;
    if (live_threads() != 1) violation("worker threads outlive the pool: %d threads left", live_threads() - 1);
    count("lifecycle_rounds", rounds);
}

void judge(Ctx& c, const Outcome& o, const char* what) {
    if (o.kind == Outcome::OK) { c.trivial = o.switches < 2; return; }
    if (o.kind == Outcome::ERROR) { c.fail("ERROR: %s", o.msg.c_str()); return; }
    if (o.kind == Outcome::SIGNAL) { c.fail("process died (signal %d): %s; stderr: %.300s", o.code, what, o.err.c_str()); return; }
    if (o.kind == Outcome::EXIT) { c.fail("process exited %d: %s", o.code, what); return; }
    c.fail("%s", o.msg.c_str());
}
Register r1("pool_exactly_once", [](Ctx& c) {
    auto o = c.segment(run_exactly_once);
    c.note("%lu scheduler steps, %lu switches, outcome %s", (unsigned long)o.steps, (unsigned long)o.switches, o.kind_name());
    judge(c, o, "thread pool workload");
});
Register r2("pool_lifecycle", [](Ctx& c) {
    auto o = c.segment(run_lifecycle);
    c.note("%lu scheduler steps, %lu switches, outcome %s", (unsigned long)o.steps, (unsigned long)o.switches, o.kind_name());
    judge(c, o, "thread pool lifecycle");
});
}

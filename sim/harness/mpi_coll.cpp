// Collective operations and communicator ownership against a model indexed by rank.
#include "mpi_common.hpp"
using namespace sim; using namespace sim::mpih;
namespace {
struct V3 { double a, b; int c; char pad[4]; };
template<class T> T val(uint64_t k) {
    uint64_t x = (k + 1) * 0x9E3779B97F4A7C15ull; x ^= x >> 29;
    if constexpr (std::is_same_v<T, V3>) { V3 v; memset((void*)&v, 0, sizeof v); v.a = (double)(x >> 12); v.b = -v.a; v.c = (int)k; return v; }
    else if constexpr (std::is_same_v<T, double>) return (double)(x >> 11) * 0.37;
    else return (T)x;
}
template<class T> bool same(const T& a, const T& b) { return memcmp(&a, &b, sizeof a) == 0; }
struct Step { int op, type, root, comm; uint64_t salt; std::vector<int> len; int bad; bool big; };
std::vector<Step>* P;
std::vector<int>* entered;       // per step: ranks that have entered
int size_of(const Step& s, int from, int to, int n) { return s.len[(from * 3 + to * 7) % s.len.size()] % (n + 4) + (s.big && (from + to + (int)s.salt) % n == 0 ? (s.type == 1 ? 70001 : 9001) : 0); }

template<class F> void refused(F&& f, const char* what, int me) { bool threw = false; try { f(); } catch (const std::invalid_argument&) { threw = true; } if (!threw) { Rt q; violation("%s accepts a buffer of the wrong length: rank %d", what, me); } }
template<class T> void one(mpi::Communicator& c, const Step& s, int me, int n) {
    auto key = [&] (int from, int to, int i) { return s.salt + from * 10007 + to * 101 + i; };
    switch (s.op) {
        case 0: { T v = c.rank() == s.root ? val<T>(key(s.root, 0, 0)) : val<T>(99999 + me); c.bcast(s.root, v); if (!same(v, val<T>(key(s.root, 0, 0)))) { Rt q; violation("broadcast gives another value: rank %d", me); } break; }
        case 1: { std::vector<T> v; if (me == s.root) for (int i = 0; i < n; ++i) v.push_back(val<T>(key(me, i, 0))); else for (int i = 0; i < s.bad; ++i) v.push_back(val<T>(7)); if (me == s.root && s.bad == 2) refused([&] { auto u = v; u.resize(n + (s.salt & 1 ? 1 : -1)); c.scatter(s.root, u); }, "scatter", me); T r = c.scatter(s.root, v); if (!same(r, val<T>(key(s.root, me, 0)))) { Rt q; violation("scatter gives another value: rank %d", me); } break; }
        case 2: {
            std::vector<std::vector<T>> v; if (me == s.root) for (int i = 0; i < n; ++i) { v.emplace_back(); for (int j = 0; j < size_of(s, me, i, n); ++j) v.back().push_back(val<T>(key(me, i, j))); }
            else for (int i = 0; i < s.bad * 2; ++i) v.emplace_back(i + 1, val<T>(7));        // ignored
            if (me == s.root && s.bad == 2) refused([&] { auto u = v; u.resize(n + (s.salt & 1 ? 1 : -1)); c.scatter(s.root, u); }, "scatter of lists", me);
            std::vector<T> r = c.scatter(s.root, v);
            if ((int)r.size() != size_of(s, s.root, me, n)) { Rt q; violation("scatter gives another length: rank %d got %zu, expected %d", me, r.size(), size_of(s, s.root, me, n)); }
            for (size_t j = 0; j < r.size(); ++j) if (!same(r[j], val<T>(key(s.root, me, j)))) { Rt q; violation("scatter gives another value: rank %d item %zu", me, j); }
            break; }
        case 3: { std::vector<T> v; for (int i = 0; i < n; ++i) v.push_back(val<T>(key(me, i, 0))); auto r = c.all_to_all(v); if ((int)r.size() != n) { Rt q; violation("all-to-all gives another length: rank %d", me); } for (int i = 0; i < n; ++i) if (!same(r[i], val<T>(key(i, me, 0)))) { Rt q; violation("all-to-all gives another value: rank %d from %d", me, i); } break; }
        case 4: { auto r = c.all_gather(val<T>(key(me, 0, 0))); if ((int)r.size() != n) { Rt q; violation("all-gather gives another length: rank %d", me); } for (int i = 0; i < n; ++i) if (!same(r[i], val<T>(key(i, 0, 0)))) { Rt q; violation("all-gather gives another value: rank %d from %d", me, i); } break; }
        case 5: {
            std::vector<T> v; for (int j = 0; j < size_of(s, me, 0, n); ++j) v.push_back(val<T>(key(me, 0, j)));
            auto r = c.all_gather(v);
            if ((int)r.size() != n) { Rt q; violation("all-gather gives another length: rank %d", me); }
            for (int i = 0; i < n; ++i) { if ((int)r[i].size() != size_of(s, i, 0, n)) { Rt q; violation("all-gather gives another length: rank %d from %d: %zu, expected %d", me, i, r[i].size(), size_of(s, i, 0, n)); } for (size_t j = 0; j < r[i].size(); ++j) if (!same(r[i][j], val<T>(key(i, 0, j)))) { Rt q; violation("all-gather gives another value: rank %d from %d item %zu", me, i, j); } }
            break; }
        case 7: { bool threw = false; try { c.all_to_all(std::vector<T>(n + 1 + s.bad)); } catch (const std::invalid_argument&) { threw = true; } if (!threw) { Rt q; violation("all-to-all accepts a buffer of the wrong length: rank %d", me); } break; }
        default: break;
    }
}
void coll_rank(int me, int n, int ncomm) {
    auto session = mpi::Session();
    std::vector<mpi::Communicator> comms; comms.push_back(mpi::comm_world());
    for (int i = 1; i < ncomm; ++i) { mpi::Communicator c(comms[0]); comms.push_back(std::move(c)); }
    if (mpi::is_master() != (me == 0)) { Rt q; violation("master rank misidentified: rank %d", me); }
    for (size_t k = 0; k < P->size(); ++k) {
        const Step& s = (*P)[k]; auto& c = comms[s.comm];
        if (c.size() != n || c.rank() != me) { Rt q; violation("communicator reports the wrong rank or size: rank %d", me); }
        { Rt q; (*entered)[k]++; event("enter", me, k); }
        // a message in flight on the same communicator must not disturb the collective
        mpi::Request side; bool ring = s.bad == 1 && n > 1;
        if (ring) side = c.isend(std::string("ring") + std::to_string(k), (me + 1) % n, 5);
        if (s.op == 6) { c.barrier(); Rt q; if ((*entered)[k] != n) violation("barrier passed before every rank reached it: rank %d saw %d of %d", me, (*entered)[k], n); }
        else switch (s.type) { case 0: one<int>(c, s, me, n); break; case 1: one<char>(c, s, me, n); break; case 2: one<double>(c, s, me, n); break; default: one<V3>(c, s, me, n); }
        if (ring) { auto b = c.recv((me + n - 1) % n, 5); if (b != "ring" + std::to_string(k)) { Rt q; violation("message content damaged: ring message"); } side.wait(); }
        count("collectives");
    }
}
void run_coll() {
    auto cfg = random_sched(); cfg.step_budget = 20000000; hang_label = "collective never completes";
    auto wc = mpisim::random_config(5); if (choose(W, 8) == 7) wc.ranks = 1; int ncomm = 1 + (int)choose(W, 2);
    { Rt q; P = new std::vector<Step>; int k = 1 + (int)choose(W, 8);
      for (int i = 0; i < k; ++i) { Step s; s.op = (int)choose(W, 8); s.type = (int)choose(W, 4); s.root = (int)choose(W, wc.ranks); s.comm = (int)choose(W, ncomm); s.salt = choose(W, 1 << 20); s.bad = (int)choose(W, 3); s.big = choose(W, 12) == 11; int l = 1 + (int)choose(W, 5); for (int j = 0; j < l; ++j) s.len.push_back((int)choose(W, 8)); P->push_back(s); }
      entered = new std::vector<int>(k, 0); }
    activate(cfg);
    mpisim::world(wc, [&] (int me) { coll_rank(me, wc.ranks, ncomm); });
    if (mpisim::totals().undelivered) violation("message left over");
}

// ------------------------------------------------------------------ communicators own their handles
struct COp { int op, a, b; };
std::vector<COp>* Q;
constexpr int NS = 4;
void comm_rank(int me, int n) {
    auto session = mpi::Session();
    {
        mpi::Communicator slot[NS]; int model[NS] = {0, 0, 0, 0}; int next = 1;    // model: 0 null, else identity
        std::vector<mpi::Communicator> box; std::vector<int> boxm;
        auto check = [&] (mpi::Communicator& c, int m, const char* when) {
            if (c.is_null() != (m == 0)) { Rt q; violation("communicator is %s, expected %s: after %s on rank %d", c.is_null() ? "null" : "open", m ? "open" : "null", when, me); }
            if (m ? (c.size() != n || c.rank() != me) : (c.size() != 0 || c.rank() != -1)) { Rt q; violation("communicator reports the wrong rank or size: after %s on rank %d", when, me); }
        };
        for (auto& o : *Q) {
            auto& A = slot[o.a]; auto& B = slot[o.b]; const char* name = "";
            switch (o.op) {
                case 0: name = "opening"; A = mpi::comm_world(); model[o.a] = next++; break;
                case 1: name = "copy assignment"; A = B; if (o.a != o.b) model[o.a] = model[o.b] ? next++ : 0; break;
                case 2: name = "move assignment"; A = std::move(B); if (o.a == o.b) break; model[o.a] = model[o.b]; model[o.b] = 0; break;
                case 3: name = "closing"; A.close(); model[o.a] = 0; break;
                case 4: name = "copy construction"; { mpi::Communicator t(B); check(t, model[o.b], name); if (model[o.b]) next++; } break;
                case 5: name = "swap"; std::swap(A, B); std::swap(model[o.a], model[o.b]); break;
                case 6: name = "storing a copy"; box.push_back(A); boxm.push_back(model[o.a] ? next++ : 0); break;
                case 7: name = "storing by move"; box.push_back(std::move(A)); boxm.push_back(model[o.a]); model[o.a] = 0; break;
                case 8: name = "reset"; A = mpi::Communicator(); model[o.a] = 0; break;
                case 9: if (box.empty()) break; name = "taking back"; A = std::move(box.back()); model[o.a] = boxm.back(); box.pop_back(); boxm.pop_back(); break;
                case 10: { // isolation: the same tag on every open communicator, received in another order
                    std::vector<mpi::Request> v; std::vector<int> open;
                    for (int i = 0; i < NS; ++i) if (model[i]) open.push_back(i);
                    for (int i : open) v.push_back(slot[i].isend(std::string("slot ") + std::to_string(i), (me + 1) % n, 1));
                    if (o.b & 1) std::reverse(open.begin(), open.end());
                    for (int i : open) { auto s = slot[i].recv((me + n - 1) % n, 1); if (s != "slot " + std::to_string(i)) { Rt q; violation("communicators share messages: slot %d of rank %d received '%s'", i, me, s.c_str()); } }
                    for (auto& r : v) r.wait();
                    break; }
            }
            for (int i = 0; i < NS; ++i) check(slot[i], model[i], name);
            for (size_t i = 0; i < box.size(); ++i) check(box[i], boxm[i], name);
            count("communicator_operations");
        }
    }
}
void run_comm() {
    auto cfg = random_sched(); cfg.step_budget = 20000000; hang_label = "communicator operation never completes";
    auto wc = mpisim::random_config(3); if (choose(W, 6) == 5) wc.ranks = 1;
    { Rt q; Q = new std::vector<COp>; int k = 2 + (int)choose(W, 16); if (choose(W, 4)) { Q->push_back({0, 0, 0}); Q->push_back({(int)choose(W, 2), 1, 0}); } for (int i = 0; i < k; ++i) Q->push_back({(int)choose(W, 11), (int)choose(W, NS), (int)choose(W, NS)}); }
    activate(cfg);
    mpisim::world(wc, [&] (int me) { comm_rank(me, wc.ranks); });
    if (mpisim::totals().undelivered) violation("message left over");
}
Register r1("mpi_collectives", [](Ctx& c) { auto o = c.segment(run_coll); c.note("collectives: %lu steps, %lu switches, outcome %s", (unsigned long)o.steps, (unsigned long)o.switches, o.kind_name()); judge(c, o, "collective operations"); });
Register r2("mpi_communicators", [](Ctx& c) { auto o = c.segment(run_comm); c.note("communicators: %lu steps, %lu switches, outcome %s", (unsigned long)o.steps, (unsigned long)o.switches, o.kind_name()); judge(c, o, "communicator operations"); });
}

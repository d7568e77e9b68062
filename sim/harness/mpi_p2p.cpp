// Point-to-point messages and non-blocking requests against a ledger of every message sent.
#include "mpi_common.hpp"
using namespace sim; using namespace sim::mpih;
namespace {
struct T12 { int id; int a; char pad[4]; };
struct Small { unsigned short id; };
struct Big { int id; double x[40]; };
template<class T> T typed(int id) { T t; memset((void*)&t, 0, sizeof t); t.id = id; if constexpr (sizeof(T) > 16) for (int i = 0; i < 40; ++i) t.x[i] = id * 1.5 + i; if constexpr (sizeof(T) == 12) t.a = ~id; return t; }

struct M { int id, src, dst, tag, comm; size_t n; int typed; };
struct Round { int style; int comm; int filter; bool probe_first; std::vector<M> ms; std::vector<std::vector<int>> order; };
Ledger* L;
std::vector<Round>* R;
const size_t SZ[] = {8, 2, 3, 15, 16, 17, 64, 65, 200, 1000, 5000, 70000};
const int TAGS[] = {7, 1, 32767, 1000003};

void make_plan(int P, int ncomm) {
    Rt q; L = new Ledger; R = new std::vector<Round>;
    int rounds = 1 + (int)choose(W, 3);
    for (int k = 0; k < rounds; ++k) {
        Round r; r.style = (int)choose(W, 4); r.comm = (int)choose(W, ncomm); r.filter = (int)choose(W, 4); r.probe_first = choose(W, 3) == 2;
        int n = 1 + (int)choose(W, 8), ntag = 1 + (int)choose(W, 3); int cut = 1 + (int)choose(W, P - 1);
        int same = r.style == 3 && choose(W, 2) ? 1 + (int)choose(W, 3) : 0;       // one type for all: then wildcards can be used
        if (r.style == 3 && !same) { r.filter = 3; }
        int tagstep = TAGS[choose(W, 4)];
        for (int i = 0; i < n; ++i) {
            M m{}; m.tag = (int)choose(W, ntag) * tagstep; m.comm = r.style == 0 ? r.comm : (int)choose(W, ncomm);
            if (r.style == 0) { m.src = (int)choose(W, cut); m.dst = cut + (int)choose(W, P - cut); if (choose(W, 8) == 7 && cut > 1) {} }
            else { m.src = (int)choose(W, P); m.dst = (int)choose(W, P); }
            m.n = SZ[choose(W, 32) == 31 ? 11 : choose(W, 11)];
            if (r.style != 0 && r.filter == 3 && choose(W, 6) == 5) m.n = choose(W, 2);
            m.typed = r.style == 3 ? same ? same : 1 + (int)choose(W, 3) : 0;
            if (m.typed) m.n = m.typed == 1 ? sizeof(T12) : m.typed == 2 ? sizeof(Small) : sizeof(Big);
            r.ms.push_back(m);
        }
        R->push_back(r);
    }
}
std::string body(const M& m) {
    Rt q;
    auto raw = [] (auto t) { return std::string((const char*)&t, sizeof t); };
    return m.typed == 1 ? raw(typed<T12>(m.id)) : m.typed == 2 ? raw(typed<Small>(m.id)) : m.typed == 3 ? raw(typed<Big>(m.id)) : payload(m.id, m.n);
}
// what is still to come for (dst, comm) in round r, as (filter source, filter tag) receives
std::vector<std::array<int, 4>> receives(const Round& r, int dst) {
    Rt q; std::vector<std::array<int, 4>> v;
    for (auto& m : r.ms) if (m.dst == dst) {
        int f = r.style == 0 ? 0 : r.filter;
        v.push_back({m.comm, f == 0 || f == 1 ? mpi::any_source : m.src, f == 0 || f == 2 ? mpi::any_tag : m.tag, m.typed});
    }
    // typed receives must stay in channel order; others in any order
    for (size_t i = v.size(); i > 1; --i) { size_t j = choose(W, i); if (r.style != 3 && r.style != 0) std::swap(v[i - 1], v[j]); }
    return v;
}
struct PendingRecv { int comm, src, tag; int typed; mpi::Request q; };

void rank_main(int me, int ncomm, const std::vector<std::vector<std::vector<std::array<int,4>>>>& rx) {
    auto session = mpi::Session();
    std::vector<mpi::Communicator> comms;
    for (int i = 0; i < ncomm; ++i) { if (i == 0) comms.push_back(mpi::comm_world()); else { auto c = comms[0]; comms.push_back(std::move(c)); } }
    for (size_t k = 0; k < R->size(); ++k) {
        const Round& r = (*R)[k];
        const auto& mine = rx[k][me];
        std::vector<mpi::Request> pending;
        auto send_all = [&] (bool blocking) {
            for (auto& m : r.ms) if (m.src == me) {
                auto& c = comms[m.comm];
                if (m.typed == 0) { std::string b = body(m); if (blocking) c.send(b, m.dst, m.tag); else pending.push_back(c.isend(b, m.dst, m.tag)); }
                else if (m.typed == 1) { auto v = typed<T12>(m.id); if (blocking) c.send(v, m.dst, m.tag); else pending.push_back(c.isend(v, m.dst, m.tag)); }
                else if (m.typed == 2) { auto v = typed<Small>(m.id); if (blocking) c.send(v, m.dst, m.tag); else pending.push_back(c.isend(v, m.dst, m.tag)); }
                else { auto v = typed<Big>(m.id); if (blocking) c.send(v, m.dst, m.tag); else pending.push_back(c.isend(v, m.dst, m.tag)); }
            }
        };
        auto take = [&] (int comm, int src, int tag, const std::string& s, int es, int et) {
            Rt q; (void)0;
            L->receive(me, comm, src, tag, s, es, et);
        };
        send_all(r.style == 0);
        if (r.style == 2) {
            // polling receives, several outstanding at a time
            std::vector<PendingRecv> pr; size_t done = 0, next = 0; std::vector<char> started(mine.size(), 0);
            while (done < mine.size()) {
                for (size_t i = 0; i < mine.size(); ++i) if (!started[i]) {
                    // an earlier receive with an overlapping filter goes first only if it is identical; otherwise any order is fine
                    auto q = comms[mine[i][0]].irecv(mine[i][1], mine[i][2]);
                    if (q.is_null()) continue;
                    started[i] = 1; PendingRecv p; p.comm = mine[i][0]; p.src = mine[i][1]; p.tag = mine[i][2]; p.typed = 0; p.q = std::move(q); pr.push_back(std::move(p));
                    break;
                }
                for (size_t i = 0; i < pr.size(); ++i) if (!pr[i].q.is_null() && pr[i].q.is_ready()) { if (i != next) break; std::string s = pr[i].q.get(); take(pr[i].comm, pr[i].src, pr[i].tag, s, -9, -9); next = i + 1; done++; }
                sim::yield();
            }
        } else {
            for (auto& x : mine) {
                auto& c = comms[x[0]];
                if (x[3] == 0) {
                    if (r.probe_first) {
                        auto st = c.probe(x[1], x[2]);
                        int es = st.source(), et = st.tag(), en = st.count();
                        auto s = c.recv(es, et);
                        if ((int)s.size() != en) { Rt q; violation("probed size and received size differ: %d and %zu", en, s.size()); }
                        take(x[0], x[1], x[2], s, es, et);
                    } else take(x[0], x[1], x[2], c.recv(x[1], x[2]), -9, -9);
                } else {
                    auto chk = [&] (auto t) { std::string s((const char*)&t, sizeof t); take(x[0], x[1], x[2], s, -9, -9); };
                    if (x[3] == 1) chk(c.recv<T12>(x[1], x[2])); else if (x[3] == 2) chk(c.recv<Small>(x[1], x[2])); else chk(c.recv<Big>(x[1], x[2]));
                }
                count("messages_received");
            }
        }
        for (auto& q : pending) { q.wait(); if (!q.is_null()) { Rt z; violation("completed request is not null"); } }
        comms[0].barrier();
    }
}
void run_p2p() {
    auto cfg = random_sched(); cfg.step_budget = 20000000; hang_label = "messages never arrive";
    auto wc = mpisim::random_config(4); int ncomm = 1 + (int)choose(W, 2);
    make_plan(wc.ranks, ncomm);
    std::vector<std::vector<std::vector<std::array<int,4>>>> rx;
    {
        Rt q;
        for (auto& r : *R) {
            for (auto& m : r.ms) { m.id = L->add(m.src, m.dst, m.comm, m.tag, m.n); L->v.back().body = body(m); }
            std::vector<std::vector<std::array<int,4>>> v; for (int p = 0; p < wc.ranks; ++p) v.push_back(receives(r, p)); rx.push_back(v);
        }
    }
    activate(cfg);
    mpisim::world(wc, [&] (int me) { rank_main(me, ncomm, rx); });
    L->all_received();
    if (mpisim::totals().undelivered) violation("message left over after all were received");
}

// ------------------------------------------------------------------ request lifetime
// the content of a request by type, if its size is one of a few
template<size_t N> struct Bytes { char c[N]; };
template<size_t N> std::string typed_get(mpi::Request& q) { auto b = q.get<Bytes<N>>(); return std::string(b.c, N); }
std::string content(mpi::Request& q, int n, bool typed) {
    if (typed) switch (n) { case 1: return typed_get<1>(q); case 8: return typed_get<8>(q); case 15: return typed_get<15>(q); case 16: return typed_get<16>(q); case 20: return typed_get<20>(q); case 64: return typed_get<64>(q); case 100: return typed_get<100>(q); default: break; }
    return q.get();
}
void req_rank(int me, int P, const std::vector<std::vector<int>>& script) {
    auto session = mpi::Session();
    auto comm = mpi::comm_world();
    {
        // senders: even ranks; every receiver ends a channel with a marker
        std::vector<mpi::Request> v; std::vector<int> ids;
        const auto& s = script[me];
        mpi::Request spare, spare_in; std::vector<mpi::Request> self, loose; int turn = s.back();
        // messages nobody has to receive: receives of them are dropped, replaced, cancelled or completed
        auto loose_receive = [&] {
            int k = ++turn % 7; if (k < 2) return;
            auto r = comm.irecv(mpi::any_source, 5); if (r.is_null()) return;
            if (k == 2) return;
            if (k == 3) { spare_in = std::move(r); return; }
            if (k == 4) { r.cancel(); if (!r.is_null()) { Rt q; violation("a cancelled request is not null"); } return; }
            if (k == 5) { mpi::Request r2; r2 = std::move(r); if (!r.is_null()) { Rt q; violation("a moved-from request is not null"); } }
            else { std::string b = r.get(); L->receive(me, 0, mpi::any_source, 5, b); }
            count("loose_receives");
        };
        if (!spare.is_null() || !spare.is_ready()) { Rt q; violation("a default request is not a null request"); }
        spare.wait(); spare.cancel();
        for (size_t i = 0; i + 3 < s.size(); i += 4) {
            int dst = (me + 1 + s[i] % (P - 1)) % P, op = s[i + 1] % 8; size_t n = SZ[s[i + 2] % 11]; int tag = 3;
            int id = L->add(me, dst, 0, tag, n); std::string b = [&] { Rt q; return payload(id, n); }();
            auto drop = [&] { Rt q; L->v[id - 1].optional = true; };
            if (op == 0) v.push_back(comm.isend(b, dst, tag));
            else if (op == 1) { drop(); auto r = comm.isend(b, dst, tag); if (s[i + 3] & 1) sim::yield(); }          // dropped
            else if (op == 2) { { Rt q; for (auto& x : ids) L->v[x - 1].optional = true; } ids.clear(); spare = comm.isend(b, dst, tag); ids.push_back(id); }   // replaces, and so cancels, what was held before
            else if (op == 3) { auto r = comm.isend(b, dst, tag); mpi::Request r2(std::move(r)); if (!r.is_null()) { Rt q; violation("a moved-from request is not null"); } v.push_back(std::move(r2)); }
            else if (op == 4) { drop(); auto r = comm.isend(b, dst, tag); r.cancel(); if (!r.is_null()) { Rt q; violation("a cancelled request is not null"); } r.cancel(); }
            else if (op == 5) { auto r = comm.isend(b, dst, tag); for (int k = 0; k < s[i + 3] % 5; ++k) if (r.is_ready()) break; v.push_back(std::move(r)); }
            else if (op == 6 && v.size() > 1) { v.push_back(comm.isend(b, dst, tag)); std::swap(v.front(), v.back()); }
            else { v.push_back(comm.isend(b, dst, tag)); self.insert(self.begin(), comm.isend(std::string("x"), me, 9)); }
            if (s[i + 3] % 3 == 2) { int z = L->add(me, dst, 0, 5, n); { Rt q; L->v[z - 1].optional = true; } loose.push_back(comm.isend([&] { Rt q; return payload(z, n); }(), dst, 5)); }
            if (s[i + 3] % 5 == 4) loose_receive();
            count("requests");
        }
        // end of stream markers
        for (int d = 0; d < P; ++d) if (d != me) v.push_back(comm.isend(std::string("end of stream marker"), d, 3));
        // receive: per source until the marker
        std::vector<char> open(P, 1); open[me] = 0; int left = P - 1; int mode = s[s.size() - 1] % 3;
        struct In { int first; mpi::Request second; int n; };
        std::vector<In> in; auto put = [&] (int src, mpi::Request&& r, int n) { In x; x.first = src; x.second = std::move(r); x.n = n; in.push_back(std::move(x)); };
        while (left) {
            loose_receive();
            if (mode == 0) {
                for (int src = 0; src < P; ++src) if (open[src]) {
                    auto b = comm.recv(src, 3);
                    if (b == "end of stream marker") { open[src] = 0; --left; } else L->receive(me, 0, src, 3, b);
                }
            } else {
                for (int src = 0; src < P; ++src) if (open[src]) {
                    int n = comm.iprobe(src, 3).count();
                    auto r = comm.irecv(src, 3);
                    bool none = r.is_null(); if (!none && n == 0) n = -1;
                    if (none) { sim::yield(); if (in.empty()) continue; }
                    else if (mode == 2) { put(src, std::move(r), n); std::vector<In> moved = std::move(in); in = std::move(moved); }
                    else put(src, std::move(r), n);
                    // complete the oldest
                    if (!none && (int)in.size() <= s[s.size() - 1] / 3 % 4) continue;
                    auto x = std::move(in.front()); in.erase(in.begin());
                    std::string b = content(x.second, x.n, s.back() & 1); if (x.second.get() != b) { Rt q; violation("message content changes between two reads"); }
                    if (!x.second.is_null()) { Rt q; violation("a completed request is not null"); }
                    if (b == "end of stream marker") { open[x.first] = 0; --left; } else L->receive(me, 0, x.first, 3, b);
                }
            }
        }
        for (size_t i = 0; i < self.size(); ++i) { auto r = comm.irecv(me, 9); if (r.is_null()) { --i; continue; } if (r.get() != "x") { Rt q; violation("message content damaged: message to self"); } }
        for (auto& r : self) r.wait();
        for (auto& r : v) { r.wait(); if (!r.is_null() || !r.is_ready()) { Rt q; violation("a completed request is not null"); } }
        spare.wait();
    }
    comm.barrier();
    if (!comm.iprobe(mpi::any_source, 3).is_null() || !comm.iprobe(mpi::any_source, 9).is_null()) { Rt q; violation("message left over: rank %d", me); }
}
void run_req() {
    auto cfg = random_sched(); cfg.step_budget = 20000000; hang_label = "requests never complete";
    auto wc = mpisim::random_config(3);
    std::vector<std::vector<int>> script;
    { Rt q; L = new Ledger; for (int p = 0; p < wc.ranks; ++p) { std::vector<int> s; int n = (int)choose(W, 7); for (int i = 0; i < n * 4; ++i) s.push_back((int)choose(W, 1000)); s.push_back((int)choose(W, 12)); script.push_back(s); } }
    activate(cfg);
    mpisim::world(wc, [&] (int me) { req_rank(me, wc.ranks, script); });
    L->all_received();
}
Register r1("mpi_p2p", [](Ctx& c) { auto o = c.segment(run_p2p); c.note("messages: %lu steps, %lu switches, outcome %s", (unsigned long)o.steps, (unsigned long)o.switches, o.kind_name()); judge(c, o, "message passing"); });
Register r2("mpi_requests", [](Ctx& c) { auto o = c.segment(run_req); c.note("requests: %lu steps, %lu switches, outcome %s", (unsigned long)o.steps, (unsigned long)o.switches, o.kind_name()); judge(c, o, "non-blocking requests"); });
}

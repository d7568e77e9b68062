// Message-passing seam: a simulated MPI.  Ranks are simulated threads, the interconnect is a
// simulated thread that moves one envelope or one payload at a time, so that the seeded scheduler
// decides every delivery order the MPI standard permits: per-channel order is kept, everything else
// (arrival order between channels, which source a wildcard matches, when a payload is read from the
// sender's buffer and written to the receiver's) is a choice.
#include "mpi_sim.hpp"
#include <vector>
#include <map>
#include <deque>
#include <list>
#include <memory>
#include <cstring>
#include <cstdlib>

namespace sim { namespace mpisim {
enum MState { INFLIGHT, ARRIVED, MATCHED, DONE, WITHDRAWN };
struct Req;
struct Msg { int id, src, dst, ctx, tag; long seq; MState st = INFLIGHT; const void* sbuf = nullptr; size_t n = 0; std::vector<char> data; bool held = false, probed = false; Req* sreq = nullptr; Req* rreq = nullptr; bool claimed = false; };
struct Req { int id = 0, owner = 0; bool send = false, complete = false, cancel_marked = false, cancelled = false, freed = false; void* rbuf = nullptr; size_t cap = 0; int src = 0, tag = 0, ctx = 0; Msg* m = nullptr; MPI_Status st{}; };
struct CommH { int ctx; int owner; bool freed; };
enum { K_BARRIER = 1, K_DUP, K_BCAST, K_SCATTER, K_GATHER, K_ALLGATHER, K_ALLTOALL };
struct Coll { int kind = 0, root = -1, narrived = 0; std::vector<char> arrived; std::vector<std::vector<std::vector<char>>> part; int newctx = 0; };

static Config C;
static std::vector<int>* tid2rank;
static std::vector<int>* rank_state;                     // 0 not initialised, 1 initialised, 2 finalised
static std::deque<CommH>* comms;
static std::deque<Req>* reqs;
static std::deque<Msg>* msgs;
static std::map<std::tuple<int,int,int>, std::deque<Msg*>>* chan;     // in flight, per (ctx, src, dst)
static std::vector<std::list<Msg*>>* arrived;            // per destination, arrival order
static std::vector<std::list<Req*>>* posted;             // per destination, post order
static std::list<Msg*>* moving;                          // matched, payload to be transferred
static std::list<Req*>* cancels;                         // marked, to be resolved
static std::map<std::pair<int,int>, long>* collno;       // (ctx, rank) -> calls so far
static std::map<std::pair<int,long>, Coll>* colls;
static int next_ctx; static bool net_stop; static Totals tot;

static void setup(int ranks) {
    next_ctx = 2; net_stop = false; tot = Totals{};
    tid2rank = new std::vector<int>(MAXT, -1); rank_state = new std::vector<int>(ranks, 0);
    comms = new std::deque<CommH>{{-1, -1, true}, {0, -1, false}, {1, -1, false}};
    reqs = new std::deque<Req>; msgs = new std::deque<Msg>; chan = new std::map<std::tuple<int,int,int>, std::deque<Msg*>>;
    arrived = new std::vector<std::list<Msg*>>(ranks); posted = new std::vector<std::list<Req*>>(ranks);
    moving = new std::list<Msg*>; cancels = new std::list<Req*>; collno = new std::map<std::pair<int,int>, long>; colls = new std::map<std::pair<int,long>, Coll>;
}
// a program run on its own is rank 0 of a world of one
static void singleton() { C = Config{}; C.ranks = 1; C.leak_check = false; setup(1); (*tid2rank)[self()] = 0; }
int my_rank() { if (!tid2rank) singleton(); int t = self(); if (t < (int)tid2rank->size() && (*tid2rank)[t] >= 0) return (*tid2rank)[t]; violation("MPI call outside a rank: thread %d", t); }
static int me(const char* fn) { int r = my_rank(); if ((*rank_state)[r] != 1) violation("MPI used outside its session: %s on rank %d %s", fn, r, (*rank_state)[r] ? "after finalise" : "before initialisation"); return r; }
static int ctx_of(MPI_Comm c, const char* fn) {
    int r = me(fn);
    if (c <= 0 || c >= (int)comms->size()) violation("operation on a null communicator: %s on rank %d", fn, r);
    auto& h = (*comms)[c];
    if (h.freed) violation("operation on a closed communicator: %s on rank %d", fn, r);
    if (h.owner >= 0 && h.owner != r) violation("ERROR: communicator handle used by another rank");
    return h.ctx;
}
static int csize(int ctx) { return ctx == 1 ? 1 : C.ranks; }
static int crank(int ctx, int r) { return ctx == 1 ? 0 : r; }
static size_t tsize(MPI_Datatype t) { return t - 100; }
static Req* rq(MPI_Request r, const char* fn) {
    int k = me(fn);
    if (r <= 0 || r > (int)reqs->size()) violation("operation on an invalid request: %s on rank %d", fn, k);
    Req* q = &(*reqs)[r - 1];
    if (q->freed) violation("operation on a released request: %s on rank %d", fn, k);
    if (q->owner != k) violation("ERROR: request used by another rank");
    return q;
}
static bool match(const Req* q, const Msg* m) { return q->ctx == m->ctx && (q->src == MPI_ANY_SOURCE || q->src == m->src) && (q->tag == MPI_ANY_TAG || q->tag == m->tag); }
static void tie(Msg* m, Req* q) {
    m->st = MATCHED; m->rreq = q; q->m = m; moving->push_back(m);
    event("match", m->id, q->id);
}
// the arrived message a receive with this filter takes: any source's first match
static Msg* candidate(int dst, int ctx, int src, int tag) {
    std::vector<Msg*> c; std::vector<char> seen(C.ranks, 0);
    for (Msg* m : (*arrived)[dst]) if (m->ctx == ctx && (src == MPI_ANY_SOURCE || src == m->src) && (tag == MPI_ANY_TAG || tag == m->tag) && !seen[m->src]) { seen[m->src] = 1; c.push_back(m); }
    if (c.empty()) return nullptr;
    if (c.size() > 1) { count("wildcard_choice"); return c[choose(S, c.size())]; }
    return c[0];
}
static void finish_recv(Msg* m) {
    Req* q = m->rreq;
    if (m->n > q->cap) violation("message truncated: %zu bytes sent by rank %d with tag %d, receive buffer of rank %d holds %zu", m->n, m->src, m->tag, m->dst, q->cap);
    if (m->n) {
        hb_acquire(m); hb_acquire(q);
        const void* from = m->held ? (const void*)m->data.data() : m->sbuf;
        if (!m->held) touch(m->sbuf, m->n, false);
        touch(q->rbuf, m->n, true);
        memcpy(q->rbuf, from, m->n);
    }
    q->st.MPI_SOURCE = crank(m->ctx, m->src); q->st.MPI_TAG = m->tag; q->st.MPI_ERROR = 0; q->st.sim_bytes = (int)m->n; q->st.sim_cancelled = 0;
    q->complete = true; m->st = DONE; tot.transferred++;
    hb_release(q);
    if (m->sreq && !m->sreq->complete) { m->sreq->complete = true; hb_release(m->sreq); }
    event("transfer", m->id);
}
static void arrive(Msg* m) {
    m->st = ARRIVED; tot.delivered++;
    event("arrive", m->id);
    for (auto i = (*posted)[m->dst].begin(); i != (*posted)[m->dst].end(); ++i) if (match(*i, m)) { Req* q = *i; (*posted)[m->dst].erase(i); tie(m, q); return; }
    (*arrived)[m->dst].push_back(m);
}
static void resolve_cancel(Req* q) {
    if (q->complete) return;
    if (q->send) {
        Msg* m = q->m;
        if (m->st == MATCHED) return;              // completes normally
        if (m->st == INFLIGHT || m->st == ARRIVED) {
            if (!m->probed && choose(S, 2)) {
                if (m->st == ARRIVED) (*arrived)[m->dst].remove(m);
                else { auto& d = (*chan)[{m->ctx, m->src, m->dst}]; for (auto i = d.begin(); i != d.end(); ++i) if (*i == m) { d.erase(i); break; } }
                m->st = WITHDRAWN; q->cancelled = true; tot.withdrawn++; count_fault("send_cancelled");
            } else {
                hb_acquire(m); touch(m->sbuf, m->n, false);
                m->data.assign((const char*)m->sbuf, (const char*)m->sbuf + m->n); m->held = true; count_fault("cancel_too_late");
            }
            q->complete = true; hb_release(q);
        }
    } else {
        auto& l = (*posted)[q->owner];
        for (auto i = l.begin(); i != l.end(); ++i) if (*i == q) { l.erase(i); q->complete = q->cancelled = true; q->st = MPI_Status{}; q->st.sim_cancelled = 1; count_fault("receive_cancelled"); hb_release(q); return; }
    }
}
static void network() {
    Rt r;
    for (;;) {
        block_until("network idle", [] { if (net_stop || !moving->empty() || !cancels->empty()) return true; for (auto& c : *chan) if (!c.second.empty()) return true; return false; });
        std::vector<std::deque<Msg*>*> act; for (auto& c : *chan) if (!c.second.empty()) act.push_back(&c.second);
        size_t n = act.size() + moving->size() + cancels->size();
        if (!n) { if (net_stop) return; continue; }
        size_t k = n > 1 ? choose(S, n) : 0;
        if (k < act.size()) { Msg* m = act[k]->front(); act[k]->pop_front(); for (auto* d : act) if (!d->empty() && d->front()->id < m->id) { count_fault("delivery_reordered"); break; } if (!moving->empty()) count_fault("payload_delayed"); arrive(m); }
        else if ((k -= act.size()) < moving->size()) { auto i = moving->begin(); std::advance(i, k); Msg* m = *i; moving->erase(i); finish_recv(m); }
        else { k -= moving->size(); auto i = cancels->begin(); std::advance(i, k); Req* q = *i; cancels->erase(i); resolve_cancel(q); }
        poke();
        sync_point("network", nullptr);
    }
}
Config random_config(int max_ranks) {
    Config c; c.ranks = 2 + (int)choose(W, max_ranks - 1);
    static const size_t em[] = {64, 0, 8, 1u << 30};
    c.eager_max = em[choose(W, 4)]; c.mixed = choose(W, 4) == 3;
    return c;
}
void world(const Config& cfg, const std::function<void(int)>& fn) {
    Rt rt;
    C = cfg; setup(C.ranks);
    int net = spawn(network);
    std::vector<int> t;
    for (int r = 0; r < C.ranks; ++r) {
        t.push_back(spawn([&fn, r] { { Rt q; (*tid2rank)[self()] = r; } fn(r); { Rt q; if ((*rank_state)[r] == 1) violation("session not finalised: rank %d", r); } }));
    }
    for (int x : t) join(x);
    net_stop = true; poke(); join(net);
    for (auto& a : *arrived) tot.undelivered += a.size();
}
Totals totals() { return tot; }

static Req* new_req(int owner) { reqs->emplace_back(); Req* q = &reqs->back(); q->id = (int)reqs->size(); q->owner = owner; return q; }
static Req* do_send(const void* buf, size_t n, int dest, int tag, int ctx, int r, bool sync, const char* fn) {
    if (dest < 0 || dest >= csize(ctx)) violation("message sent to an invalid rank: %d by rank %d", dest, r);
    if (tag < 0) violation("message sent with an invalid tag: %d by rank %d", tag, r);
    msgs->emplace_back(); Msg* m = &msgs->back();
    m->id = (int)msgs->size(); m->src = r; m->dst = ctx == 1 ? r : dest; m->ctx = ctx; m->tag = tag; m->n = n; m->sbuf = buf;
    Req* q = new_req(r); q->send = true; q->m = m; m->sreq = q; q->ctx = ctx; tot.sent++;
    bool eager = !sync && (C.mixed ? choose(S, 2) == 0 : n <= C.eager_max);
    hb_release(m);
    if (eager) { touch(buf, n, false); m->data.assign((const char*)buf, (const char*)buf + n); m->held = true; q->complete = true; hb_release(q); count("eager_sends"); }
    else count("rendezvous_sends");
    (*chan)[{ctx, m->src, m->dst}].push_back(m);
    event("send", m->id, n);
    poke(); (void)fn;
    return q;
}
static Req* do_recv(void* buf, size_t n, int src, int tag, int ctx, int r) {
    if (src != MPI_ANY_SOURCE && (src < 0 || src >= csize(ctx))) violation("receive from an invalid rank: %d by rank %d", src, r);
    Req* q = new_req(r); q->rbuf = buf; q->cap = n; q->src = ctx == 1 && src == 0 ? r : src; q->tag = tag; q->ctx = ctx;
    hb_release(q);
    if (Msg* m = candidate(r, ctx, q->src, tag)) { (*arrived)[r].remove(m); tie(m, q); }
    else (*posted)[r].push_back(q);
    poke();
    return q;
}
static void fill(MPI_Status* s, const Msg* m) { if (s) { s->MPI_SOURCE = crank(m->ctx, m->src); s->MPI_TAG = m->tag; s->MPI_ERROR = 0; s->sim_bytes = (int)m->n; s->sim_cancelled = 0; } }
static int wait(MPI_Request* r, MPI_Status* s, const char* fn) {
    if (*r == MPI_REQUEST_NULL) { if (s) { *s = MPI_Status{}; s->MPI_SOURCE = MPI_ANY_SOURCE; s->MPI_TAG = MPI_ANY_TAG; } return 0; }
    Req* q = rq(*r, fn);
    block_until("message", [q] { return q->complete; });
    hb_acquire(q);
    if (s) { *s = q->st; s->sim_cancelled = q->cancelled; }
    q->freed = true; *r = MPI_REQUEST_NULL;
    return 0;
}
// ------------------------------------------------------------------ collectives
static Coll& enter(int ctx, int r, int kind, int root, const char* fn, std::pair<int,long>& key) {
    long no = (*collno)[{ctx, r}]++;
    key = {ctx, no};
    Coll& k = (*colls)[key];
    int P = csize(ctx);
    if (!k.kind) { k.kind = kind; k.root = root; k.arrived.assign(P, 0); k.part.assign(P, std::vector<std::vector<char>>(P)); }
    if (k.kind != kind || k.root != root) violation("ranks disagree about a collective operation: %s on rank %d", fn, r);
    if (root != -1 && (root < 0 || root >= P)) violation("collective with an invalid root: %d", root);
    event("coll", kind, no);
    return k;
}
static void arrive_coll(Coll& k, int cr) { k.arrived[cr] = 1; k.narrived++; hb_release(&k); poke(); }
static void await(Coll& k, int who) { Coll* p = &k; block_until("collective", [p, who] { return who < 0 ? p->narrived == (int)p->arrived.size() : (bool)p->arrived[who]; }); hb_acquire(p); }
static std::vector<char> rd(const void* p, size_t n) { touch(p, n, false); return n ? std::vector<char>((const char*)p, (const char*)p + n) : std::vector<char>(); }
static void wr(void* p, const std::vector<char>& v, size_t want, const char* fn) {
    if (v.size() != want) violation("collective message sizes differ: %s on rank %d expects %zu bytes and gets %zu", fn, my_rank(), want, v.size());
    if (want) { touch(p, want, true); memcpy(p, v.data(), want); }
}
}}
using namespace sim; using namespace sim::mpisim;
#define RT Rt rt_guard
int sim_MPI_Init(int*, char***) { RT; int r = my_rank(); if ((*rank_state)[r]) violation("session initialised twice: rank %d", r); (*rank_state)[r] = 1; return 0; }
int sim_MPI_Init_thread(int* a, char*** b, int q, int* p) { *p = q; return sim_MPI_Init(a, b); }
int sim_MPI_Initialized(int* f) { RT; int r = my_rank(); *f = (*rank_state)[r] > 0; return 0; }
int sim_MPI_Finalized(int* f) { RT; int r = my_rank(); *f = (*rank_state)[r] > 1; return 0; }
int sim_MPI_Finalize() {
    RT; int r = me("finalise");
    if (C.leak_check) {
        for (auto& q : *reqs) if (q.owner == r && !q.freed && q.id) { bool internal = q.rbuf == (void*)-1; if (!internal) violation("request never completed or released: rank %d", r); }
        for (size_t i = 3; i < comms->size(); ++i) if ((*comms)[i].owner == r && !(*comms)[i].freed) violation("communicator leaked: rank %d", r);
    }
    // finalise is collective over the connected ranks
    std::pair<int,long> key; Coll& k = enter(0, r, K_BARRIER, -1, "finalise", key); arrive_coll(k, r); await(k, -1);
    (*rank_state)[r] = 2; return 0;
}
int sim_MPI_Abort(MPI_Comm, int code) { RT; violation("MPI_Abort called: code %d", code); }
int sim_MPI_Comm_rank(MPI_Comm c, int* r) { RT; int x = ctx_of(c, "rank"); *r = crank(x, my_rank()); return 0; }
int sim_MPI_Comm_size(MPI_Comm c, int* n) { RT; *n = csize(ctx_of(c, "size")); return 0; }
int sim_MPI_Comm_dup(MPI_Comm c, MPI_Comm* o) {
    RT; int x = ctx_of(c, "duplicate"), r = my_rank(); std::pair<int,long> key;
    Coll& k = enter(x, crank(x, r), K_DUP, -1, "duplicate", key);
    if (!k.newctx) k.newctx = next_ctx++;
    int nc = k.newctx;
    arrive_coll(k, crank(x, r)); await(k, -1);
    comms->push_back({x == 1 ? 1 : nc, r, false}); *o = (int)comms->size() - 1; count("communicators");
    return 0;
}
int sim_MPI_Comm_free(MPI_Comm* c) { RT; ctx_of(*c, "free"); if (*c < 3) violation("predefined communicator freed: rank %d", my_rank()); (*comms)[*c].freed = true; *c = MPI_COMM_NULL; return 0; }
int sim_MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* r) { RT; int x = ctx_of(a, "compare"), y = ctx_of(b, "compare"); *r = a == b ? MPI_IDENT : csize(x) == csize(y) ? MPI_CONGRUENT : MPI_UNEQUAL; return 0; }
int sim_MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int sim_MPI_Barrier(MPI_Comm c) { RT; int x = ctx_of(c, "barrier"), r = crank(x, my_rank()); std::pair<int,long> key; Coll& k = enter(x, r, K_BARRIER, -1, "barrier", key); arrive_coll(k, r); await(k, -1); return 0; }
int sim_MPI_Probe(int s, int t, MPI_Comm c, MPI_Status* st) {
    RT; int x = ctx_of(c, "probe"), r = my_rank(); Msg* m = nullptr; int src = x == 1 && s == 0 ? r : s;
    block_until("probe", [&] { m = candidate(r, x, src, t); return m != nullptr; });
    m->probed = true; fill(st, m); return 0;
}
int sim_MPI_Iprobe(int s, int t, MPI_Comm c, int* f, MPI_Status* st) {
    RT; int x = ctx_of(c, "iprobe"), r = my_rank(); sync_point("iprobe", nullptr);
    Msg* m = candidate(r, x, x == 1 && s == 0 ? r : s, t); *f = m != nullptr; if (m) { m->probed = true; fill(st, m); } else yield_far(); return 0;
}
int sim_MPI_Improbe(int s, int t, MPI_Comm c, int* f, MPI_Message* o, MPI_Status* st) {
    RT; int x = ctx_of(c, "improbe"), r = my_rank(); sync_point("improbe", nullptr);
    Msg* m = candidate(r, x, x == 1 && s == 0 ? r : s, t); *f = m != nullptr; *o = MPI_MESSAGE_NULL;
    if (m) { (*arrived)[r].remove(m); m->probed = true; fill(st, m); *o = m->id; } else yield_far();
    return 0;
}
int sim_MPI_Mprobe(int s, int t, MPI_Comm c, MPI_Message* o, MPI_Status* st) {
    RT; int x = ctx_of(c, "mprobe"), r = my_rank(); Msg* m = nullptr; int src = x == 1 && s == 0 ? r : s;
    block_until("mprobe", [&] { m = candidate(r, x, src, t); return m != nullptr; });
    (*arrived)[r].remove(m); m->probed = true; fill(st, m); *o = m->id; return 0;
}
int sim_MPI_Imrecv(void* b, int n, MPI_Datatype t, MPI_Message* o, MPI_Request* q) {
    RT; int r = me("imrecv"); if (*o <= 0 || *o > (int)msgs->size()) violation("receive of an invalid message: rank %d", r);
    Msg* m = &(*msgs)[*o - 1]; Req* k = new_req(r); k->rbuf = b; k->cap = n * tsize(t); k->ctx = m->ctx; hb_release(k); tie(m, k); *o = MPI_MESSAGE_NULL; *q = k->id; poke(); return 0;
}
int sim_MPI_Mrecv(void* b, int n, MPI_Datatype t, MPI_Message* o, MPI_Status* s) { MPI_Request q; sim_MPI_Imrecv(b, n, t, o, &q); RT; return mpisim::wait(&q, s, "mrecv"); }
int sim_MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* q) { RT; int x = ctx_of(c, "isend"); *q = do_send(b, n * tsize(t), d, tag, x, my_rank(), false, "isend")->id; sync_point("isend", nullptr); return 0; }
int sim_MPI_Issend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* q) { RT; int x = ctx_of(c, "issend"); *q = do_send(b, n * tsize(t), d, tag, x, my_rank(), true, "issend")->id; sync_point("issend", nullptr); return 0; }
int sim_MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { RT; int x = ctx_of(c, "send"); MPI_Request q = do_send(b, n * tsize(t), d, tag, x, my_rank(), false, "send")->id; return mpisim::wait(&q, nullptr, "send"); }
int sim_MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { RT; int x = ctx_of(c, "ssend"); MPI_Request q = do_send(b, n * tsize(t), d, tag, x, my_rank(), true, "ssend")->id; return mpisim::wait(&q, nullptr, "ssend"); }
int sim_MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* q) { RT; int x = ctx_of(c, "irecv"); sync_point("irecv", nullptr); *q = do_recv(b, n * tsize(t), s, tag, x, my_rank())->id; sync_point("irecv", nullptr); return 0; }
int sim_MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st) { RT; int x = ctx_of(c, "recv"); sync_point("recv", nullptr); MPI_Request q = do_recv(b, n * tsize(t), s, tag, x, my_rank())->id; return mpisim::wait(&q, st, "recv"); }
int sim_MPI_Sendrecv(const void* sb, int sn, MPI_Datatype st, int d, int stag, void* rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status* status) {
    MPI_Request q[2]; sim_MPI_Irecv(rb, rn, rt, s, rtag, c, &q[0]); sim_MPI_Isend(sb, sn, st, d, stag, c, &q[1]); sim_MPI_Wait(&q[1], nullptr); return sim_MPI_Wait(&q[0], status);
}
int sim_MPI_Wait(MPI_Request* r, MPI_Status* s) { RT; return mpisim::wait(r, s, "wait"); }
int sim_MPI_Test(MPI_Request* r, int* f, MPI_Status* s) {
    RT; sync_point("test", nullptr);
    if (*r == MPI_REQUEST_NULL) { *f = 1; return mpisim::wait(r, s, "test"); }
    Req* q = rq(*r, "test"); *f = q->complete; if (*f) return mpisim::wait(r, s, "test"); yield_far(); return 0;
}
int sim_MPI_Waitall(int n, MPI_Request* r, MPI_Status* s) { for (int i = 0; i < n; ++i) sim_MPI_Wait(r + i, s ? s + i : nullptr); return 0; }
int sim_MPI_Testall(int n, MPI_Request* r, int* f, MPI_Status* s) { { RT; sync_point("testall", nullptr); *f = 1; for (int i = 0; i < n; ++i) if (r[i] && !rq(r[i], "testall")->complete) *f = 0; } return *f ? sim_MPI_Waitall(n, r, s) : 0; }
int sim_MPI_Waitany(int n, MPI_Request* r, int* ix, MPI_Status* s) {
    RT; *ix = MPI_UNDEFINED; bool any = false; for (int i = 0; i < n; ++i) any |= r[i] != MPI_REQUEST_NULL; if (!any) return 0;
    block_until("waitany", [&] { for (int i = 0; i < n; ++i) if (r[i] && rq(r[i], "waitany")->complete) { *ix = i; return true; } return false; });
    return mpisim::wait(r + *ix, s, "waitany");
}
int sim_MPI_Request_get_status(MPI_Request r, int* f, MPI_Status* s) {
    RT; sync_point("status", nullptr);
    if (r == MPI_REQUEST_NULL) { *f = 1; if (s) { *s = MPI_Status{}; s->MPI_SOURCE = MPI_ANY_SOURCE; s->MPI_TAG = MPI_ANY_TAG; } return 0; }
    Req* q = rq(r, "status"); *f = q->complete; if (*f) { hb_acquire(q); if (s) { *s = q->st; s->sim_cancelled = q->cancelled; } } else yield_far(); return 0;
}
int sim_MPI_Request_free(MPI_Request* r) { RT; Req* q = rq(*r, "release"); q->freed = true; *r = MPI_REQUEST_NULL; return 0; }
int sim_MPI_Cancel(MPI_Request* r) { RT; Req* q = rq(*r, "cancel"); if (!q->complete && !q->cancel_marked) { q->cancel_marked = true; cancels->push_back(q); count("cancels_while_pending"); poke(); } sync_point("cancel", nullptr); return 0; }
int sim_MPI_Test_cancelled(const MPI_Status* s, int* f) { *f = s->sim_cancelled; return 0; }
int sim_MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) { *n = s->sim_bytes % tsize(t) ? MPI_UNDEFINED : s->sim_bytes / tsize(t); return 0; }
int sim_MPI_Get_elements(const MPI_Status* s, MPI_Datatype t, int* n) { return sim_MPI_Get_count(s, t, n); }
int sim_MPI_Type_size(MPI_Datatype t, int* n) { *n = tsize(t); return 0; }
int sim_MPI_Error_string(int, char* s, int* n) { strcpy(s, "error"); *n = 5; return 0; }
double sim_MPI_Wtime() { RT; return now_ns() * 1e-9; }

int sim_MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm c) {
    RT; int x = ctx_of(c, "bcast"), r = crank(x, my_rank()); std::pair<int,long> key; Coll& k = enter(x, r, K_BCAST, root, "bcast", key);
    if (r == root) k.part[root][0] = rd(b, n * tsize(t));
    arrive_coll(k, r); await(k, root);
    if (r != root) wr(b, k.part[root][0], n * tsize(t), "bcast");
    return 0;
}
int sim_MPI_Scatterv(const void* sb, const int* sc, const int* sd, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
    RT; int x = ctx_of(c, "scatter"), r = crank(x, my_rank()); std::pair<int,long> key; Coll& k = enter(x, r, K_SCATTER, root, "scatter", key);
    if (r == root) for (int i = 0; i < csize(x); ++i) k.part[root][i] = rd((const char*)sb + (size_t)sd[i] * tsize(st), (size_t)sc[i] * tsize(st));
    arrive_coll(k, r); await(k, root);
    wr(rb, k.part[root][r], (size_t)rn * tsize(rt), "scatter");
    return 0;
}
int sim_MPI_Scatter(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) {
    int n, r; sim_MPI_Comm_size(c, &n); sim_MPI_Comm_rank(c, &r); std::vector<int> sc(n, sn), sd(n); for (int i = 0; i < n; ++i) sd[i] = i * sn;
    return sim_MPI_Scatterv(sb, sc.data(), sd.data(), st, rb, rn, rt, root, c);
}
static int gather_impl(const void* sb, size_t sn, void* rb, const int* rc, const int* rdp, MPI_Datatype rt, int root, MPI_Comm c, const char* fn) {
    RT; int x = ctx_of(c, fn), r = crank(x, my_rank()); std::pair<int,long> key; Coll& k = enter(x, r, root < 0 ? K_ALLGATHER : K_GATHER, root, fn, key);
    if (sb == MPI_IN_PLACE) { sb = (char*)rb + (size_t)rdp[r] * tsize(rt); sn = (size_t)rc[r] * tsize(rt); }
    k.part[r][0] = rd(sb, sn);
    arrive_coll(k, r);
    if (root >= 0 && r != root) return 0;
    await(k, -1);
    for (int i = 0; i < csize(x); ++i) wr((char*)rb + (size_t)rdp[i] * tsize(rt), k.part[i][0], (size_t)rc[i] * tsize(rt), fn);
    return 0;
}
int sim_MPI_Gatherv(const void* sb, int sn, MPI_Datatype st, void* rb, const int* rc, const int* rdp, MPI_Datatype rt, int root, MPI_Comm c) { return gather_impl(sb, sn * tsize(st), rb, rc, rdp, rt, root, c, "gather"); }
int sim_MPI_Gather(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm c) { int n; sim_MPI_Comm_size(c, &n); std::vector<int> rc(n, rn), rdp(n); for (int i = 0; i < n; ++i) rdp[i] = i * rn; return gather_impl(sb, sn * tsize(st), rb, rc.data(), rdp.data(), rt, root, c, "gather"); }
int sim_MPI_Allgatherv(const void* sb, int sn, MPI_Datatype st, void* rb, const int* rc, const int* rdp, MPI_Datatype rt, MPI_Comm c) { return gather_impl(sb, sn * tsize(st), rb, rc, rdp, rt, -1, c, "allgather"); }
int sim_MPI_Allgather(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, MPI_Comm c) { int n; sim_MPI_Comm_size(c, &n); std::vector<int> rc(n, rn), rdp(n); for (int i = 0; i < n; ++i) rdp[i] = i * rn; return gather_impl(sb, sn * tsize(st), rb, rc.data(), rdp.data(), rt, -1, c, "allgather"); }
int sim_MPI_Alltoallv(const void* sb, const int* sc, const int* sd, MPI_Datatype st, void* rb, const int* rc, const int* rdp, MPI_Datatype rt, MPI_Comm c) {
    RT; int x = ctx_of(c, "alltoall"), r = crank(x, my_rank()); std::pair<int,long> key; Coll& k = enter(x, r, K_ALLTOALL, -1, "alltoall", key);
    for (int i = 0; i < csize(x); ++i) k.part[r][i] = rd((const char*)sb + (size_t)sd[i] * tsize(st), (size_t)sc[i] * tsize(st));
    arrive_coll(k, r); await(k, -1);
    for (int i = 0; i < csize(x); ++i) wr((char*)rb + (size_t)rdp[i] * tsize(rt), k.part[i][r], (size_t)rc[i] * tsize(rt), "alltoall");
    return 0;
}
int sim_MPI_Alltoall(const void* sb, int sn, MPI_Datatype st, void* rb, int rn, MPI_Datatype rt, MPI_Comm c) {
    int n; sim_MPI_Comm_size(c, &n); std::vector<int> sc(n, sn), sd(n), rc(n, rn), rdp(n); for (int i = 0; i < n; ++i) { sd[i] = i * sn; rdp[i] = i * rn; }
    return sim_MPI_Alltoallv(sb, sc.data(), sd.data(), st, rb, rc.data(), rdp.data(), rt, c);
}

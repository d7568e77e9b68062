#pragma once
#include <stdexcept>
#include <cstring>
#include "mpi_sim.hpp"
#include "core_mpi.hpp"
#include <array>
#include <algorithm>
namespace sim { namespace mpih {
inline std::string payload(int id, size_t n) {
    std::string s(n, 0);
    uint64_t x = 0x9E3779B97F4A7C15ull * (id + 1);
    for (size_t i = 0; i < n; ++i) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; s[i] = (char)((x >> 24) % 5 == 0 ? 0 : x >> 32); }
    if (n > 0) s[0] = (char)(id & 255);
    if (n > 1) s[1] = (char)(id >> 8);
    return s;
}
struct Rec { int id, src, dst, comm, tag; size_t n; bool got = false, optional = false; std::string body; };
struct Ledger {
    std::vector<Rec> v;
    int add(int src, int dst, int comm, int tag, size_t n) { Rt q; Rec r{}; r.id = (int)v.size() + 1; r.src = src; r.dst = dst; r.comm = comm; r.tag = tag; r.n = n; r.body = payload(r.id, n); v.push_back(r); return r.id; }
    // a receive on (dst, comm) with this filter returned s
    int receive(int dst, int comm, int src, int tag, const std::string& s, int expect_src = -9, int expect_tag = -9) {
        Rt q;
        std::vector<char> blocked(64, 0); int late = 0, other = 0;
        for (auto& r : v) {
            if (r.dst != dst || r.comm != comm) { if (r.n > 1 && r.n == s.size() && r.body == s) other = r.id; continue; }
            bool ok = (src == mpi::any_source || src == r.src) && (tag == mpi::any_tag || tag == r.tag);
            bool same = r.n == s.size() && r.body == s;
            if (!ok) { if (same && r.n > 1) other = r.id; continue; }
            if (r.got) { if (same && r.n > 1) violation("message delivered twice: message %d (%zu bytes, rank %d to %d, tag %d)", r.id, r.n, r.src, r.dst, r.tag); continue; }
            if (same && !blocked[r.src]) {
                if (expect_src != -9 && (r.src != expect_src || r.tag != expect_tag)) violation("probed envelope and received message differ: probed source %d tag %d, received message %d from %d tag %d", expect_src, expect_tag, r.id, r.src, r.tag);
                r.got = true; event("got", r.id); return r.id;
            }
            if (same) late = r.id;
            if (!r.optional) blocked[r.src] = 1;
        }
        if (late) violation("messages overtake each other: rank %d received message %d before an earlier one of the same channel", dst, late);
        if (other) violation("message delivered to the wrong receive: message %d (rank %d to %d tag %d communicator %d) taken by rank %d filter source %d tag %d communicator %d", other, v[other - 1].src, v[other - 1].dst, v[other - 1].tag, v[other - 1].comm, dst, src, tag, comm);
        violation("message content damaged: rank %d (filter source %d tag %d) received %zu bytes that no sender sent", dst, src, tag, s.size());
    }
    void all_received() { Rt q; for (auto& r : v) if (!r.got && !r.optional) violation("message lost: message %d (%zu bytes, rank %d to %d, tag %d)", r.id, r.n, r.src, r.dst, r.tag); }
};
inline void judge(Ctx& c, const Outcome& o, const char* what) {
    if (o.kind == Outcome::OK) { c.trivial = o.switches < 4; return; }
    if (o.kind == Outcome::ERROR) { c.fail("ERROR: %s", o.msg.c_str()); return; }
    if (o.kind == Outcome::SIGNAL) { c.fail("process died (signal %d): %s; stderr: %.300s", o.code, what, o.err.c_str()); return; }
    if (o.kind == Outcome::EXIT) { c.fail("process exited %d: %s", o.code, what); return; }
    c.fail("%s", o.msg.c_str());
}
}}

// A domain divided over ranks: each rank evaluates its own block, neighbours and the root get it by message.
#include "mpi_common.hpp"
#include "core_ndarray.hpp"
#include "core_ndarray_ops.hpp"
#include "app_parallel.hpp"
using namespace sim; using namespace sim::mpih;
namespace {
template<std::size_t R> double f(const nd::index_t<R>& i, int salt) { double s = salt + 0.5; for (size_t a = 0; a < R; ++a) s = s * 101 + i[a] + 1; return s; }
template<std::size_t R> void blocks(int me, int n, nd::shape_t<R> shape, int salt, int how, int threads) {
    auto session = mpi::Session(); auto world = mpi::comm_world();
    auto arr = mara::create_access_pattern_array(shape, mara::propose_block_decomposition<R>(n));
    auto block_of = [&] (int rank) { int j = 0; auto b = nd::access_pattern_t<R>(); for (auto index : arr.indexes()) if (j++ == rank) b = arr(index); return b; };
    auto b = block_of(me);
    auto lazy = nd::make_array([b, salt] (auto i) { return f<R>(b.map_index(i), salt); }, b.shape());
    auto mine = threads ? nd::shared_array<double, R>(mara::evaluate_on<3>()(lazy)) : nd::shared_array<double, R>(lazy | nd::to_shared());
    auto place = [&] (std::vector<double>& whole, std::vector<int>& hit, int rank, const double* data, size_t len) {
        Rt q; auto r = block_of(rank); if (len != r.size()) violation("block of rank %d has %zu elements instead of %zu", rank, len, (size_t)r.size());
        size_t k = 0; for (auto i : r) { size_t p = 0; for (size_t a = 0; a < R; ++a) p = p * shape[a] + i[a]; if (p >= whole.size()) violation("block of rank %d lies outside the domain", rank); hit[p]++; whole[p] = data[k++]; } };
    auto check = [&] (const std::vector<double>& whole, const std::vector<int>& hit) {
        Rt q; size_t p = 0; for (auto i : nd::make_access_pattern(shape)) { if (hit[p] != 1) violation("element belongs to %d blocks instead of one", hit[p]); if (whole[p] != f<R>(i, salt)) violation("array assembled from the ranks' blocks is wrong: %.17g instead of %.17g", whole[p], f<R>(i, salt)); ++p; } };
    std::vector<double> whole(shape.volume(), -1.0); std::vector<int> hit(shape.volume(), 0);
    if (how == 0) {         // everybody gets everything
        auto all = world.all_gather(std::vector<double>(mine.data(), mine.data() + mine.size()));
        for (int r = 0; r < n; ++r) place(whole, hit, r, all[r].data(), all[r].size());
        check(whole, hit);
    } else if (how == 1) {  // to the root, in whatever order they arrive; the message says whose it is
        if (me) { std::string s((const char*)mine.data(), mine.size() * sizeof(double)); int r = me; s.append((const char*)&r, sizeof r); world.send(s, 0, 7); }
        else { place(whole, hit, 0, mine.data(), mine.size()); for (int k = 1; k < n; ++k) { auto s = world.recv(mpi::any_source, 7); int r; memcpy(&r, s.data() + s.size() - sizeof r, sizeof r); std::vector<double> v((s.size() - sizeof r) / sizeof(double)); memcpy(v.data(), s.data(), v.size() * sizeof(double)); place(whole, hit, r, v.data(), v.size()); } check(whole, hit); }
    } else {                // root hands the blocks out, the ranks hand them back doubled
        std::vector<std::vector<double>> parts; if (!me) for (int r = 0; r < n; ++r) { auto q = block_of(r); std::vector<double> v; for (auto i : q) v.push_back(f<R>(i, salt) * 2); parts.push_back(v); }
        auto got = world.scatter(0, parts); if (got.size() != mine.size()) { Rt q; violation("block of rank %d has %zu elements instead of %zu", me, got.size(), (size_t)mine.size()); }
        for (size_t i = 0; i < got.size(); ++i) if (got[i] != 2 * mine.data()[i]) { Rt q; violation("array assembled from the ranks' blocks is wrong: %.17g instead of %.17g", got[i], 2 * mine.data()[i]); }
    }
    count("blocks");
}
void run_blocks() {
    auto cfg = random_sched(); cfg.step_budget = 60000000; hang_label = "exchange of blocks never completes";
    auto wc = mpisim::random_config(6); int rank = 1 + (int)choose(W, 3), salt = (int)choose(W, 100), how = (int)choose(W, 3), thr = choose(W, 4) == 3; size_t d[3]; for (auto& x : d) x = 6 + choose(W, rank == 1 ? 60 : rank == 2 ? 10 : 3);
    activate(cfg);
    mpisim::world(wc, [&] (int me) { if (rank == 1) blocks<1>(me, wc.ranks, nd::make_shape(d[0]), salt, how, thr); else if (rank == 2) blocks<2>(me, wc.ranks, nd::make_shape(d[0], d[1]), salt, how, thr); else blocks<3>(me, wc.ranks, nd::make_shape(d[0], d[1], d[2]), salt, how, thr); });
    if (mpisim::totals().undelivered) violation("message left over");
}
Register r1("mpi_blocks", [](Ctx& c) { auto o = c.segment(run_blocks); c.note("blocks: %lu steps, %lu switches, outcome %s", (unsigned long)o.steps, (unsigned long)o.switches, o.kind_name()); judge(c, o, "exchange of blocks"); });
}

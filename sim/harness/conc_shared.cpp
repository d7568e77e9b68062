// Immutable values (arrays, trees, lists) shared by several threads: every operation gives what it
// gives on one thread, changes none of its operands, and survives failing allocations.
#include <functional>
#include <algorithm>
#include <memory>
#include <mutex>
#include <new>
#include <optional>
#include <stdexcept>
#include "core_ndarray.hpp"
#include "core_ndarray_ops.hpp"
#include "core_tree.hpp"
#include "core_linked_list.hpp"
#include "rt.hpp"

using namespace sim;
namespace {

using Arr = nd::shared_array<double, 2>;
using Tree = mara::arithmetic_binary_tree_t<double, 2>;
using ATree = mara::arithmetic_binary_tree_t<Arr, 2>;
using List = mara::linked_list_t<int>;
using Vec = std::vector<double>;

// ------------------------------------------------------------------ models
struct MA {                                     // array
    size_t n = 0, m = 0; Vec v;
    double at(size_t i, size_t j) const { return v[i * m + j]; }
};
struct MT {                                     // tree of T, children in order
    bool leaf = true; double v = 0; MA a; std::vector<MT> c;
};
MA make_ma(size_t n, size_t m, std::function<double(size_t, size_t)> f) { MA r; r.n = n; r.m = m; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) r.v.push_back(f(i, j)); return r; }
void put(Vec& o, const MA& a) { o.push_back((double)a.n); o.push_back((double)a.m); o.insert(o.end(), a.v.begin(), a.v.end()); }

// flat image of an array or lazy array: shape, then elements
template<class A> void flat(Vec& o, const A& a) { for (size_t k = 0; k < a.rank(); ++k) o.push_back((double)a.shape(k)); for (auto i : a.indexes()) o.push_back(a(i)); }
template<class A> Vec flat(const A& a) { Vec o; flat(o, a); return o; }
void flat_tree(Vec& o, const Tree& t) { if (t.has_value()) { o.push_back(-1); o.push_back(t.value()); } else { o.push_back(-2); for (const auto& c : t.children()) flat_tree(o, c); } }
void flat_tree(Vec& o, const ATree& t) { if (t.has_value()) { o.push_back(-1); flat(o, t.value()); } else { o.push_back(-2); for (const auto& c : t.children()) flat_tree(o, c); } }
void put_tree(Vec& o, const MT& t, bool arr) { if (t.leaf) { o.push_back(-1); if (arr) put(o, t.a); else o.push_back(t.v); } else { o.push_back(-2); for (auto& c : t.c) put_tree(o, c, arr); } }
MT map_mt(const MT& t, const std::function<void(MT&)>& f) { MT r = t; if (r.leaf) f(r); else for (auto& c : r.c) c = map_mt(c, f); return r; }
void leaves(const MT& t, std::vector<const MT*>& o) { if (t.leaf) o.push_back(&t); else for (auto& c : t.c) leaves(c, o); }
size_t depth(const MT& t) { if (t.leaf) return 0; size_t d = 0; for (auto& c : t.c) d = std::max(d, depth(c)); return d + 1; }
// child number k of a node: bit 0 is axis 0 (established by the serial checks of the tree)
template<class F> void walk(const MT& t, size_t lev, size_t x, size_t y, F&& f) {
    if (t.leaf) { f(t, lev, x, y); return; }
    for (size_t k = 0; k < 4; ++k) walk(t.c[k], lev + 1, 2 * x + (k & 1), 2 * y + (k >> 1), f);
}

Arr real(const MA& a) { auto u = nd::make_unique_array<double>(a.n, a.m); for (size_t i = 0; i < a.n; ++i) for (size_t j = 0; j < a.m; ++j) u(i, j) = a.v[i * a.m + j]; return std::move(u).shared(); }
Tree real_tree(const MT& t) {
    if (t.leaf) return Tree{t.v};
    return Tree{std::make_shared<mara::arithmetic_sequence_t<Tree, 4>>(mara::iota<4>().map([&] (std::size_t k) { return real_tree(t.c[k]); }))};
}
ATree real_atree(const MT& t) {
    if (t.leaf) return ATree{real(t.a)};
    return ATree{std::make_shared<mara::arithmetic_sequence_t<ATree, 4>>(mara::iota<4>().map([&] (std::size_t k) { return real_atree(t.c[k]); }))};
}

// ------------------------------------------------------------------ array operations
struct P { int op; size_t ax, i, j; double c; };
constexpr int NARR = 27;
template<class X> auto to2(X x) { return x; }

// what the library does; may yield a new shared array through *made
Vec array_op(const Arr& A, const Arr& B, const P& p, Arr* made) {
    auto ax = p.ax; double c = p.c;
    size_t n = A.shape(0), m = A.shape(1), L = ax ? m : n;
    switch (p.op) {
    case 0: { auto r = A | nd::map([c] (double x) { return x * 2 + c; }) | nd::to_shared(); *made = r; return flat(r); }
    case 1: { if (A.shape() != B.shape()) return flat(A); auto r = (A + B).shared(); *made = r; return flat(r); }
    case 2: { auto r = A * c - B.shape(0); return Vec{r | nd::sum()}; }
    case 3: { if (A.shape() != B.shape()) return flat(B); auto r = nd::zip(A, B) | nd::apply([] (double x, double y) { return x * 3 - y; }) | nd::to_shared(); *made = r; return flat(r); }
    case 4: { if (L < 2) return {}; auto r = A | nd::select_axis(ax).from(1).to(0).from_the_end(); return flat(r); }
    case 5: { if (L < 2) return {}; return flat(A | nd::midpoint_on_axis(ax)); }
    case 6: { if (L < 2) return {}; return flat(A | nd::difference_on_axis(ax) | nd::to_shared()); }
    case 7: { if (L < 2) return {}; return flat(A | nd::extend_periodic_on_axis(ax, 1)); }
    case 8: { if (L < 2) return {}; return flat(A | nd::extend_zero_gradient(ax) | nd::to_shared()); }
    case 9: { if (L < 2) return {}; return flat(A | nd::extend_zeros(ax)); }
    case 10: { if (A.shape(1 - ax) != B.shape(1 - ax)) return {}; auto r = A | nd::concat(B).on_axis(ax); if (r.size() < 60) *made = r.shared(); return flat(r); }
    case 11: { return flat(A | nd::collect(nd::sum()).along_axis(ax)); }
    case 12: { return flat(A | nd::freeze_axis(ax).at_index((ax ? p.j % m : p.i % n))); }
    case 13: { if (L < 2) return {}; return flat(A | nd::shift_by(-1).along_axis(ax) | nd::map([] (double x) { return x; })); }
    case 14: { Vec o; auto w = nd::where(A > c); o.push_back((double)w.size()); for (auto k : w.indexes()) { auto ix = w(k); o.push_back((double)ix[0]); o.push_back((double)ix[1]); } return o; }
    case 15: { auto w = nd::where(A > c); return flat(A | nd::read_indexes(w)); }
    case 16: { if (n < 2) return {}; auto r = A | nd::replace_from(1, 0).to(n, m).with(A | nd::select_axis(0).from(0).to(n - 1)); *made = r.shared(); return flat(*made); }
    case 17: { auto r = A | nd::reshape(m, n); *made = r; return flat(r); }
    case 18: { return flat(A | nd::reshape(n * m)); }
    case 19: { return Vec{A | nd::min(), A | nd::max(), double((A > c) | nd::any()), double((A > c) | nd::all())}; }
    case 20: { Vec o = flat(A | nd::bounds_check()); try { (A | nd::bounds_check())(n, m); o.push_back(0); } catch (const std::out_of_range&) { o.push_back(1); } return o; }
    case 21: { auto pr = nd::zip(A, A | nd::map([c] (double x) { return x + c; })) | nd::to_shared(); auto [x, y] = nd::unzip(pr); Vec o = flat(x); flat(o, y); return o; }
    case 22: { auto u = A | nd::to_unique(); for (auto i : u.indexes()) u(i) = -u(i); u(p.i % n, p.j % m) = c; auto r = std::move(u).shared(); *made = r; return flat(r); }
    case 23: { Vec o; for (auto x : A) o.push_back(x); return o; }
    case 24: { auto one = A | nd::reshape(n * m); Vec o; auto d = one | nd::divvy(3); for (auto g : d.indexes()) flat(o, d(g)); return o; }
    case 25: { auto g = nd::cartesian_product(nd::linspace(0.0, c, 4), nd::arange((int)n)); Vec o; for (auto i : g.indexes()) { auto [x, k] = g(i); o.push_back(x); o.push_back(k); } flat(o, -A); return o; }
    case 26: { auto u = A | nd::to_unique(); auto r = u.shared(); auto q = nd::make_array(u.get_provider().shared()); auto k = u | nd::reshape(n * m); u(p.i % n, p.j % m) = c; Vec o = flat(u); flat(o, r); flat(o, q); flat(o, k); return o; }
    }
    return {};
}
Vec array_model(const MA& A, const MA& B, const P& p, MA* made) {
    size_t n = A.n, m = A.m, L = p.ax ? m : n; double c = p.c; size_t ax = p.ax;
    auto out = [] (const MA& a) { Vec o; put(o, a); return o; };
    auto sub = [&] (int d) { return make_ma(ax ? n : n - d, ax ? m - d : m, [&] (size_t i, size_t j) { return A.at(i, j); }); };
    auto next = [&] (size_t i, size_t j, size_t k = 1) { return ax ? A.at(i, j + k) : A.at(i + k, j); };
    bool same = A.n == B.n && A.m == B.m;
    auto ext = [&] (std::function<double(size_t, size_t, int)> f) { return make_ma(ax ? n : n + 2, ax ? m + 2 : m, [&] (size_t i, size_t j) { size_t k = ax ? j : i; if (k == 0) return f(i, j, 0); if (k == L + 1) return f(i, j, 1); return ax ? A.at(i, j - 1) : A.at(i - 1, j); }); };
    auto edge = [&] (size_t i, size_t j, size_t k) { return ax ? A.at(i, k) : A.at(k, j); };
    switch (p.op) {
    case 0: { *made = make_ma(n, m, [&] (size_t i, size_t j) { return A.at(i, j) * 2 + c; }); return out(*made); }
    case 1: { if (!same) return out(A); *made = make_ma(n, m, [&] (size_t i, size_t j) { return A.at(i, j) + B.at(i, j); }); return out(*made); }
    case 2: { double s = 0; for (double x : A.v) s = s + (x * c - (double)B.n); return Vec{s}; }
    case 3: { if (!same) return out(B); *made = make_ma(n, m, [&] (size_t i, size_t j) { return A.at(i, j) * 3 - B.at(i, j); }); return out(*made); }
    case 4: { if (L < 2) return {}; return out(make_ma(ax ? n : n - 1, ax ? m - 1 : m, [&] (size_t i, size_t j) { return next(i, j); })); }
    case 5: { if (L < 2) return {}; auto r = sub(1); return out(make_ma(r.n, r.m, [&] (size_t i, size_t j) { return (A.at(i, j) + next(i, j)) * 0.5; })); }
    case 6: { if (L < 2) return {}; auto r = sub(1); return out(make_ma(r.n, r.m, [&] (size_t i, size_t j) { return next(i, j) - A.at(i, j); })); }
    case 7: { if (L < 2) return {}; return out(ext([&] (size_t i, size_t j, int e) { return edge(i, j, e ? 1 - 1 : L - 1); })); }
    case 8: { if (L < 2) return {}; return out(ext([&] (size_t i, size_t j, int e) { return edge(i, j, e ? L - 1 : 0); })); }
    case 9: { if (L < 2) return {}; return out(ext([&] (size_t, size_t, int) { return 0.0; })); }
    case 10: { if (ax ? A.n != B.n : A.m != B.m) return {}; MA r = make_ma(ax ? n : n + B.n, ax ? m + B.m : m, [&] (size_t i, size_t j) { return ax ? (j < m ? A.at(i, j) : B.at(i, j - m)) : (i < n ? A.at(i, j) : B.at(i - n, j)); }); if (r.v.size() < 60) *made = r; return out(r); }
    case 11: { Vec o; size_t K = ax ? n : m; o.push_back((double)K); for (size_t k = 0; k < K; ++k) { double s = 0; for (size_t l = 0; l < L; ++l) s = s + (ax ? A.at(k, l) : A.at(l, k)); o.push_back(s); } return o; }
    case 12: { Vec o; size_t K = ax ? n : m, f = ax ? p.j % m : p.i % n; o.push_back((double)K); for (size_t k = 0; k < K; ++k) o.push_back(ax ? A.at(k, f) : A.at(f, k)); return o; }
    case 13: { if (L < 2) return {}; return out(make_ma(ax ? n : n - 1, ax ? m - 1 : m, [&] (size_t i, size_t j) { return next(i, j); })); }
    case 14: { Vec o; size_t q = 0; for (double x : A.v) q += x > c; o.push_back((double)q); for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) if (A.at(i, j) > c) { o.push_back((double)i); o.push_back((double)j); } return o; }
    case 15: { Vec o{0}; for (double x : A.v) if (x > c) o.push_back(x); o[0] = (double)o.size() - 1; return o; }
    case 16: { if (n < 2) return {}; *made = make_ma(n, m, [&] (size_t i, size_t j) { return i ? A.at(i - 1, j) : A.at(0, j); }); return out(*made); }
    case 17: { MA r; r.n = m; r.m = n; r.v = A.v; *made = r; return out(r); }
    case 18: { Vec o{(double)(n * m)}; o.insert(o.end(), A.v.begin(), A.v.end()); return o; }
    case 19: { double lo = A.v[0], hi = A.v[0]; bool any = false, all = true; for (double x : A.v) { lo = std::min(lo, x); hi = std::max(hi, x); any |= x > c; all &= x > c; } return Vec{lo, hi, double(any), double(all)}; }
    case 20: { Vec o = out(A); o.push_back(1); return o; }
    case 21: { Vec o = out(A); put(o, make_ma(n, m, [&] (size_t i, size_t j) { return A.at(i, j) + c; })); return o; }
    case 22: { MA r = make_ma(n, m, [&] (size_t i, size_t j) { return -A.at(i, j); }); r.v[(p.i % n) * m + p.j % m] = c; *made = r; return out(r); }
    case 23: return A.v;
    case 24: { Vec o; size_t N = n * m; for (size_t g = 0; g < 3; ++g) { size_t s = g * N / 3, e = (g + 1) * N / 3; o.push_back((double)(e - s)); for (size_t k = s; k < e; ++k) o.push_back(A.v[k]); } return o; }
    case 25: { Vec o; for (size_t i = 0; i < 4; ++i) for (size_t k = 0; k < n; ++k) { o.push_back(0.0 + (c - 0.0) * (double)i / 3.0); o.push_back((double)k); } put(o, make_ma(n, m, [&] (size_t i, size_t j) { return -A.at(i, j); })); return o; }
    case 26: { MA u = A; u.v[(p.i % n) * m + p.j % m] = c; Vec o = out(u); put(o, A); put(o, A); o.push_back((double)(n * m)); o.insert(o.end(), A.v.begin(), A.v.end()); return o; }
    }
    return {};
}

// ------------------------------------------------------------------ tree operations
constexpr int NTREE = 14;
Vec tree_op(const Tree& T, const ATree& AT, const P& p, Tree* made) {
    double c = p.c; Vec o;
    switch (p.op) {
    case 0: { auto r = T.map([c] (double x) { return x * 2 + c; }); *made = r; flat_tree(o, r); return o; }
    case 1: { auto r = T + T * c; *made = r; flat_tree(o, r); return o; }
    case 2: { auto pr = T.pair(T.map([c] (double x) { return x + c; })); Tree r = pr.apply([] (double a, double b) { return a * 4 - b; }); flat_tree(o, r); return o; }
    case 3: { T.sink([&o] (double x) { o.push_back(x); }); return o; }
    case 4: { o = {(double)T.size(), (double)T.depth(), T.front()}; return o; }
    case 5: { auto ix = T.indexes(); ix.sink([&o] (auto i) { o.push_back((double)i.level); o.push_back((double)i.coordinates[0]); o.push_back((double)i.coordinates[1]); }); return o; }
    case 6: { T.pair_indexes().sink([&] (auto pr) { o.push_back(T.at(pr.first) == pr.second); o.push_back(T.contains(pr.first)); o.push_back(T.find(pr.first).value_or(-99) == pr.second); o.push_back(T.node_at(pr.first).value()); }); return o; }
    case 7: { if (T.size() > 40) return {}; auto r = T.bifurcate_if([c] (double x) { return x > c; }, [] (double x) { return mara::iota<4>().map([x] (std::size_t k) { return x + k; }); }); *made = r; flat_tree(o, r); return o; }
    case 8: { if (T.size() > 30) return {}; auto r = T.bifurcate_all([] (double x) { return mara::iota<4>().map([x] (std::size_t k) { return x - k; }); }); flat_tree(o, r); return o; }
    case 9: { auto i = mara::tree_index_t<2>(); T.indexes().sink([&] (auto k) { if ((k.coordinates[0] + 3 * k.coordinates[1] + k.level) % 5 == p.i % 5) i = k; }); auto r = T.contains(i) ? T.update(i, [c] (double x) { return x + c; }) : T; *made = r; flat_tree(o, r); return o; }
    case 10: { auto r = AT.map([c] (const Arr& a) { return (a * c).shared(); }); flat_tree(o, r); return o; }
    case 11: { auto r = AT.map([] (const Arr& a) { return a | nd::sum(); }); flat_tree(o, r); return o; }
    case 12: { auto r = AT.pair(AT).apply([] (const Arr& a, const Arr& b) { return (a + b) | nd::map([] (double x) { return x + 1; }) | nd::to_shared(); }); flat_tree(o, r); return o; }
    case 13: { auto r = (T > c); std::size_t k = 0; r.sink([&k] (bool b) { k += b; }); o.push_back((double)k); flat_tree(o, -T); o.push_back(T.sum() == T.sum()); return o; }
    }
    return {};
}
Vec tree_model(const MT& T, const MT& AT, const P& p, MT* made) {
    double c = p.c; Vec o; std::vector<const MT*> lv; leaves(T, lv);
    switch (p.op) {
    case 0: { *made = map_mt(T, [c] (MT& x) { x.v = x.v * 2 + c; }); put_tree(o, *made, false); return o; }
    case 1: { *made = map_mt(T, [c] (MT& x) { x.v = x.v + x.v * c; }); put_tree(o, *made, false); return o; }
    case 2: { put_tree(o, map_mt(T, [c] (MT& x) { x.v = x.v * 4 - (x.v + c); }), false); return o; }
    case 3: { for (auto l : lv) o.push_back(l->v); return o; }
    case 4: return {(double)lv.size(), (double)depth(T), lv[0]->v};
    case 5: { walk(T, 0, 0, 0, [&] (const MT&, size_t l, size_t x, size_t y) { o.push_back((double)l); o.push_back((double)x); o.push_back((double)y); }); return o; }
    case 6: { for (auto l : lv) { o.push_back(1); o.push_back(1); o.push_back(1); o.push_back(l->v); } return o; }
    case 7: { if (lv.size() > 40) return {}; *made = map_mt(T, [c] (MT& x) { if (x.v > c) { x.leaf = false; for (size_t k = 0; k < 4; ++k) { MT q; q.v = x.v + (double)k; x.c.push_back(q); } } }); put_tree(o, *made, false); return o; }
    case 8: { if (lv.size() > 30) return {}; put_tree(o, map_mt(T, [] (MT& x) { x.leaf = false; for (size_t k = 0; k < 4; ++k) { MT q; q.v = x.v - (double)k; x.c.push_back(q); } }), false); return o; }
    case 9: { const MT* hit = T.leaf ? &T : nullptr; walk(T, 0, 0, 0, [&] (const MT& t, size_t l, size_t x, size_t y) { if ((x + 3 * y + l) % 5 == p.i % 5) hit = &t; }); *made = T; if (hit) { std::vector<const MT*> ls; leaves(T, ls); size_t k = std::find(ls.begin(), ls.end(), hit) - ls.begin(), n = 0; *made = map_mt(T, [&] (MT& x) { if (n++ == k) x.v = x.v + c; }); } put_tree(o, *made, false); return o; }
    case 10: { put_tree(o, map_mt(AT, [c] (MT& x) { for (double& y : x.a.v) y = y * c; }), true); return o; }
    case 11: { put_tree(o, map_mt(AT, [] (MT& x) { double s = 0; for (double y : x.a.v) s = s + y; x.v = s; }), false); return o; }
    case 12: { put_tree(o, map_mt(AT, [] (MT& x) { for (double& y : x.a.v) y = (y + y) + 1; }), true); return o; }
    case 13: { size_t k = 0; for (auto l : lv) k += l->v > c; o.push_back((double)k); put_tree(o, map_mt(T, [] (MT& x) { x.v = -x.v; }), false); o.push_back(1); return o; }
    }
    return {};
}

// ------------------------------------------------------------------ list operations
constexpr int NLIST = 7;
Vec list_vec(const List& l) { Vec o; for (auto x : l) o.push_back(x); return o; }
Vec list_op(const List& l, const P& p) {
    switch (p.op) {
    case 0: return Vec{(double)l.size(), double(l.empty())};
    case 1: return list_vec(l);
    case 2: return list_vec(l.prepend((int)p.i));
    case 3: return list_vec(l.append((int)p.i));
    case 4: return list_vec(l.reverse());
    case 5: return list_vec(l.concat(List{1, 2, 3}));
    case 6: { auto k = l; return Vec{double(k == l), double(k.prepend(1) != l)}; }
    }
    return {};
}
Vec list_model(const Vec& l, const P& p) {
    Vec o = l;
    switch (p.op) {
    case 0: return Vec{(double)l.size(), double(l.empty())};
    case 1: break;
    case 2: o.insert(o.begin(), (double)p.i); break;
    case 3: o.push_back((double)p.i); break;
    case 4: std::reverse(o.begin(), o.end()); break;
    case 5: o.insert(o.end(), {1, 2, 3}); break;
    case 6: return Vec{1, 1};
    }
    return o;
}

// ------------------------------------------------------------------ the run
struct Slot { Arr a; MA m; };
struct TSlot { Tree t; MT m; };
struct World {
    std::mutex mutex;                  // guards which value a slot holds, not the value
    std::vector<Slot> arrays; std::vector<TSlot> trees;
    ATree at; MT mat; List list; Vec mlist;
};

void compare(const Vec& got, const Vec& want, const char* kind, int op) {
    Rt q;
    if (got.size() != want.size()) violation("operation on a shared value gives another result: %s operation %d yields %zu numbers, expected %zu", kind, op, got.size(), want.size());
    for (size_t i = 0; i < got.size(); ++i) if (!(got[i] == want[i])) violation("operation on a shared value gives another result: %s operation %d, number %zu is %.17g, expected %.17g", kind, op, i, got[i], want[i]);
}
P draw(int nops) { Rt q; P p; p.op = (int)choose(W, nops); p.ax = choose(W, 2); p.i = choose(W, 6); p.j = choose(W, 6); p.c = (double)choose(W, 9) * 0.5 - 1; return p; }
MA draw_ma() { Rt q; size_t n = 1 + choose(W, 5), m = 1 + choose(W, 5); double s = (double)choose(W, 7); return make_ma(n, m, [=] (size_t i, size_t j) { return 0.25 * (double)((i * 7 + j * 3 + (size_t)s) % 11) - 1; }); }
MT draw_mt(int lev, bool arr, int& id) { Rt q; MT t; if (lev > 0 && choose(W, 3) == 2) { t.leaf = false; for (int k = 0; k < 4; ++k) t.c.push_back(draw_mt(lev - 1, arr, id)); } else { t.v = 0.5 * (double)(++id % 13) - 2; if (arr) t.a = draw_ma(); } return t; }

void client(World& w, int nops) {
    for (int k = 0; k < nops; ++k) {
        int what; { Rt q; what = (int)choose(W, 8); }
        bool failed = false;
        if (what <= 4) {
            P p = draw(NARR); size_t x, y, z; bool keep; { Rt q; x = choose(W, w.arrays.size()); y = choose(W, w.arrays.size()); z = choose(W, w.arrays.size()); keep = choose(W, 2); }
            std::optional<Slot> s, t;
            { Rt q; s.emplace(); t.emplace(); }
            { std::lock_guard<std::mutex> lock(w.mutex); s->a = w.arrays[x].a; t->a = w.arrays[y].a; Rt q; s->m = w.arrays[x].m; t->m = w.arrays[y].m; }
            Arr made; MA mm; Vec want; { Rt q; want = array_model(s->m, t->m, p, &mm); }
            try { auto got = array_op(s->a, t->a, p, &made); compare(got, want, "array", p.op); } catch (const std::bad_alloc&) { failed = true; }
            bool has; { Rt q; has = mm.n > 0; }
            if (!failed && keep && has) { std::lock_guard<std::mutex> lock(w.mutex); w.arrays[z].a = made; Rt q; w.arrays[z].m = mm; }
            s.reset(); t.reset();
        } else if (what <= 6) {
            P p = draw(NTREE); size_t x, z; bool keep; { Rt q; x = choose(W, w.trees.size()); z = choose(W, w.trees.size()); keep = choose(W, 2); }
            std::optional<Tree> t; MT m; { std::lock_guard<std::mutex> lock(w.mutex); t = w.trees[x].t; Rt q; m = w.trees[x].m; }
            Tree made; MT mm; Vec want; { Rt q; mm.v = -12345; want = tree_model(m, w.mat, p, &mm); }
            try { auto got = tree_op(*t, w.at, p, &made); compare(got, want, "tree", p.op); } catch (const std::bad_alloc&) { failed = true; }
            bool has; { Rt q; has = !(mm.leaf && mm.v == -12345); }
            if (!failed && keep && has) { std::lock_guard<std::mutex> lock(w.mutex); w.trees[z].t = made; Rt q; w.trees[z].m = mm; }
        } else {
            P p = draw(NLIST); Vec want; { Rt q; want = list_model(w.mlist, p); }
            try { auto got = list_op(w.list, p); compare(got, want, "list", p.op); } catch (const std::bad_alloc&) { failed = true; }
        }
        Rt q; count("shared_operations"); if (failed) count("operations_out_of_memory"); event("op", what, failed);
    }
}

void run_shared() {
    auto cfg = random_sched(); cfg.step_budget = 40000000;
    hang_label = "operation on a shared value never completes";
    int threads = 1 + (int)choose(W, 4), nops = 1 + (int)choose(W, 7), nfail = choose(F, 4) == 3 ? 1 + (int)choose(F, 3) : 0;
    std::vector<MA> mas; std::vector<MT> mts; MT mat; Vec ml; int id = 0;
    { Rt q; int k = 1 + (int)choose(W, 3); for (int i = 0; i < k; ++i) mas.push_back(i && choose(W, 2) ? make_ma(mas[0].n, mas[0].m, [&] (size_t a, size_t b) { return 2 - mas[0].at(a, b) * (i + 1); }) : draw_ma());
      k = 1 + (int)choose(W, 2); for (int i = 0; i < k; ++i) mts.push_back(draw_mt(2, false, id)); mat = draw_mt(1, true, id); k = (int)choose(W, 7); for (int i = 0; i < k; ++i) ml.push_back(i * 3 % 7); }
    activate(cfg);
    {
        World w; std::vector<Arr> first; std::vector<Tree> tfirst;
        for (auto& m : mas) { Slot s{real(m), {}}; { Rt q; s.m = m; } first.push_back(s.a); w.arrays.push_back(s); }
        for (auto& m : mts) { TSlot s{real_tree(m), {}}; { Rt q; s.m = m; } tfirst.push_back(s.t); w.trees.push_back(s); }
        w.at = real_atree(mat); { Rt q; w.mat = mat; w.mlist = ml; }
        { List l; for (size_t i = ml.size(); i-- > 0;) l = l.prepend((int)ml[i]); w.list = l; }
        std::vector<int> ids;
        for (int t = 1; t < threads; ++t) { int i = sim::spawn([&] { client(w, nops); }); Rt q; ids.push_back(i); }
        if (nfail) { alloc_fail_count = nfail; alloc_fail_after = (int64_t)choose(F, 400); }
        client(w, nops);
        for (int i : ids) sim::join(i);
        alloc_fail_after = -1;
        // nothing that was shared has changed
        for (size_t i = 0; i < mas.size(); ++i) { Vec want; { Rt q; put(want, mas[i]); } auto got = flat(first[i]); Rt q; if (got != want) violation("a shared value was changed: array %zu", i); }
        for (size_t i = 0; i < mts.size(); ++i) { Vec want, got; { Rt q; put_tree(want, mts[i], false); } flat_tree(got, tfirst[i]); Rt q; if (got != want) violation("a shared value was changed: tree %zu", i); }
        for (auto& s : w.arrays) { Vec want; { Rt q; put(want, s.m); } auto got = flat(s.a); Rt q; if (got != want) violation("a shared value was changed: an array made from others"); }
        for (auto& s : w.trees) { Vec want, got; { Rt q; put_tree(want, s.m, false); } flat_tree(got, s.t); Rt q; if (got != want) violation("a shared value was changed: a tree made from others"); }
        { Vec want, got; { Rt q; put_tree(want, mat, true); } flat_tree(got, w.at); Rt q; if (got != want) violation("a shared value was changed: tree of arrays"); }
        { auto got = list_vec(w.list); Rt q; if (got != ml) violation("a shared value was changed: list"); }
    }
    Rt q; if (threads > 1) count("runs_with_several_threads");
}

Register r("shared_values", [](Ctx& c) {
    auto o = c.segment(run_shared);
    c.note("shared values: %lu steps, %lu switches, outcome %s", (unsigned long)o.steps, (unsigned long)o.switches, o.kind_name());
    if (o.kind == Outcome::OK) { c.trivial = o.switches < 2; return; }
    if (o.kind == Outcome::ERROR) { c.fail("ERROR: %s", o.msg.c_str()); return; }
    if (o.kind == Outcome::SIGNAL) { c.fail("process died (signal %d): operations on shared values; stderr: %.300s", o.code, o.err.c_str()); return; }
    if (o.kind == Outcome::EXIT) { c.fail("process exited %d: operations on shared values", o.code); return; }
    c.fail("%s", o.msg.c_str());
});
}

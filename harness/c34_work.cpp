// C34: no operation does more work, or takes more memory, than its documentation says.  The work of every catalogued operation is
// counted (basic blocks, bytes moved, heap) on families of graphs of doubling size; the count divided by the documented bound must
// not grow.
#include "work.hpp"
#include "catalogue.hpp"
#include <cmath>
#include <cstring>
#include <functional>
using namespace cat;
using gen::EL;

namespace {
// ------------------------------------------------------------------ families of graphs, by size
struct Family {
  const char* name;
  bool        dense;
  EL (*make)(int n);
};
void edge(EL& g, int u, int v) { g.e.push_back({u, v, 100 + (int)((g.e.size() * 7) % 11)}); }
const std::vector<Family>& families() {
  static const std::vector<Family> f{
        {"path", false, [](int n) { EL g{n, {}}; for (int i = 0; i + 1 < n; ++i) edge(g, i, i + 1); return g; }},
        {"path, backwards", false, [](int n) { EL g{n, {}}; for (int i = n - 1; i > 0; --i) edge(g, i, i - 1); return g; }},
        {"cycle", false, [](int n) { EL g{n, {}}; for (int i = 0; i < n; ++i) edge(g, i, (i + 1) % n); return g; }},
        {"star", false, [](int n) { EL g{n, {}}; for (int i = 1; i < n; ++i) edge(g, 0, i); return g; }},
        {"star, inwards", false, [](int n) { EL g{n, {}}; for (int i = 1; i < n; ++i) edge(g, i, 0); return g; }},
        {"star around the last vertex", false, [](int n) { EL g{n, {}}; for (int i = 0; i + 1 < n; ++i) edge(g, n - 1, i); return g; }},
        {"binary tree", false, [](int n) { EL g{n, {}}; for (int i = 1; i < n; ++i) edge(g, (i - 1) / 2, i); return g; }},
        {"diamonds", false, [](int n) { EL g{n / 3 * 3 + 1, {}}; for (int i = 0; i + 3 < g.n; i += 3) edge(g, i, i + 1), edge(g, i, i + 2), edge(g, i + 1, i + 3), edge(g, i + 2, i + 3); return g; }},
        {"fan", false, [](int n) { EL g{n, {}}; for (int i = 1; i < n; ++i) { edge(g, 0, i); if (i + 1 < n) edge(g, i, i + 1); } return g; }},
        {"wheel of two rims", false, [](int n) { EL g{n, {}}; int h = n / 2; for (int i = 0; i < h; ++i) edge(g, i, (i + 1) % h), edge(g, i, h + i), edge(g, h + i, h + (i + 1) % h); return g; }},
        {"parallel edges", false, [](int n) { EL g{2, {}}; for (int i = 0; i < n; ++i) edge(g, 0, 1); return g; }},
        {"self-loops", false, [](int n) { EL g{n, {}}; for (int i = 0; i < n; ++i) edge(g, i, i); return g; }},
        {"loops of one vertex", false, [](int n) { EL g{1, {}}; for (int i = 0; i < n; ++i) edge(g, 0, 0); return g; }},
        {"isolated vertices", false, [](int n) { return EL{n, {}}; }},
        {"one edge at the end", false, [](int n) { EL g{n, {}}; edge(g, n - 2, n - 1); return g; }},
        {"pairs", false, [](int n) { EL g{n, {}}; for (int i = 0; i + 1 < n; i += 2) edge(g, i, i + 1); return g; }},
        {"complete", true, [](int n) { EL g{n, {}}; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) edge(g, i, j); return g; }},
        {"complete, forward", true, [](int n) { EL g{n, {}}; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) edge(g, i, j); return g; }},
        {"complete bipartite", true, [](int n) { EL g{n, {}}; for (int i = 0; i < n / 2; ++i) for (int j = n / 2; j < n; ++j) edge(g, i, j); return g; }},
        {"two cliques and a bridge", true, [](int n) { EL g{n, {}}; int h = n / 2; for (int i = 0; i < h; ++i) for (int j = i + 1; j < h; ++j) edge(g, i, j), edge(g, h + i, h + j); edge(g, h - 1, h); return g; }},
  };
  return f;
}
// ------------------------------------------------------------------ what the bounds are made of
struct Size { // of a graph as it is stored
  double V = 0, E = 0, deg = 0, in = 0, lg = 1, min_deg = 0, sum_deg = 0, deg2 = 0, deg0 = 0, in0 = 0;
};
enum Bound { One, Ends, Deg, In, Verts, Edges, Linear, LinearLog, VE, VDeg, DegSq, Jac, Tri, Zero, Any };
double value(Bound b, const Size& z) {
  switch (b) {
  case One: return 1;
  case Deg: return 1 + z.deg;
  case In: return 1 + z.in;
  case Ends: return 1 + z.deg + z.in + z.deg0 + z.in0;
  case Verts: return 1 + z.V;
  case Edges: return 1 + z.E;
  case Linear: return 1 + z.V + z.E;
  case LinearLog: return (1 + z.V + z.E) * std::log2(2 + z.V + z.E);
  case VE: return 1 + (1 + z.V) * (z.V + z.E);
  case VDeg: return (1 + z.V) * (1 + z.deg);
  case DegSq: return 1 + z.V + z.deg + z.deg * z.deg;
  case Jac: return 1 + z.V + z.E + z.min_deg;
  case Tri: return 1 + z.V + z.E + z.sum_deg;
  default: return 1;
  }
  return 1;
}
template <class R>
Size size_of(const EL& el, int s) {
  Size             z;
  std::vector<int> out((size_t)el.n), in((size_t)el.n);
  for (auto& x : el.e) {
    ++out[(size_t)x.u];
    ++in[(size_t)x.v];
    if (R::undir && x.u != x.v) ++out[(size_t)x.v], ++in[(size_t)x.u];
  }
  z.V = el.n;
  for (int i = 0; i < el.n; ++i)
    z.E += out[(size_t)i], z.deg2 += (double)out[(size_t)i] * out[(size_t)i];
  z.deg = out[(size_t)s];
  z.in  = R::undir ? out[(size_t)s] : in[(size_t)s];
  z.deg0 = out[0];
  z.in0  = R::undir ? out[0] : in[0];
  for (auto& x : el.e)
    z.min_deg += (R::undir ? 2 : 1) * std::min(out[(size_t)x.u], out[(size_t)x.v]), z.sum_deg += (R::undir ? 2 : 1) * (out[(size_t)x.u] + out[(size_t)x.v]);
  if (R::keyed) z.lg = std::log2(2 + z.V);
  return z;
}
struct Claim {
  const char* op;
  Bound       time, space;
};
// Zero: no allocation at all; Any: not looked at
const Claim claims[] = {
      {"find_vertex", One, Zero},
      {"degree by id and descriptor", One, Zero},
      {"edges by id", Deg, Zero},
      {"edges and their targets", Deg, Zero},
      {"num_edges and has_edges", Linear, Zero},
      {"find_vertex_edge, contains_edge", VDeg, Zero},
      {"partitions", One, Zero},
      {"descriptors hash and compare", DegSq, Zero},
      {"copying", Linear, Linear},
      {"member functions", Linear, Zero},
      {"in_edges", In, Zero},
      {"in_degree", One, Zero},
      {"vertexlist", Verts, Zero},
      {"vertexlist, value function", Verts, Zero},
      {"vertexlist, owning value function", Verts, Any},
      {"incidence", Deg, Zero},
      {"incidence, value function", Deg, Zero},
      {"incidence, owning value function", Deg, Any},
      {"neighbors", Deg, Zero},
      {"neighbors, value function", Deg, Zero},
      {"neighbors, owning value function", Deg, Any},
      {"out_incidence, out_neighbors", Deg, Zero},
      {"edgelist", Linear, Zero},
      {"edgelist, value function", Linear, Zero},
      {"in_incidence, in_neighbors", In, Zero},
      {"in_incidence, in_neighbors, owning value functions", In, Any},
      {"transposed", Linear, Zero},
      {"dijkstra_shortest_paths", LinearLog, Linear},
      {"dijkstra_shortest_paths, several sources", LinearLog, Linear},
      {"dijkstra_shortest_distances", LinearLog, Linear},
      {"bellman_ford_shortest_paths", VE, Verts},
      {"bellman_ford_shortest_distances", VE, Verts},
      {"kruskal of its edges", LinearLog, Linear},
      {"prim", LinearLog, Linear},
      {"jaccard_coefficient", Jac, Linear},
      {"triangle_count", Tri, Zero},
      {"breadth_first_search", Linear, Verts},
      {"depth_first_search", Linear, Verts},
      {"topological_sort", Linear, Verts},
      {"connected_components", Linear, Verts},
      {"kosaraju", Linear, Verts},
      {"afforest", Linear, Verts},
      {"articulation_points", Linear, Verts},
      {"maximal_independent_set", Linear, Verts},
      {"label_propagation", Linear, Verts},
      {"vertices_bfs", Linear, Verts},
      {"edges_bfs", Linear, Verts},
      {"vertices_dfs", Linear, Verts},
      {"edges_dfs", Linear, Verts},
};
Claim claim(const char* op) {
  for (auto& c : claims)
    if (!std::strcmp(c.op, op)) return c;
  return {op, Linear, Linear};
}
template <class R>
constexpr bool fl = R::fwd; // edges in a forward_list
template <class R>
constexpr Bound In1 = R::fwd ? In : One;
inline void keep(uint64_t x) { asm volatile("" ::"r"(x)); }
std::vector<int> sizes(bool dense) { return dense ? (mc::thorough() ? std::vector<int>{8, 16, 32, 64, 96} : std::vector<int>{8, 16, 32}) : (mc::thorough() ? std::vector<int>{32, 64, 128, 256, 512, 1024, 2048, 4096} : std::vector<int>{32, 128, 512}); }

inline const EL* cur = nullptr; // the graph at hand, as it was listed
template <class R>
struct Item {
  std::string name;
  bool        per_vertex;
  Bound       time, space;
  std::function<void(const typename R::G&, int, Cx&)> run;
};
template <class R>
void grow(mc::Suite& S, const std::vector<Item<R>>& all, double lg_of = 1) {
  using G = typename R::G;
  for (auto& f : families())
    for (auto& op : all)
      for (int sym = 0; sym < (R::undir ? 1 : 2); ++sym) {
        if (S.stop()) return;
        S.run_case(
              mc::Hash().add(std::string(f.name)).add(op.name).add(sym).h, [&] { return S.name + " " + op.name + " on " + f.name + (sym ? ", both ways" : ""); },
              [&] {
                double     cmin = 0, smin = 0, tmin = 0;
                const bool small = f.dense || op.time == VE || op.time == VDeg || op.time == DegSq;
                for (int n : sizes(small)) {
                  EL el = f.make(n);
                  if (R::uniq && zoo::parallel(el)) return;
                  if (sym) el = gen::both(el);
                  const G g = R::make(el);
                  cur       = &el;
                  double  c = 0, sp = 0, tr = 0;
                  for (int s : std::set<int>{0, el.n / 2, el.n - 1}) {
                    Cx cx;
                    cx.s = op.per_vertex ? s : 0;
                    Size z;
                    {
                      mc::Untracked u;
                      z = size_of<R>(el, cx.s);
                    }
                    auto         m     = work::measure([&] { op.run(g, cx.s, cx); });
                    const double bound = value(op.time, z) * z.lg * (lg_of == 1 ? 1 : std::log2(2 + z.deg));
                    c                  = std::max(c, (double)m.work() / bound);
                    if (op.space == Zero)
                      MC_CHECK(m.allocs == 0, op.name << " allocates memory (" << m.allocs << " times)");
                    else if (op.space != Any)
                      sp = std::max(sp, (double)(m.peak + 256) / value(op.space, z));
                    tr = std::max(tr, (double)(m.traffic + 256) / bound);
                    mc::count("basic_blocks", m.blocks);
                    mc::transition();
                    if (!op.per_vertex) break;
                  }
                  if (cmin == 0) cmin = c, smin = sp, tmin = tr;
                  MC_CHECK(c <= 1.8 * cmin, op.name << " with size " << n << " takes " << c / cmin << " times the documented share of the work with the smallest size");
                  MC_CHECK(sp <= 2.2 * smin, op.name << " with size " << n << " takes " << sp / smin << " times the documented share of the memory with the smallest size");
                  MC_CHECK(tr <= std::max(2.2 * tmin, 1000.), // a deque gives a chunk back and takes it again when it swings around a boundary
                           op.name << " with size " << n << " requests " << tr / tmin << " times the documented share of memory in total with the smallest size");
                  mc::trace();
                }
                S.nontrivial();
                mc::state(mc::Hash().add(S.name_hash).add(std::string(f.name)).add(op.name).add(sym).h);
                mc::outcome(mc::Hash().add((uint64_t)(cmin * 10)).h);
              });
      }
}
// every catalogued operation
template <class R, int Sel>
void growth(mc::Suite& S) {
  std::vector<Item<R>> v;
  for (auto& op : ops<R, const typename R::G, Sel>()) {
    const Claim cl = claim(op.name);
    Bound       t  = cl.time;
    if (fl<R> && (t == One)) t = Deg;
    v.push_back({op.name, op.per_vertex, t, cl.space, [f = op.run](const typename R::G& g, int, Cx& c) { f(g, c); }});
  }
  grow<R>(S, v);
}
// every single query
template <class R>
void steps(mc::Suite& S) {
  namespace gg = graph;
  using G = typename R::G;
  std::vector<Item<R>> v;
  constexpr bool INDEX = graph::adj_list::index_adjacency_list<const G>, BIDIR = graph::adj_list::bidirectional_adjacency_list<const G>;
  const Bound    Cnt   = fl<R> ? Deg : One; // a forward_list must be counted
#define ST(NAME, PV, T, ...) v.push_back({NAME, PV, T, Zero, [](const G& g, [[maybe_unused]] int s, [[maybe_unused]] Cx& c) __VA_ARGS__});
#define USE(...) keep((uint64_t)(__VA_ARGS__))
#define VX auto u = *gg::find_vertex(g, R::id(s));
#define EX auto es = gg::edges(g, u); auto it = std::ranges::begin(es); if (it == std::ranges::end(es)) return; auto uv = *it;
  ST("num_vertices", false, One, { USE(gg::num_vertices(g)); })
  ST("vertices", false, One, { auto r = gg::vertices(g); USE(r.size() + (r.begin() == r.end())); })
  ST("num_edges", false, R::lib ? One : Linear, { USE(gg::num_edges(g)); })
  ST("has_edges", false, R::lib ? One : Verts, { USE(gg::has_edges(g)); })
  if constexpr (R::lib) {
    ST("graph_value", false, One, { USE(gg::graph_value(g)); })
    ST("vertex_value", true, One, { VX; USE(gg::vertex_value(g, u)); })
  }
  ST("partitions", true, One, { VX; USE(gg::partition_id(g, u) + gg::num_partitions(g) + gg::num_vertices(g, 0)); auto r = gg::vertices(g, 0); USE(std::ranges::begin(r) == std::ranges::end(r)); })
  ST("find_vertex", true, One, { USE(gg::vertex_id(g, *gg::find_vertex(g, R::id(s))) == R::id(s)); })
  ST("edges of a descriptor", true, Cnt, { VX; auto es = gg::edges(g, u); USE(std::ranges::begin(es) == std::ranges::end(es)); })
  ST("edges of an id", true, Cnt, { auto es = gg::edges(g, R::id(s)); USE(std::ranges::begin(es) == std::ranges::end(es)); })
  ST("degree of a descriptor", true, Cnt, { VX; USE(gg::degree(g, u)); })
  ST("degree of an id", true, Cnt, { USE(gg::degree(g, R::id(s))); })
  ST("the first edge", true, Cnt, {
    VX; EX;
    USE(gg::target_id(g, uv) == gg::source_id(g, uv));
    auto&& ev = gg::edge_value(g, uv); USE((uintptr_t)&ev);
    USE(gg::target(g, uv) == gg::source(g, uv));
  })
  ST("find_vertex_edge", true, Deg, { VX; auto e = gg::find_vertex_edge(g, u, R::id(s)); (void)e; })
  ST("contains_edge", true, Deg, { USE(gg::contains_edge(g, R::id(s), R::id(0))); })
  ST("hash and compare", true, Cnt, {
    VX; EX;
    USE(std::hash<std::remove_cvref_t<decltype(u)>>{}(u) + (u == u));
    USE(std::hash<std::remove_cvref_t<decltype(uv)>>{}(uv) + (uv == uv));
  })
  if constexpr (BIDIR) {
    ST("in_edges", true, In1<R>, { VX; auto es = gg::in_edges(g, u); USE(std::ranges::begin(es) == std::ranges::end(es)); })
    ST("in_edges of an id", true, In1<R>, { auto es = gg::in_edges(g, R::id(s)); USE(std::ranges::begin(es) == std::ranges::end(es)); })
    ST("in_degree", true, In1<R>, { VX; USE(gg::in_degree(g, u) + gg::in_degree(g, R::id(s))); })
    ST("find_in_edge", true, Ends, { auto e = gg::find_in_edge(g, R::id(s), R::id(0)); (void)e; })
    ST("contains_in_edge", true, Ends, { USE(gg::contains_in_edge(g, R::id(s), R::id(0))); })
    ST("in_incidence, in_neighbors, made", true, In1<R>, { VX; auto a = gv::in_incidence(g, u); auto b = gv::in_neighbors(g, u); USE(a.size() + b.size()); })
    ST("transposed, made", false, One, { gv::transpose_view<const G> t(g); USE(gg::num_vertices(t)); })
  }
  ST("vertexlist, made", false, One, { auto a = gv::vertexlist(g); auto b = gv::basic_vertexlist(g); USE(a.size() + b.size()); USE((a.begin() == a.end()) + (b.begin() == b.end())); })
  ST("incidence, neighbors, made", true, Cnt, { VX; auto a = gv::incidence(g, u); auto b = gv::neighbors(g, u); USE(a.size() + b.size()); USE((a.begin() == a.end()) + (b.begin() == b.end())); })
  ST("edgelist, made", false, One, { auto a = gv::edgelist(g); (void)a; })
  if constexpr (!R::keyed) // where the first edge lies is a matter of the hash
    ST("edgelist, begun", false, R::fwd ? Linear : Verts, { auto a = gv::edgelist(g); USE(a.begin() == a.end()); })
  if constexpr (INDEX) {
    ST("basic_incidence, basic_neighbors, made", true, Cnt, { auto a = gv::basic_incidence(g, R::id(s)); auto b = gv::basic_neighbors(g, R::id(s)); USE(a.size() + b.size()); })
    ST("adaptors", true, Cnt, { auto a = g | ad::incidence(R::id(s)); auto b = g | ad::vertexlist(); USE(a.size() + b.size()); })
  }
  grow<R>(S, v);
}
using zoo::Lib;
// building and changing a graph
template <class R>
void changes(mc::Suite& S) {
  using G = typename R::G;
  std::vector<Item<R>> v;
#define CH(NAME, PV, T, SP, ...) v.push_back({NAME, PV, T, SP, [](const G& g, [[maybe_unused]] int s, [[maybe_unused]] Cx& c) __VA_ARGS__});
#define BEFORE(...) work::on = false; __VA_ARGS__; work::on = true;
#define AFTER work::on = false;
  CH("building", false, Linear, Linear, { G h = R::make(*cur); keep(graph::num_vertices(h)); })
  CH("copying", false, Linear, Linear, { G h(g); keep(graph::num_vertices(h)); })
  CH("assigning", false, Linear, Linear, { G h(g); h = g; keep(graph::num_vertices(h)); })
  CH("moving", false, One, Zero, { BEFORE(G a(g)) G b(std::move(a)); AFTER })
  CH("move-assigning", false, Linear, Zero, { BEFORE(G a(g); G b(g)) b = std::move(a); AFTER })
  if constexpr (R::lib) CH("swapping", false, One, Zero, { BEFORE(G a(g); G b(g); using std::swap) swap(a, b); AFTER })
  if constexpr (cont::Ual<G>) {
    CH("adding a vertex to each", false, Verts, Any, { BEFORE(G a(g); size_t n = graph::num_vertices(a)) for (size_t i = 0; i < n; ++i) a.create_vertex((int)i); AFTER })
    CH("adding an edge", true, One, Any, { BEFORE(G a(g)) a.create_edge((typename R::Id)s, 0u, 1); AFTER })
    CH("removing the first edge of a vertex", true, One, Zero, {
      BEFORE(G a(g); bool any = a.begin()[s].num_edges() != 0; auto it = a.begin()[s].edges_begin(a, (typename R::Id)s))
      if (any) a.begin()[s].erase_edge(a, it);
      AFTER
    })
    CH("removing the last edge of a vertex", true, One, Zero, {
      BEFORE(G a(g); auto& w = a.begin()[s]; bool any = w.num_edges() != 0; auto it = w.edges_begin(a, (typename R::Id)s); for (size_t i = 1; i < w.num_edges(); ++i) ++it)
      if (any) w.erase_edge(a, it);
      AFTER
    })
    CH("removing the edges of a vertex", true, Deg, Zero, { BEFORE(G a(g)) a.begin()[s].clear_edges(a); AFTER })
    CH("edge_front, edge_back, num_edges of a vertex", true, One, Zero, { auto& w = g.begin()[s]; if (w.num_edges()) keep((uint64_t)(w.edge_front(g).value() + w.edge_back(g).value())); })
    CH("all edges", false, Linear, Zero, { uint64_t t = 0; for (auto&& e : g.edges()) t += (uint64_t)e.value(); keep(t); })
  }
  if constexpr (requires(G a) { a.clear(); }) CH("clearing", false, Linear, Zero, { BEFORE(G a(g)) a.clear(); AFTER })
  if constexpr (cont::Dyn<G>)
    CH("loading once more", false, Linear, Linear, {
      using CE = graph::copyable_edge_t<typename R::Id, int>;
      BEFORE(G a(g); std::vector<CE> es; for (auto& x : cur->e) es.push_back(CE{R::id(x.u), R::id(x.v), x.w}))
      a.load_edges(es, std::identity{});
      AFTER
    })
  grow<R>(S, v);
}
// what is known not to keep to the documentation, each on a star of 32 and 512 edges
template <class R>
double star_ratio(auto&& f, bool inwards = false) {
  double w[2];
  for (int i = 0; i < 2; ++i) {
    const EL el = (inwards ? families()[4] : families()[3]).make(i ? 513 : 33);
    const typename R::G g = R::make(el);
    w[i] = (double)work::measure([&] { f(g, i ? 512 : 32); }).work();
    mc::transition();
    mc::trace();
  }
  mc::state(mc::Hash().add((uint64_t)w[1]).h);
  return w[1] / w[0];
}
#define KNOWN(NAME, WHAT, LIMIT, INWARDS, R, ...)                                                                      \
  S.run_case(mc::Hash().add(std::string(NAME)).h, [&] { return std::string(NAME); }, [&] {                             \
    S.nontrivial();                                                                                                    \
    bool fine = star_ratio<R>([](const auto& g, [[maybe_unused]] int last) { __VA_ARGS__ }, INWARDS) <= LIMIT;         \
    mc::outcome(fine);                                                                                                 \
    MC_CHECK(fine, WHAT);                                                                                              \
  });
template <class L, bool Fwd = false>
struct W : L {
  static constexpr bool fwd = Fwd;
};
#define ALGOS(NAME, ...) MC_SUITE(NAME##_algos) { growth<W<__VA_ARGS__>, Algos | Algos2>(S); }
#define READS(NAME, ...) MC_SUITE(NAME##_reads) { growth<W<__VA_ARGS__>, Queries | BasicViews | SearchViews>(S); }
#define STEPS(NAME, ...) MC_SUITE(NAME##_steps) { steps<W<__VA_ARGS__>>(S); }
#define CHANGES(NAME, ...) MC_SUITE(NAME##_changes) { changes<W<__VA_ARGS__>>(S); }
using zoo::Indexed, zoo::Keyed, zoo::Own;
#if PART == 1
ALGOS(vov_in, Lib<zoo::vov_z<uint32_t, true>>)
#elif PART == 8
ALGOS(vec_pairs, Indexed<std::vector<std::vector<std::pair<int, int>>>>)
READS(vec_pairs, Indexed<std::vector<std::vector<std::pair<int, int>>>>)
#elif PART == 9
STEPS(vec_pairs, Indexed<std::vector<std::vector<std::pair<int, int>>>>)
STEPS(deq_list, Indexed<std::deque<std::list<zoo::Se>>>)
STEPS(map_vec, Keyed<std::map<int, std::vector<std::pair<int, int>>>>)
STEPS(umap_list, Keyed<std::unordered_map<int, std::list<std::pair<int, int>>>>)
STEPS(own_in, Own<std::vector<zoo::OwnV<std::vector<std::pair<int, int>>, std::vector<std::pair<int, int>>>>>)
#elif PART == 10
CHANGES(vov_in, Lib<zoo::vov_z<uint32_t, true>>)
CHANGES(vol, Lib<zoo::vol_z<>>)
CHANGES(vofl, Lib<zoo::vofl_z<>>, true)
CHANGES(mov, Lib<zoo::mov_z<>>)
CHANGES(uol_in, Lib<zoo::uov_z<uint32_t, true>>)
CHANGES(csr, Lib<zoo::csr_z<>>)
CHANGES(ual, Lib<zoo::ual_z<>>)
#elif PART == 11
MC_SUITE(known) {
  using namespace zoo;
  using VovIn = W<Lib<vov_z<uint32_t, true>>>;
#define FIND { auto u = *graph::find_vertex(g, 0u); for (uint32_t t : {1u, (uint32_t)last}) keep(graph::target_id(g, graph::find_vertex_edge(g, u, t))); }
  KNOWN("vos", "KF-FIND-EDGE: find_vertex_edge of a graph whose edges are in a set walks them", 4, false, W<Lib<vos_z<>>>, FIND)
  KNOWN("vom", "KF-FIND-EDGE: find_vertex_edge of a graph whose edges are in a map walks them", 4, false, W<Lib<vom_z<>>>, FIND)
  KNOWN("vous", "KF-FIND-EDGE: find_vertex_edge of a graph whose edges are in an unordered_set walks them", 4, false, W<Lib<vous_z<>>>, FIND)
  KNOWN("voum", "KF-FIND-EDGE: find_vertex_edge of a graph whose edges are in an unordered_map walks them", 4, false, W<Lib<voum_z<>>>, FIND)
  KNOWN("find_in_edge", "KF-IN-EDGE: find_in_edge(g, uid, vid) walks the outgoing edges of vid", 2, false, VovIn, { auto e = graph::find_in_edge(g, (uint32_t)last, 0u); (void)e; })
  KNOWN("contains_in_edge", "KF-IN-EDGE: contains_in_edge(g, uid, vid) walks the outgoing edges of vid", 2, false, VovIn, { keep(graph::contains_in_edge(g, (uint32_t)last, 0u)); })
  KNOWN("vofl", "KF-COUNT: edges(g, u) of a graph whose edges are in a forward_list counts them", 2, false, W<Lib<vofl_z<>>>, { auto u = *graph::find_vertex(g, 0u); auto es = graph::edges(g, u); keep(es.begin() == es.end()); })
}
#elif PART == 2
READS(vov_in, Lib<zoo::vov_z<uint32_t, true>>)
#elif PART == 3
ALGOS(ual, Lib<zoo::ual_z<>>)
READS(ual, Lib<zoo::ual_z<>>)
#elif PART == 4
ALGOS(csr, Lib<zoo::csr_z<>>)
READS(csr, Lib<zoo::csr_z<>>)
#elif PART == 5
ALGOS(vol, Lib<zoo::vol_z<>>)
READS(mov_in, Lib<zoo::mov_z<uint32_t, true>>)
#elif PART == 6
STEPS(vov_in, Lib<zoo::vov_z<uint32_t, true>>)
STEPS(vol_in, Lib<zoo::vol_z<uint32_t, true>>)
STEPS(vofl, Lib<zoo::vofl_z<>>, true)
STEPS(vod, Lib<zoo::vod_z<>>)
STEPS(vos_in, Lib<zoo::vos_z<uint32_t, true>, true>)
STEPS(vous, Lib<zoo::vous_z<>, true, false>)
STEPS(vom, Lib<zoo::vom_z<>, true>)
STEPS(voum, Lib<zoo::voum_z<>, true, false>)
#elif PART == 7
STEPS(dov, Lib<zoo::dov_z<>>)
STEPS(dol_in, Lib<zoo::dol_z<uint32_t, true>>)
STEPS(mov_in, Lib<zoo::mov_z<uint32_t, true>>)
STEPS(mol, Lib<zoo::mol_z<>>)
STEPS(uov_in, Lib<zoo::uov_z<uint32_t, true>>)
STEPS(uos, Lib<zoo::uos_z<>, true, false>)
STEPS(csr, Lib<zoo::csr_z<>>)
STEPS(ual, Lib<zoo::ual_z<>>)
#endif
} // namespace

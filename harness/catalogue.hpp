// catalogue.hpp - every operation that only reads a graph: queries, views and algorithms.  An operation digests everything it
// is told into Cx::h and calls flt::tick() from every callback it hands to the library.
#pragma once
#include "algo_common.hpp"
#include "fault.hpp"
#include "zoo.hpp"
#include <graph/views.hpp>
#include <graph/algorithms.hpp>
#include <graph/algorithm/topological_sort.hpp>
#include <graph/algorithm/tc.hpp>
#include <graph/algorithm/mst.hpp>
#include <graph/algorithm/mis.hpp>
#include <graph/algorithm/label_propagation.hpp>
#include <graph/algorithm/jaccard.hpp>
#include <graph/algorithm/dijkstra_shortest_paths.hpp>
#include <graph/algorithm/depth_first_search.hpp>
#include <graph/algorithm/connected_components.hpp>
#include <graph/algorithm/breadth_first_search.hpp>
#include <graph/algorithm/biconnected_components.hpp>
#include <graph/algorithm/bellman_ford_shortest_paths.hpp>
#include <graph/algorithm/articulation_points.hpp>
#include <graph/views/adaptors.hpp>

namespace cat {
namespace gv = graph::views;
namespace ad = graph::views::adaptors;
struct Cx {
  mc::Hash h;
  int      s = 0; // the vertex the operation is about
};
inline void add_id(mc::Hash& h, const auto& id) {
  if constexpr (std::is_convertible_v<decltype(id), const std::string&>)
    h.add(static_cast<const std::string&>(id));
  else
    h.add((uint64_t)id);
}
template <class V>
uint64_t num(const V& v) { // an edge value as a number
  if constexpr (std::is_arithmetic_v<V>)
    return (uint64_t)v;
  else if constexpr (requires { v.w; })
    return (uint64_t)v.w;
  else if constexpr (requires { std::tuple_size<V>::value; }) {
    if constexpr (std::tuple_size_v<V> == 0)
      return 0;
    else
      return num(std::get<0>(v));
  } else
    return 7;
}
template <class G>
void dv(Cx& c, G& g, const auto& u) {
  add_id(c.h, graph::vertex_id(g, u));
}
template <class G>
void de(Cx& c, G& g, const auto& e) {
  add_id(c.h, graph::source_id(g, e));
  add_id(c.h, graph::target_id(g, e));
  c.h.add(num(graph::edge_value(g, e)));
}
// callbacks
struct Vf {
  long operator()(const auto& g, const auto& v) const {
    flt::tick();
    return (long)mc::mix(seed(graph::vertex_id(g, v)));
  }
  static uint64_t seed(const auto& id) {
    mc::Hash h;
    add_id(h, id);
    return h.h;
  }
};
struct Ef {
  long operator()(const auto& g, const auto& e) const {
    flt::tick();
    Cx c;
    de(c, g, e);
    return (long)c.h.h;
  }
};
struct FatVf : Vf { // a value function that owns memory, and whose copy may therefore fail
  std::vector<int> mem = std::vector<int>(3, 5);
};
struct FatEf : Ef {
  std::vector<int> mem = std::vector<int>(3, 5);
};
struct Wf {
  int operator()(const auto& g, const auto& e) const {
    flt::tick();
    return (int)(num(graph::edge_value(g, e)) % 5) + 1;
  }
};
struct Less {
  bool operator()(const auto& a, const auto& b) const {
    flt::tick();
    return a < b;
  }
};
struct Plus {
  int operator()(int a, int b) const {
    flt::tick();
    return a == std::numeric_limits<int>::max() || b == std::numeric_limits<int>::max() ? std::numeric_limits<int>::max() : a + b;
  }
};
template <class T>
struct Out { // a throwing output iterator that keeps what it is given
  using iterator_category = std::output_iterator_tag;
  using value_type        = void;
  using difference_type   = std::ptrdiff_t;
  using pointer           = void;
  using reference         = void;
  mc::Hash* h             = nullptr;
  Out&      operator*() { return *this; }
  Out&      operator++() { return *this; }
  Out       operator++(int) { return *this; }
  Out&      operator=(const T& x) {
    flt::tick();
    h->add((uint64_t)x);
    return *this;
  }
};
template <class X>
concept NotId = !std::is_integral_v<std::remove_cvref_t<X>>;
struct Vis {
  Cx*  c;
  void v(int k, const auto& g, const auto& u) {
    flt::tick();
    c->h.add(k);
    dv(*c, g, u);
  }
  void e(int k, const auto& g, const auto& x) {
    flt::tick();
    c->h.add(k);
    de(*c, g, x);
  }
  void on_initialize_vertex(const auto& g, const NotId auto& u) { v(1, g, u); }
  void on_start_vertex(const auto& g, const NotId auto& u) { v(2, g, u); }
  void on_discover_vertex(const auto& g, const NotId auto& u) { v(3, g, u); }
  void on_examine_vertex(const auto& g, const NotId auto& u) { v(4, g, u); }
  void on_finish_vertex(const auto& g, const NotId auto& u) { v(5, g, u); }
  void on_examine_edge(const auto& g, const auto& x) { e(6, g, x); }
  void on_tree_edge(const auto& g, const auto& x) { e(7, g, x); }
  void on_back_edge(const auto& g, const auto& x) { e(8, g, x); }
  void on_forward_or_cross_edge(const auto& g, const auto& x) { e(9, g, x); }
  void on_finish_edge(const auto& g, const auto& x) { e(10, g, x); }
  void on_edge_relaxed(const auto& g, const auto& x) { e(11, g, x); }
  void on_edge_not_relaxed(const auto& g, const auto& x) { e(12, g, x); }
  void on_edge_minimized(const auto& g, const auto& x) { e(13, g, x); }
  void on_edge_not_minimized(const auto& g, const auto& x) { e(14, g, x); }
};
struct Te { // an edge that is asked for its target through a callback
  int to, w;
  int target_id() const {
    flt::tick();
    return to;
  }
  bool operator==(const Te&) const = default;
};
struct Rng { // a deterministic source of bits that may throw
  using result_type = uint32_t;
  uint32_t           x = 12345;
  static constexpr uint32_t min() { return 0; }
  static constexpr uint32_t max() { return ~0u; }
  uint32_t operator()() {
    flt::tick();
    return x = x * 1664525u + 1013904223u;
  }
};
// the whole graph, as its own queries describe it
template <class R, class G>
uint64_t snapshot(G& g) {
  Cx c;
  c.h.add((uint64_t)graph::num_vertices(g));
  for (auto u : graph::vertices(g)) {
    dv(c, g, u);
    for (auto&& e : graph::edges(g, u))
      de(c, g, e);
    c.h.add((uint64_t)graph::degree(g, u));
    if constexpr (R::lib) c.h.add((uint64_t)graph::vertex_value(g, u));
  }
  c.h.add((uint64_t)graph::num_edges(g));
  if constexpr (R::lib) c.h.add((uint64_t)graph::graph_value(g));
  return c.h.h;
}

// drain a view
template <class G>
void item(Cx& c, G& g, const auto& x) {
  auto put = [&](const auto& y) {
    using Y = std::remove_cvref_t<decltype(y)>;
    if constexpr (std::is_convertible_v<const Y&, const std::string&> || requires { static_cast<uint64_t>(y); })
      add_id(c.h, y);
    else if constexpr (requires { graph::target_id(g, y); })
      de(c, g, y);
    else
      dv(c, g, y);
  };
  flt::tick(); // the body of the caller's loop
  if constexpr (requires { x.source_id; }) put(x.source_id);
  if constexpr (requires { x.target_id; }) put(x.target_id);
  if constexpr (requires { x.id; }) put(x.id);
  if constexpr (requires { x.vertex; }) put(x.vertex);
  if constexpr (requires { x.target; }) put(x.target);
  if constexpr (requires { x.edge; }) put(x.edge);
  if constexpr (requires { x.value; }) put(x.value);
}
template <class G>
void drain(Cx& c, G& g, auto&& view) {
  uint64_t n = 0;
  for (auto&& x : view) {
    item(c, g, x);
    ++n;
  }
  c.h.add(n);
}
template <class R, class GR>
struct Op {
  const char* name;
  bool        per_vertex;
  void (*run)(GR&, Cx&);
};
enum Groups { Queries = 1, BasicViews = 2, SearchViews = 4, Algos = 8, Algos2 = 16, All = 31 };

template <class R, class GR, int Sel = All>
std::vector<Op<R, GR>> ops() {
  namespace gg = graph;
  std::vector<Op<R, GR>> r;
  using T                 = std::remove_const_t<GR>;
  constexpr bool INDEX    = graph::adj_list::index_adjacency_list<GR>;
  constexpr bool BIDIR    = graph::adj_list::bidirectional_adjacency_list<GR>;
  constexpr bool COMMON   = true;
#define OP(NAME, PV, ...) r.push_back({NAME, PV, [](GR & g, Cx & c) __VA_ARGS__});
#define ID auto id = R::id(c.s);
#define VD auto u = *gg::find_vertex(g, R::id(c.s));
  if constexpr (Sel & Queries) {
    OP("the whole graph", false, { c.h.add(snapshot<R>(g)); })
    OP("find_vertex", true, { VD; dv(c, g, u); })
    OP("find_vertex of an absent id", false, {
      if constexpr (R::keyed) {
        auto id = R::id(77);
        c.h.add((uint64_t)(gg::find_vertex(g, id) == std::ranges::end(gg::vertices(g))));
      }
    })
    OP("degree by id and descriptor", true, { VD; ID; c.h.add((uint64_t)gg::degree(g, u)).add((uint64_t)gg::degree(g, id)); })
    OP("edges by id", true, { ID; for (auto&& e : gg::edges(g, id)) de(c, g, e); })
    OP("edges and their targets", true, {
      VD;
      for (auto&& e : gg::edges(g, u)) {
        dv(c, g, gg::target(g, e));
        dv(c, g, gg::source(g, e));
      }
    })
    OP("num_edges and has_edges", false, { c.h.add((uint64_t)gg::num_edges(g)).add((uint64_t)gg::has_edges(g)); })
    OP("find_vertex_edge, contains_edge", true, {
      VD;
      ID;
      for (auto v : gg::vertices(g)) {
        auto vid = gg::vertex_id(g, v);
        bool has = gg::contains_edge(g, u, v);
        c.h.add(has).add(gg::contains_edge(g, id, vid));
        if (has) {
          de(c, g, gg::find_vertex_edge(g, u, v));
          de(c, g, gg::find_vertex_edge(g, u, vid));
          de(c, g, gg::find_vertex_edge(g, id, vid));
        }
      }
    })
    OP("partitions", true, { VD; c.h.add((uint64_t)gg::partition_id(g, u)).add((uint64_t)gg::num_partitions(g)).add((uint64_t)gg::num_vertices(g, 0)); })
    OP("descriptors hash and compare", true, {
      VD;
      for (auto v : gg::vertices(g))
        c.h.add((uint64_t)(u == v)).add((uint64_t)(std::hash<std::remove_cvref_t<decltype(u)>>{}(u) == std::hash<std::remove_cvref_t<decltype(v)>>{}(v)));
      for (auto&& e : gg::edges(g, u))
        for (auto&& f : gg::edges(g, u))
          c.h.add((uint64_t)(e == f)).add((uint64_t)(std::hash<std::remove_cvref_t<decltype(e)>>{}(e) == std::hash<std::remove_cvref_t<decltype(f)>>{}(f)));
    })
    OP("copying", false, {
      T copy(g);
      c.h.add(snapshot<R>(copy));
      T other = R::make(gen::EL{});
      other   = g;
      c.h.add(snapshot<R>(other));
    })
    if constexpr (R::lib)
      if constexpr (cont::Ual<T>)
        OP("member functions", false, {
          for (auto& v : g) c.h.add((uint64_t)v.value());
          for (auto&& e : g.edges()) c.h.add((uint64_t)e.value());
          c.h.add((uint64_t)g.graph_value()).add(g.num_vertices()).add(g.num_edges());
        })
    if constexpr (BIDIR) {
      OP("in_edges", true, { VD; ID; for (auto&& e : gg::in_edges(g, u)) de(c, g, e); for (auto&& e : gg::in_edges(g, id)) de(c, g, e); })
      OP("in_degree", true, { VD; ID; c.h.add((uint64_t)gg::in_degree(g, u)).add((uint64_t)gg::in_degree(g, id)); })
    }
  }
  if constexpr (Sel & BasicViews) {
    OP("vertexlist", false, { drain(c, g, gv::vertexlist(g)); drain(c, g, gv::basic_vertexlist(g)); })
    OP("vertexlist, value function", false, { drain(c, g, gv::vertexlist(g, Vf{})); drain(c, g, gv::basic_vertexlist(g, Vf{})); })
    OP("vertexlist, owning value function", false, { drain(c, g, gv::vertexlist(g, FatVf{})); if constexpr (INDEX) drain(c, g, g | ad::vertexlist(FatVf{})); })
    OP("incidence", true, { VD; ID; drain(c, g, gv::incidence(g, u)); if constexpr (INDEX) drain(c, g, gv::incidence(g, id)); if constexpr (INDEX) drain(c, g, gv::basic_incidence(g, id)); })
    OP("incidence, value function", true, { VD; ID; drain(c, g, gv::incidence(g, u, Ef{})); if constexpr (INDEX) drain(c, g, gv::incidence(g, id, Ef{})); if constexpr (INDEX) drain(c, g, gv::basic_incidence(g, id, Ef{})); })
    OP("incidence, owning value function", true, { VD; ID; drain(c, g, gv::incidence(g, u, FatEf{})); if constexpr (INDEX) drain(c, g, gv::basic_incidence(g, id, FatEf{})); if constexpr (INDEX) drain(c, g, g | ad::incidence(id, FatEf{})); })
    OP("neighbors", true, { VD; ID; drain(c, g, gv::neighbors(g, u)); if constexpr (INDEX) drain(c, g, gv::neighbors(g, id)); if constexpr (INDEX) drain(c, g, gv::basic_neighbors(g, id)); })
    OP("neighbors, value function", true, { VD; ID; drain(c, g, gv::neighbors(g, u, Vf{})); if constexpr (INDEX) drain(c, g, gv::neighbors(g, id, Vf{})); if constexpr (INDEX) drain(c, g, gv::basic_neighbors(g, id, Vf{})); })
    OP("neighbors, owning value function", true, { VD; ID; drain(c, g, gv::neighbors(g, u, FatVf{})); if constexpr (INDEX) drain(c, g, gv::basic_neighbors(g, id, FatVf{})); if constexpr (INDEX) drain(c, g, g | ad::neighbors(id, FatVf{})); })
    OP("out_incidence, out_neighbors", true, { VD; ID; drain(c, g, gv::out_incidence(g, u, Ef{})); if constexpr (INDEX) drain(c, g, gv::basic_out_incidence(g, id)); drain(c, g, gv::out_neighbors(g, u, Vf{})); if constexpr (INDEX) drain(c, g, gv::basic_out_neighbors(g, id)); })
    OP("edgelist", false, { drain(c, g, gv::edgelist(g)); drain(c, g, gv::basic_edgelist(g)); })
    OP("edgelist, value function", false, { drain(c, g, gv::edgelist(g, Ef{})); drain(c, g, gv::basic_edgelist(g, Ef{})); })
    OP("edgelist, owning value function", false, { drain(c, g, gv::edgelist(g, FatEf{})); if constexpr (INDEX) drain(c, g, g | ad::edgelist(FatEf{})); })
    if constexpr (BIDIR) {
      OP("in_incidence, in_neighbors", true, { VD; ID; drain(c, g, gv::in_incidence(g, u)); if constexpr (INDEX) drain(c, g, gv::basic_in_incidence(g, id)); drain(c, g, gv::in_neighbors(g, u)); if constexpr (INDEX) drain(c, g, gv::basic_in_neighbors(g, id)); })
      OP("in_incidence, in_neighbors, owning value functions", true, { VD; ID; drain(c, g, gv::in_incidence(g, u, FatEf{})); if constexpr (INDEX) drain(c, g, gv::basic_in_incidence(g, id, FatEf{})); drain(c, g, gv::in_neighbors(g, u, FatVf{})); if constexpr (INDEX) drain(c, g, gv::basic_in_neighbors(g, id, FatVf{})); })
      OP("transposed", false, {
        auto tv = gv::transpose(g);
        for (auto v : gg::vertices(tv)) {
          dv(c, tv, v);
          for (auto&& e : gg::edges(tv, v))
            de(c, tv, e);
        }
      })
    }
  }
  if constexpr ((Sel & SearchViews) && INDEX) {
    using gv::cancel_search;
    OP("vertices_bfs", true, { VD; ID; drain(c, g, gv::vertices_bfs(g, id)); drain(c, g, gv::vertices_bfs(g, u)); })
    OP("vertices_bfs, value functions", true, { ID; drain(c, g, gv::vertices_bfs(g, id, Vf{})); drain(c, g, gv::vertices_bfs(g, id, FatVf{})); })
    OP("edges_bfs", true, { VD; ID; drain(c, g, gv::edges_bfs(g, id)); drain(c, g, gv::edges_bfs(g, u)); })
    OP("edges_bfs, value functions", true, { ID; drain(c, g, gv::edges_bfs(g, id, Ef{})); drain(c, g, gv::edges_bfs(g, id, FatEf{})); })
    OP("vertices_dfs", true, { VD; ID; drain(c, g, gv::vertices_dfs(g, id)); drain(c, g, gv::vertices_dfs(g, u)); })
    OP("vertices_dfs, value functions", true, { ID; drain(c, g, gv::vertices_dfs(g, id, Vf{})); drain(c, g, gv::vertices_dfs(g, id, FatVf{})); })
    OP("edges_dfs", true, { VD; ID; drain(c, g, gv::edges_dfs(g, id)); drain(c, g, gv::edges_dfs(g, u)); })
    OP("edges_dfs, value functions", true, { ID; drain(c, g, gv::edges_dfs(g, id, Ef{})); drain(c, g, gv::edges_dfs(g, id, FatEf{})); })
    OP("search views, cancelled", true, {
      ID;
      auto cut = [&](auto view) {
        int  n  = 0;
        auto it = view.begin();
        for (; it != view.end(); ++it) {
          item(c, g, *it);
          if (++n == 1) view.cancel(cancel_search::cancel_branch);
          if (n == 3) view.cancel(cancel_search::cancel_all);
        }
        c.h.add((uint64_t)view.num_visited());
      };
      cut(gv::vertices_bfs(g, id));
      cut(gv::edges_bfs(g, id));
      cut(gv::vertices_dfs(g, id));
      cut(gv::edges_dfs(g, id));
    })
    if constexpr (!R::undir) { // every edge of an undirected graph lies on a cycle
      OP("topological views", false, { drain(c, g, gv::vertices_topological_sort(g)); drain(c, g, gv::edges_topological_sort(g)); })
      OP("topological views, value functions", false, { drain(c, g, gv::vertices_topological_sort(g, Vf{})); drain(c, g, gv::edges_topological_sort(g, Ef{})); })
      OP("topological views, owning value functions", false, { drain(c, g, gv::vertices_topological_sort(g, FatVf{})); drain(c, g, gv::edges_topological_sort(g, FatEf{})); })
      OP("safe topological views", false, {
        auto a = gv::vertices_topological_sort_safe(g, FatVf{});
        c.h.add((uint64_t)a.has_value());
        if (a) drain(c, g, *a);
        auto b = gv::edges_topological_sort_safe(g, FatEf{});
        c.h.add((uint64_t)b.has_value());
        if (b) drain(c, g, *b);
      })
    }
    if constexpr (BIDIR) {
      using acc = gv::in_edge_accessor;
      OP("search views over incoming edges", true, {
        ID;
        drain(c, g, gv::vertices_bfs<acc>(g, id));
        drain(c, g, gv::edges_bfs<acc>(g, id));
        drain(c, g, gv::vertices_dfs<acc>(g, id));
        drain(c, g, gv::edges_dfs<acc>(g, id));
      })
    }
  }
  if constexpr (INDEX) {
    using VId = gg::vertex_id_t<GR>;
    if constexpr (Sel & Algos) {
      OP("dijkstra_shortest_paths", true, {
        std::vector<int>    d(gg::num_vertices(g), std::numeric_limits<int>::max());
        std::vector<size_t> p(gg::num_vertices(g));
        for (size_t i = 0; i < p.size(); ++i) p[i] = i;
        Vis v{&c};
        gg::dijkstra_shortest_paths(g, (VId)c.s, d, p, Wf{}, v, Less{}, Plus{});
        c.h.range(d).range(p);
      })
      OP("dijkstra_shortest_paths, several sources", false, {
        std::vector<int>    d(gg::num_vertices(g), std::numeric_limits<int>::max());
        std::vector<size_t> p(gg::num_vertices(g));
        std::vector<VId>    s;
        for (size_t i = 0; i < p.size(); ++i) p[i] = i, s.push_back((VId)i);
        gg::dijkstra_shortest_paths(g, s, d, p, Wf{}, Vis{&c});
        c.h.range(d).range(p);
      })
      OP("dijkstra_shortest_distances", true, {
        std::vector<int> d(gg::num_vertices(g), std::numeric_limits<int>::max());
        gg::dijkstra_shortest_distances(g, (VId)c.s, d, Wf{});
        c.h.range(d);
        gg::init_shortest_paths(d);
        gg::dijkstra_shortest_distances(g, (VId)c.s, d);
        c.h.range(d);
      })
      OP("bellman_ford_shortest_paths", true, {
        std::vector<int>    d(gg::num_vertices(g), std::numeric_limits<int>::max());
        std::vector<size_t> p(gg::num_vertices(g));
        for (size_t i = 0; i < p.size(); ++i) p[i] = i;
        auto wf = [](const auto& g, const auto& e) { return Wf{}(g, e) - 2; }; // negative ones as well
        auto r  = gg::bellman_ford_shortest_paths(g, (VId)c.s, d, p, wf, Vis{&c});
        c.h.range(d).range(p).add((uint64_t)r.has_value());
        if (r) gg::find_negative_cycle(g, p, r, Out<VId>{&c.h});
      })
      OP("bellman_ford_shortest_distances", true, {
        std::vector<int> d(gg::num_vertices(g), std::numeric_limits<int>::max());
        auto r = gg::bellman_ford_shortest_distances(g, (VId)c.s, d, Wf{});
        c.h.range(d).add((uint64_t)r.has_value());
      })
      OP("breadth_first_search", true, {
        gg::breadth_first_search(g, (VId)c.s, Vis{&c});
        std::vector<VId> s{(VId)c.s, (VId)0};
        gg::breadth_first_search(g, s, Vis{&c});
      })
      OP("depth_first_search", true, { gg::depth_first_search(g, (VId)c.s, Vis{&c}); })
      if constexpr (!R::undir)
        OP("topological_sort", true, {
          c.h.add((uint64_t)gg::topological_sort(g, Out<VId>{&c.h}));
          c.h.add((uint64_t)gg::topological_sort(g, (VId)c.s, Out<VId>{&c.h}));
          std::vector<VId> s{(VId)c.s, (VId)0};
          c.h.add((uint64_t)gg::topological_sort(g, s, Out<VId>{&c.h}));
        })
    }
    if constexpr (Sel & Algos2) {
      OP("connected_components", false, {
        std::vector<uint32_t> k(gg::num_vertices(g));
        c.h.add((uint64_t)gg::connected_components(g, k)).range(k);
      })
      OP("kosaraju", false, {
        std::vector<uint32_t> k(gg::num_vertices(g));
        gg::kosaraju(g, g, k);
        c.h.range(k);
        if constexpr (BIDIR) {
          gg::kosaraju(g, k);
          c.h.range(k);
        }
      })
      OP("afforest", false, {
        std::vector<uint32_t> k(gg::num_vertices(g));
        gg::afforest(g, k);
        c.h.range(k);
        gg::afforest(g, g, k, 1);
        c.h.range(k);
      })
      OP("articulation_points", false, { gg::articulation_points(g, Out<VId>{&c.h}); })
      OP("biconnected_components", false, {
        std::vector<std::vector<VId>> k;
        gg::biconnected_components(g, k);
        for (auto& x : k) c.h.range(x);
      })
      OP("jaccard_coefficient", false, {
        gg::jaccard_coefficient(g, [&](auto&& a, auto&& b, auto&& e, double x) {
          flt::tick();
          add_id(c.h, a), add_id(c.h, b);
          de(c, g, e);
          c.h.add((uint64_t)(x * 1e6));
        });
      })
      OP("label_propagation", false, {
        std::vector<int> l(gg::num_vertices(g));
        for (size_t i = 0; i < l.size(); ++i) l[i] = (int)i;
        Rng rng;
        gg::label_propagation(g, l, rng, 3);
        c.h.range(l);
        for (size_t i = 0; i < l.size(); ++i) l[i] = i ? -1 : 0;
        gg::label_propagation(g, l, -1, rng, 3);
        c.h.range(l);
      })
      OP("maximal_independent_set", true, { c.h.add((uint64_t)gg::maximal_independent_set(g, Out<VId>{&c.h}, (VId)c.s)); })
      OP("prim", true, {
        std::vector<VId> p(gg::num_vertices(g));
        std::vector<int> w(gg::num_vertices(g));
        c.h.add((uint64_t)gg::prim(g, p, w, Less{}, std::numeric_limits<int>::max(), [](const auto& g, const auto& e) { return Wf{}(g, e); }, (VId)c.s));
        c.h.range(p).range(w);
      })
      OP("kruskal of its edges", false, {
        using Rec = gg::copyable_edge_t<VId, int>;
        std::vector<Rec> es, t;
        for (auto&& x : gv::edgelist(g, Wf{})) es.push_back({(VId)x.source_id, (VId)x.target_id, x.value});
        auto [w, k] = gg::kruskal(es, t, Less{});
        c.h.add((uint64_t)w).add((uint64_t)k);
        for (auto& x : t) c.h.add((uint64_t)x.source_id).add((uint64_t)x.target_id).add((uint64_t)x.value);
        t.clear();
        gg::inplace_kruskal(es, t, Less{});
        for (auto& x : t) c.h.add((uint64_t)x.source_id).add((uint64_t)x.target_id).add((uint64_t)x.value);
      })
      if constexpr (requires(GR& g) { gg::triangle_count(g); })
        OP("triangle_count", false, { c.h.add((uint64_t)gg::triangle_count(g)); })
    }
  }
#undef OP
#undef ID
#undef VD
  return r;
}
} // namespace cat

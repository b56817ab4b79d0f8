// comp.hpp - models of compressed graphs and the comparison of a graph with its model.
#pragma once
#include "dynall.hpp"
#include <forward_list>
#include <graph/container/compressed_graph.hpp>
#include <list>
using namespace da;

namespace {
template <class T>
struct cargs;
template <class EV_, class VV_, class GV_, class VId_, class EI_>
struct cargs<compressed_graph<EV_, VV_, GV_, VId_, EI_, std::allocator<VId_>>> {
  using EV  = EV_;
  using VV  = VV_;
  using GV  = GV_;
  using VId = VId_;
  using EI  = EI_;
};
struct CM { // what the graph should hold
  std::vector<int> vv;
  EL               e;
  int              gv = 0;
  std::vector<int> parts; // partition starts (empty: a single partition)
  uint64_t         hash() const {
    mc::Hash h;
    h.range(vv).add(gv);
    for (auto& x : e)
      h.add(x.u * 1000 + x.v).add(x.w);
    return h.range(parts).h;
  }
  std::string str() const {
    std::ostringstream os;
    os << "n=" << vv.size() << "[";
    for (auto x : vv)
      os << " " << x;
    os << " ] e=" << da::show(e) << " gv=" << gv << " parts";
    for (auto p : parts)
      os << " " << p;
    return os.str();
  }
  void grow(size_t n) {
    if (vv.size() < n) vv.resize(n, 0);
  }
};
template <class G>
using Ed = graph::copyable_edge_t<typename cargs<G>::VId, typename cargs<G>::EV>;
template <class G>
using Vx = graph::copyable_vertex_t<typename cargs<G>::VId, typename cargs<G>::VV>;
template <class G>
Ed<G> ed(const E3& e) {
  using VId = typename cargs<G>::VId;
  if constexpr (Void<typename cargs<G>::EV>)
    return Ed<G>{(VId)e.u, (VId)e.v};
  else
    return Ed<G>{(VId)e.u, (VId)e.v, typename cargs<G>::EV(e.w)};
}
using VL = std::vector<std::pair<int, int>>;
template <class G>
Vx<G> vx(const std::pair<int, int>& p) {
  using VId = typename cargs<G>::VId;
  if constexpr (Void<typename cargs<G>::VV>)
    return Vx<G>{(VId)p.first};
  else
    return Vx<G>{(VId)p.first, typename cargs<G>::VV(p.second)};
}
template <template <class...> class C, class G>
C<Ed<G>> eds(const EL& l) {
  C<Ed<G>> r;
  for (auto it = l.rbegin(); it != l.rend(); ++it)
    r.insert(r.begin(), ed<G>(*it));
  return r;
}
template <class G>
std::forward_list<Ed<G>> feds(const EL& l) {
  std::forward_list<Ed<G>> r;
  for (auto it = l.rbegin(); it != l.rend(); ++it)
    r.push_front(ed<G>(*it));
  return r;
}
template <class G>
std::vector<Vx<G>> vxs(const VL& l) {
  std::vector<Vx<G>> r;
  for (auto& x : l)
    r.push_back(vx<G>(x));
  return r;
}
std::string show(const VL& l) {
  std::string s = "[";
  for (auto& [i, x] : l)
    s += " " + std::to_string(i) + "/" + std::to_string(x);
  return s + " ]";
}

template <class GG>
void agree(GG& g, const CM& m, const char* where) {
  using G  = std::remove_const_t<GG>;
  using A  = cargs<G>;
  using EI = typename A::EI;
  mc::transition();
  const size_t n = m.vv.size();
#define AG(cond, what) MC_CHECK(cond, where << ": " << what << "; expected " << m.str())
  AG(g.size() == n && g.num_vertices() == n && graph::num_vertices(g) == n && g.empty() == (n == 0), "vertex count " << g.size());
  AG((size_t)graph::num_edges(g) == m.e.size() && graph::has_edges(g) == !m.e.empty() && has_edge(g) == !m.e.empty(), "edge count " << graph::num_edges(g));
  if constexpr (!Void<typename A::GV>) AG(val_of(g.graph_value()) == m.gv && val_of(graph::graph_value(g)) == m.gv, "graph value");
  {
    size_t i = 0;
    for (auto id : g.vertex_ids())
      AG((size_t)id == i++, "vertex_ids");
    AG(i == n, "vertex_ids length");
    i = 0;
    for (auto id : g.edge_ids()) {
      AG((size_t)id == i, "edge_ids");
      AG((int)g.target_id(id) == m.e[i].v, "target_id of edge " << i);
      if constexpr (!Void<typename A::EV>) AG(val_of(g.edge_value(id)) == m.e[i].w, "edge_value of edge " << i);
      ++i;
    }
    AG(i == m.e.size(), "edge_ids length");
  }
  size_t at = 0, nv = 0;
  for (auto&& u : graph::vertices(g)) {
    const size_t i = (size_t)graph::vertex_id(g, u);
    AG(i == nv, "vertices order");
    ++nv;
    if constexpr (!Void<typename A::VV>)
      AG(val_of(graph::vertex_value(g, u)) == m.vv[i] && val_of(g.vertex_value((typename A::VId)i)) == m.vv[i], "value of vertex " << i << " is " << val_of(graph::vertex_value(g, u)));
    AG((size_t)graph::vertex_id(g, *graph::find_vertex(g, (typename A::VId)i)) == i, "find_vertex");
    size_t k = at;
    for (auto&& uv : graph::edges(g, u)) {
      AG(k < m.e.size() && m.e[k].u == (int)i, "vertex " << i << " lists a foreign edge");
      AG((int)graph::target_id(g, uv) == m.e[k].v && (size_t)graph::source_id(g, uv) == i && (int)graph::vertex_id(g, graph::target(g, uv)) == m.e[k].v, "edge " << k);
      if constexpr (!Void<typename A::EV>) AG(val_of(graph::edge_value(g, uv)) == m.e[k].w, "value of edge " << k << " is " << val_of(graph::edge_value(g, uv)));
      ++k;
    }
    AG((size_t)graph::degree(g, u) == k - at && (size_t)graph::num_edges(g, u) == k - at && (size_t)graph::degree(g, (typename A::VId)i) == k - at &&
             (size_t)graph::num_edges(g, (typename A::VId)i) == k - at,
       "degree of " << i);
    size_t k2 = at;
    for (auto&& uv : graph::edges(g, (typename A::VId)i))
      AG(k2 < k && (int)graph::target_id(g, uv) == m.e[k2++].v, "edges by id of " << i);
    AG(k2 == k, "edges by id of " << i);
    k2 = at;
    for (auto id : g.edge_ids((typename A::VId)i))
      AG((size_t)id == k2++, "edge_ids of " << i);
    AG(k2 == k, "edge_ids of " << i);
    at = k;
  }
  AG(nv == n, "vertices listed");
  AG(at == m.e.size(), "edges listed " << at);
  // partitions
  const size_t np = std::max<size_t>(1, m.parts.size());
  AG((size_t)graph::num_partitions(g) == np, "num_partitions " << (size_t)graph::num_partitions(g));
  for (int p = -1; p <= (int)np + 1; ++p) {
    size_t b = 0, e = n;
    if (p < 0 || p >= (int)np)
      b = e = 0;
    else if (!m.parts.empty())
      b = m.parts[p], e = p + 1 < (int)np ? m.parts[p + 1] : n;
    size_t c = b;
    for (auto&& u : graph::vertices(g, p)) {
      AG(c < e && (size_t)graph::vertex_id(g, u) == c, "vertices of partition " << p << " lists " << graph::vertex_id(g, u));
      AG((int)graph::partition_id(g, u) == p, "partition_id of " << c << " is " << (int)graph::partition_id(g, u) << " not " << p);
      ++c;
    }
    AG(c == e, "vertices of partition " << p);
    AG((size_t)std::ranges::distance(graph::vertices(g, p)) == e - b, "vertices(g, pid) of " << p);
    if (p >= 0) AG((size_t)std::ranges::distance(graph::vertices(g, (size_t)p)) == e - b, "vertices of partition " << p);
  }
#undef AG
  mc::state(m.hash());
  (void)sizeof(EI);
}
template <class G>
void both(G& g, const CM& m, const char* where) {
  agree(g, m, where);
  agree(std::as_const(g), m, where);
}

} // namespace

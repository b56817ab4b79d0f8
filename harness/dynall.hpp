// dynall.hpp - all 27 vertex/edge container combinations of dynamic_graph with arbitrary value and id types.
#pragma once
#include "tok.hpp"
#include <deque>
#include <graph/container/dynamic_graph.hpp>
#include <graph/graph.hpp>
#include <string>
#define TRAITS_ALL(X)                                                                                                  \
  X(vov) X(vod) X(vofl) X(vol) X(vos) X(vous) X(vom) X(voum) X(dov) X(dod) X(dofl) X(dol) X(dos) X(dous) X(mov) X(mod) \
  X(mofl) X(mol) X(mos) X(mous) X(mom) X(uov) X(uod) X(uofl) X(uol) X(uos) X(uous)
#include <graph/container/traits/dod_graph_traits.hpp>
#include <graph/container/traits/dofl_graph_traits.hpp>
#include <graph/container/traits/dol_graph_traits.hpp>
#include <graph/container/traits/dos_graph_traits.hpp>
#include <graph/container/traits/dous_graph_traits.hpp>
#include <graph/container/traits/dov_graph_traits.hpp>
#include <graph/container/traits/mod_graph_traits.hpp>
#include <graph/container/traits/mofl_graph_traits.hpp>
#include <graph/container/traits/mol_graph_traits.hpp>
#include <graph/container/traits/mom_graph_traits.hpp>
#include <graph/container/traits/mos_graph_traits.hpp>
#include <graph/container/traits/mous_graph_traits.hpp>
#include <graph/container/traits/mov_graph_traits.hpp>
#include <graph/container/traits/uod_graph_traits.hpp>
#include <graph/container/traits/uofl_graph_traits.hpp>
#include <graph/container/traits/uol_graph_traits.hpp>
#include <graph/container/traits/uos_graph_traits.hpp>
#include <graph/container/traits/uous_graph_traits.hpp>
#include <graph/container/traits/uov_graph_traits.hpp>
#include <graph/container/traits/vod_graph_traits.hpp>
#include <graph/container/traits/vofl_graph_traits.hpp>
#include <graph/container/traits/vol_graph_traits.hpp>
#include <graph/container/traits/vom_graph_traits.hpp>
#include <graph/container/traits/vos_graph_traits.hpp>
#include <graph/container/traits/voum_graph_traits.hpp>
#include <graph/container/traits/vous_graph_traits.hpp>
#include <graph/container/traits/vov_graph_traits.hpp>

namespace da {
using namespace graph::container;

template <class VId>
VId mkid(int i) {
  if constexpr (std::is_same_v<VId, std::string>)
    return "vertex-with-a-name-beyond-small-strings-" + std::to_string(i);
  else
    return (VId)i;
}
template <class VId>
int unid(const VId& i) {
  if constexpr (std::is_same_v<VId, std::string>)
    return std::stoi(i.substr(i.rfind('-') + 1));
  else
    return (int)i;
}

enum Kind { Back, Front, Sorted, Unordered };
template <class C>
constexpr Kind kind_of() {
  if constexpr (requires { typename C::hasher; })
    return Unordered;
  else if constexpr (requires { typename C::key_type; })
    return Sorted;
  else if constexpr (requires(C c) { c.push_back(*c.begin()); })
    return Back;
  else
    return Front;
}
template <class C>
constexpr bool keyed = requires { typename C::key_type; };

// What a dynamic graph is supposed to hold.
struct ME {
  int  id, val;
  bool operator==(const ME&) const = default;
  auto operator<=>(const ME&) const = default;
};
struct MV {
  int             val = 0;
  std::vector<ME> out, in;
  bool            operator==(const MV&) const = default;
};
struct Model {
  std::map<int, MV> v;
  size_t            edges = 0; // edges loaded
  int               gv    = 0;
  bool              operator==(const Model&) const = default;
  uint64_t          hash() const {
    mc::Hash h;
    h.add(edges).add(gv);
    for (auto& [i, x] : v) {
      h.add(i * 31 + 7).add(x.val);
      for (auto& e : x.out)
        h.add(e.id).add(e.val);
      h.add(99);
      for (auto& e : x.in)
        h.add(e.id).add(e.val);
    }
    return h.h;
  }
  std::string str() const {
    std::ostringstream os;
    os << "m=" << edges << " gv=" << gv << " {";
    for (auto& [i, x] : v) {
      os << " " << i << "/" << x.val << ":";
      for (auto& e : x.out)
        os << ">" << e.id << "/" << e.val;
      for (auto& e : x.in)
        os << "<" << e.id << "/" << e.val;
    }
    os << " }";
    return os.str();
  }
};
template <class T>
struct gargs;
template <class EV_, class VV_, class GV_, class VId_, bool Bi_, class Tr_>
struct gargs<dynamic_graph<EV_, VV_, GV_, VId_, Bi_, Tr_>> {
  using EV = EV_;
  using VV = VV_;
  using GV = GV_;
  using VId = VId_;
  using Tr = Tr_;
  using OutC = typename Tr_::edges_type;
  static constexpr bool Bi = Bi_;
  static constexpr bool MAP = requires { typename Tr_::vertices_type::key_type; };
  static constexpr bool UMAP = requires { typename Tr_::vertices_type::hasher; };
  static constexpr Kind OK = kind_of<OutC>();
  static constexpr bool KEYED = keyed<OutC>;
};
inline void put(std::vector<ME>& c, Kind k, bool kd, ME e) {
  if (kd) {
    for (auto& x : c)
      if (x.id == e.id)
        return; // rejected as a duplicate
    c.push_back(e);
    std::sort(c.begin(), c.end());
  } else if (k == Front)
    c.insert(c.begin(), e);
  else
    c.push_back(e);
}
template <class G>
void model_edge(Model& m, int u, int v, int w) {
  using A = gargs<G>;
  m.v[u], m.v[v];
  put(m.v[u].out, A::OK, A::KEYED, {v, Void<typename A::EV> ? 0 : w});
  if constexpr (A::Bi)
    put(m.v[v].in, A::OK, A::KEYED, {u, Void<typename A::EV> ? 0 : w});
  ++m.edges;
}
// Read everything back through the public interface.
template <class GG>
Model read(GG& g, const char*& fault) {
  using G   = std::remove_const_t<GG>;
  using A   = gargs<G>;
  using VId = typename A::VId;
  Model m;
  m.edges = graph::num_edges(g);
  if constexpr (!Void<typename A::GV>) m.gv = val_of(g.graph_value());
  size_t nv = 0, ne = 0, ni = 0;
  int    prev = -1;
  for (auto&& u : graph::vertices(g)) {
    ++nv;
    const int i = unid<VId>((VId)graph::vertex_id(g, u));
    if (m.v.count(i)) fault = "a vertex is listed twice";
    if (!A::UMAP && i <= prev) fault = "vertices out of order";
    prev = i;
    MV& x = m.v[i];
    if constexpr (!Void<typename A::VV>) x.val = val_of(graph::vertex_value(g, u));
    for (auto&& uv : graph::edges(g, u)) {
      ++ne;
      ME e{unid<VId>((VId)graph::target_id(g, uv)), 0};
      if constexpr (!Void<typename A::EV>) e.val = val_of(graph::edge_value(g, uv));
      if (unid<VId>((VId)graph::source_id(g, uv)) != i) fault = "source_id of an outgoing edge";
      x.out.push_back(e);
    }
    if ((size_t)graph::degree(g, u) != x.out.size()) fault = "degree differs from the edges listed";
    if constexpr (A::Bi) {
      for (auto&& uv : graph::in_edges(g, u)) {
        ++ni;
        ME e{unid<VId>((VId)graph::source_id(g, uv)), 0};
        if constexpr (!Void<typename A::EV>) e.val = val_of(graph::edge_value(g, uv));
        if (unid<VId>((VId)graph::target_id(g, uv)) != i) fault = "target_id of an incoming edge";
        x.in.push_back(e);
      }
      if ((size_t)graph::in_degree(g, u) != x.in.size()) fault = "in_degree differs from the edges listed";
    }
    if (A::OK == Unordered)
      std::sort(x.out.begin(), x.out.end()), std::sort(x.in.begin(), x.in.end());
    auto f = graph::find_vertex(g, mkid<VId>(i));
    if (f == graph::vertices(g).end() || unid<VId>((VId)graph::vertex_id(g, *f)) != i) fault = "find_vertex of a listed vertex";
    if (!g.contains_vertex(mkid<VId>(i))) fault = "contains_vertex of a listed vertex";
    if (g.try_find_vertex(mkid<VId>(i)) == g.end()) fault = "try_find_vertex of a listed vertex";
    if ((size_t)std::ranges::distance(g.vertex_at(mkid<VId>(i)).edges()) != x.out.size()) fault = "vertex_at";
    if constexpr (!A::MAP)
      if ((size_t)std::ranges::distance(g[i].edges()) != x.out.size()) fault = "operator[]";
  }
  if (nv != (size_t)graph::num_vertices(g) || nv != (size_t)g.size() || nv != (size_t)std::ranges::distance(g)) fault = "vertex count differs from the vertices listed";
  if (A::Bi && ni != ne) fault = "incoming and outgoing edges differ in number";
  if (!A::KEYED && ne != m.edges) fault = "num_edges differs from the edges listed";
  if (graph::has_edges(g) != (ne > 0)) fault = "has_edges";
  for (int i = 0; i < 5; ++i)
    if (!m.v.count(i)) {
      if (g.contains_vertex(mkid<VId>(i)) || g.try_find_vertex(mkid<VId>(i)) != g.end() || graph::find_vertex(g, mkid<VId>(i)) != graph::vertices(g).end())
        fault = "a vertex that does not exist is found";
      try {
        (void)g.vertex_at(mkid<VId>(i));
        fault = "vertex_at of a vertex that does not exist does not throw";
      } catch (const std::out_of_range&) {
      }
    }
  return m;
}
template <class G>
void agree(G& g, const Model& want, const char* where) {
  mc::transition();
  const char* fault = nullptr;
  Model       got;
  std::string wh = where;
  {
    got = read(g, fault);
    MC_CHECK(!fault, where << ": " << fault << "; holds " << got.str() << " expected " << want.str());
    MC_CHECK(got == want, where << ": holds " << got.str() << " expected " << want.str());
    const G& cg = g;
    got         = read(cg, fault);
    MC_CHECK(!fault && got == want, where << " (const): " << (fault ? fault : "") << " holds " << got.str() << " expected " << want.str());
  }
  mc::state(want.hash());
}

// single-pass range over a vector
template <class T>
struct OnePass {
  const std::vector<T>* v;
  struct It {
    const std::vector<T>* v;
    size_t*               pos;
    using iterator_concept  = std::input_iterator_tag;
    using iterator_category = std::input_iterator_tag;
    using value_type        = T;
    using difference_type   = std::ptrdiff_t;
    using pointer           = const T*;
    using reference         = T;
    T   operator*() const { return (*v)[*pos]; }
    It& operator++() {
      ++*pos;
      return *this;
    }
    void operator++(int) { ++*pos; }
    bool operator==(std::default_sentinel_t) const { return *pos >= v->size(); }
  };
  mutable size_t          pos = 0;
  It                      begin() const { return {v, &pos}; }
  std::default_sentinel_t end() const { return {}; }
};

struct E3 {
  int u, v, w;
};
using EL = std::vector<E3>;
template <class G>
using CE = graph::copyable_edge_t<typename gargs<G>::VId, typename gargs<G>::EV>;
template <class G>
using CV = graph::copyable_vertex_t<typename gargs<G>::VId, typename gargs<G>::VV>;
template <class G>
CE<G> ce(const E3& e) {
  using VId = typename gargs<G>::VId;
  if constexpr (Void<typename gargs<G>::EV>)
    return CE<G>{mkid<VId>(e.u), mkid<VId>(e.v)};
  else
    return CE<G>{mkid<VId>(e.u), mkid<VId>(e.v), typename gargs<G>::EV(e.w)};
}
template <class G>
CV<G> cv(int id, int val) {
  using VId = typename gargs<G>::VId;
  if constexpr (Void<typename gargs<G>::VV>)
    return CV<G>{mkid<VId>(id)};
  else
    return CV<G>{mkid<VId>(id), typename gargs<G>::VV(val)};
}
template <class G>
std::vector<CE<G>> ces(const EL& l) {
  std::vector<CE<G>> r;
  for (auto& e : l)
    r.push_back(ce<G>(e));
  return r;
}
inline std::string show(const EL& l) {
  std::ostringstream os;
  os << "[";
  for (auto& e : l)
    os << " " << e.u << ">" << e.v << ":" << e.w;
  os << " ]";
  return os.str();
}
} // namespace da

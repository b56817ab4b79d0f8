// zoo.hpp - graph representations: plain standard containers of ids, pairs, tuples and structs, keyed and indexed, and the
// library's own containers, each built from an abstract graph with values.
#pragma once
#include "mapcont.hpp"
#include <array>
#include <deque>
#include <forward_list>
#include <graph/views/transpose.hpp>
#include <list>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace zoo {
using gen::EL;
struct Se { // a structured edge that knows its target
  int to, w;
  int target_id() const { return to; }
  bool operator==(const Se&) const = default;
};
// What the graph should look like: rows[u] holds (target, value), in storage order when that is defined.
struct Model {
  int                                           n = 0;
  std::vector<std::vector<std::pair<int, int>>> rows;
  size_t                                        edges = 0; // as the graph counts them
  bool has(int u, int v) const {
    for (auto& x : rows[(size_t)u])
      if (x.first == v) return true;
    return false;
  }
};
inline Model directed(const EL& el) {
  Model m;
  m.n = el.n;
  m.rows.resize((size_t)el.n);
  for (auto& x : el.e)
    m.rows[(size_t)x.u].push_back({x.v, x.w});
  m.edges = el.e.size();
  return m;
}
inline Model undirected(const EL& el) {
  Model m;
  m.n = el.n;
  m.rows.resize((size_t)el.n);
  for (auto& x : el.e) {
    m.rows[(size_t)x.u].push_back({x.v, x.w});
    if (x.u != x.v) m.rows[(size_t)x.v].push_back({x.u, x.w});
  }
  m.edges = el.e.size();
  return m;
}
inline bool parallel(const EL& el) {
  std::set<std::pair<int, int>> s;
  for (auto& x : el.e)
    if (!s.insert({x.u, x.v}).second) return true;
  return false;
}

// ids of keyed representations
template <class K>
K key(int i) {
  if constexpr (std::is_same_v<K, std::string>)
    return "the vertex with number " + std::to_string(i); // longer than the small-string buffer
  else
    return (K)(10 * i + 3);
}
// how one edge is stored
template <class Row, class Id>
void put(Row& r, const Id& t, int w) {
  using V = typename Row::value_type;
  auto mk = [&] {
    if constexpr (std::is_same_v<V, Id> || std::is_integral_v<V>)
      return V(t);
    else if constexpr (std::is_same_v<V, Se>)
      return Se{(int)t, w};
    else if constexpr (requires(V v) { v.to; v.w; })
      return V{(int)t, w};
    else if constexpr (std::tuple_size_v<V> == 1)
      return V(t);
    else if constexpr (std::tuple_size_v<V> == 2)
      return V(t, w);
    else
      return V(t, w, w + 1000);
  };
  if constexpr (requires { r.push_back(mk()); })
    r.push_back(mk());
  else if constexpr (requires { r.before_begin(); }) {
    auto it = r.before_begin();
    for (auto nx = r.begin(); nx != r.end(); ++nx)
      it = nx;
    r.insert_after(it, mk());
  } else
    r.insert(mk());
}
template <class V>
concept TupleLike = requires { std::tuple_size<V>::value; };

enum Vals { NoVal, IsId, Plain, Rest, Whole }; // what edge_value gives: nothing, the id, the value, the tuple of the rest, the record

// ---- standard containers, indexed
template <class G_>
struct Indexed {
  using G                         = G_;
  using Row                       = typename G::value_type;
  using E                         = typename Row::value_type;
  static constexpr bool keyed     = false;
  static constexpr bool lib       = false;
  static constexpr bool undir     = false;
  static constexpr bool uniq      = requires(Row r) { r.key_comp(); } || requires(Row r) { r.hash_function(); };
  static constexpr bool ordered   = !uniq || requires(Row r) { r.key_comp(); };
  static constexpr Vals vals      = std::is_integral_v<E> ? IsId : std::is_same_v<E, Se> ? Whole : [] {
    if constexpr (TupleLike<E>)
      return std::tuple_size_v<E> == 1 ? IsId : std::tuple_size_v<E> == 2 ? Plain : Rest;
    else
      return NoVal;
  }();
  static auto   id(int i) { return i; }
  static Model  model(const EL& el) { return directed(el); }
  static G      make(const EL& el) {
    G g;
    if constexpr (requires { g.resize((size_t)el.n); }) g.resize((size_t)el.n);
    for (auto& x : el.e)
      put(g[(size_t)x.u], x.v, x.w);
    return g;
  }
};
// ---- standard containers, keyed by vertex id
template <class G_>
struct Keyed {
  using G                       = G_;
  using Id                      = typename G::key_type;
  using Row                     = typename G::mapped_type;
  using E                       = typename Row::value_type;
  static constexpr bool keyed   = true;
  static constexpr bool lib     = false;
  static constexpr bool undir   = false;
  static constexpr bool uniq    = requires(Row r) { r.key_comp(); } || requires(Row r) { r.hash_function(); };
  static constexpr bool ordered = !uniq || requires(Row r) { r.key_comp(); };
  static constexpr Vals vals    = std::is_same_v<E, Id> ? IsId : [] {
    if constexpr (TupleLike<E>)
      return std::tuple_size_v<E> == 1 ? IsId : std::tuple_size_v<E> == 2 ? Plain : Rest;
    else
      return NoVal;
  }();
  static Id    id(int i) { return key<Id>(i); }
  static Model model(const EL& el) { return directed(el); }
  static G     make(const EL& el) {
    G g;
    for (int i = el.n - 1; i >= 0; --i)
      g[id(i)];
    for (auto& x : el.e)
      put(g[id(x.u)], id(x.v), x.w);
    return g;
  }
};
// ---- vertices of the user's own
struct NoIn {};
template <class Row_, class In = NoIn>
struct OwnV {
  using Row = Row_;
  int  pad = 5;
  Row  out;
  In   in;
  auto&       edges() { return out; }
  const auto& edges() const { return out; }
  auto&       in_edges() requires(!std::is_same_v<In, NoIn>) { return in; }
  const auto& in_edges() const requires(!std::is_same_v<In, NoIn>) { return in; }
};
template <class Row, class Id>
constexpr Vals row_vals() {
  using E = typename Row::value_type;
  if constexpr (std::is_same_v<E, Id>)
    return IsId;
  else if constexpr (std::is_same_v<E, Se>)
    return Whole;
  else
    return std::tuple_size_v<E> == 1 ? IsId : std::tuple_size_v<E> == 2 ? Plain : Rest;
}
template <class V, class Id>
void put_both(V& u, const Id& uid, V& v, const Id& vid, int w) {
  put(u.out, vid, w);
  if constexpr (requires { v.in_edges(); }) put(v.in, uid, w);
}
template <class G_>
struct Own {
  using G                       = G_;
  using Row                     = typename G::value_type::Row;
  static constexpr bool keyed = false, lib = false, undir = false;
  static constexpr bool uniq    = requires(Row r) { r.key_comp(); } || requires(Row r) { r.hash_function(); };
  static constexpr bool ordered = !uniq || requires(Row r) { r.key_comp(); };
  static constexpr Vals vals    = row_vals<Row, int>();
  static int   id(int i) { return i; }
  static Model model(const EL& el) { return directed(el); }
  static G     make(const EL& el) {
    G g((size_t)el.n);
    for (auto& x : el.e)
      put_both(g[(size_t)x.u], x.u, g[(size_t)x.v], x.v, x.w);
    return g;
  }
};
template <class G_>
struct OwnKeyed {
  using G                       = G_;
  using Id                      = typename G::key_type;
  using Row                     = typename G::mapped_type::Row;
  static constexpr bool keyed = true, lib = false, undir = false;
  static constexpr bool uniq    = requires(Row r) { r.key_comp(); } || requires(Row r) { r.hash_function(); };
  static constexpr bool ordered = !uniq || requires(Row r) { r.key_comp(); };
  static constexpr Vals vals    = row_vals<Row, Id>();
  static Id    id(int i) { return key<Id>(i); }
  static Model model(const EL& el) { return directed(el); }
  static G     make(const EL& el) {
    G g;
    for (int i = el.n - 1; i >= 0; --i)
      g[id(i)];
    for (auto& x : el.e)
      put_both(g[id(x.u)], id(x.u), g[id(x.v)], id(x.v), x.w);
    return g;
  }
};
// ---- library containers
template <class G_, bool Uniq = false, bool Ordered = true>
struct Lib {
  using G                       = G_;
  static constexpr bool lib     = true;
  static constexpr bool undir   = cont::Ual<G>;
  static constexpr bool uniq    = Uniq;
  static constexpr bool ordered = Ordered;
  static constexpr bool keyed   = cont::Dyn<G> && !graph::adj_list::index_adjacency_list<G>;
  static constexpr bool novv    = cont::Dyn<G> || cont::Csr<G>;
  using Id                      = graph::vertex_id_t<G>;
  static constexpr Vals vals    = Plain;
  static auto id(int i) {
    if constexpr (keyed)
      return key<Id>(i);
    else
      return (Id)i;
  }
  static Model model(const EL& el) { return undir ? undirected(el) : directed(el); }
  static G     make(const EL& el) {
    if constexpr (undir) {
      G g(77);
      for (int i = 0; i < el.n; ++i)
        g.create_vertex(500 + i);
      for (auto& x : el.e)
        g.create_edge((Id)x.u, (Id)x.v, x.w);
      return g;
    } else if constexpr (cont::Csr<G>) {
      G       g;
      gen::EL s = gen::by_source(el);
      using CE  = graph::copyable_edge_t<Id, int>;
      using CV  = graph::copyable_vertex_t<Id, int>;
      std::vector<CE> es;
      for (auto& x : s.e)
        es.push_back(CE{(Id)x.u, (Id)x.v, x.w});
      std::vector<CV> vs;
      for (int i = 0; i < el.n; ++i)
        vs.push_back(CV{(Id)i, 500 + i});
      g.load(es, vs);
      g.graph_value() = 77;
      return g;
    } else {
      G g;
      using CE = graph::copyable_edge_t<Id, int>;
      using CV = graph::copyable_vertex_t<Id, int>;
      std::vector<CV> vs;
      for (int i = 0; i < el.n; ++i)
        vs.push_back(CV{id(i), 500 + i});
      if constexpr (keyed)
        g.load_vertices(vs, std::identity{});
      else
        g.load_vertices(vs, std::identity{}, (size_t)el.n);
      std::vector<CE> es;
      for (auto& x : el.e)
        es.push_back(CE{id(x.u), id(x.v), x.w});
      g.load_edges(es, std::identity{});
      g.graph_value() = 77;
      return g;
    }
  }
};
#define ZDYN(X)                                                                                                        \
  template <class VId = uint32_t, bool Bi = false>                                                                     \
  using X##_z = graph::container::dynamic_graph<int, int, int, VId, Bi, graph::container::X##_graph_traits<int, int, int, VId, Bi>>;
ZDYN(vov)
ZDYN(vol)
ZDYN(vofl)
ZDYN(vod)
ZDYN(vos)
ZDYN(vous)
ZDYN(vom)
ZDYN(voum)
ZDYN(dov)
ZDYN(dol)
ZDYN(mov)
ZDYN(mol)
ZDYN(mofl)
ZDYN(mos)
ZDYN(mous)
ZDYN(uov)
ZDYN(uos)
#undef ZDYN
template <class VId = uint32_t, class EI = uint32_t>
using csr_z = graph::container::compressed_graph<int, int, int, VId, EI>;
template <class VId = uint32_t>
using ual_z = graph::container::undirected_adjacency_list<int, int, int, VId>;

// every small graph: all digraphs with loops, all edge sequences (parallel edges); each edge has its own value
template <class F>
void graphs(bool thorough, F&& f) {
  auto num = [&](EL g) {
    for (size_t i = 0; i < g.e.size(); ++i)
      g.e[i].w = 100 + (int)i;
    f(g);
  };
  for (int n = 0; n <= 3; ++n)
    gen::digraphs(n, true, num);
  gen::edge_sequences(2, 3, num);
  gen::edge_sequences(3, thorough ? 4 : 3, num);
  if (thorough) gen::digraphs(4, false, num);
}
} // namespace zoo

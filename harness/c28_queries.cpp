// C28: the query interface answers alike on every graph representation.
// C29: descriptors identify elements.
#include "zoo.hpp"
#if PART == 9
#include "c28_dispatch.hpp"
#endif
using namespace zoo;
using mc::Suite;
namespace gg = graph;

namespace {
template <class T>
std::string show(const T& t) {
  if constexpr (std::is_same_v<T, std::string>)
    return t;
  else
    return std::to_string((long long)t);
}
// the same id in every integral type that holds it
template <class Id, class F>
void forms(const Id& id, F&& f) {
  f(id);
  if constexpr (std::is_integral_v<Id>) {
    f((size_t)id);
    f((int)id);
    f((uint8_t)id);
    f((short)id);
    f((int64_t)id);
  }
}
template <class Id, class F>
void few_forms(const Id& id, F&& f) {
  f(id);
  if constexpr (std::is_integral_v<Id>) {
    f((uint8_t)id);
    if (mc::thorough()) f((int64_t)id);
  }
}
template <class R, class E>
int value_of(E&& v) { // what edge_value gives, as a number
  if constexpr (R::vals == Rest) {
    MC_CHECK(std::get<0>(v) + 1000 == std::get<1>(v), "the rest of an edge record is not from one record");
    return std::get<0>(v);
  } else if constexpr (R::vals == Whole)
    return v.w;
  else
    return v;
}

#if WHAT == 28
template <class R, class G>
void queries(G& g, const Model& m) {
  using T        = std::remove_const_t<G>;
  using VD       = gg::vertex_t<G>;
  const int  n   = m.n;
  constexpr bool valued = R::vals == Plain || R::vals == Rest || R::vals == Whole;
  // vertices
  std::vector<VD> vd((size_t)n);
  std::vector<int> order; // position in iteration -> abstract vertex
  {
    auto vs = gg::vertices(g);
    MC_CHECK((int)std::ranges::distance(vs) == n && (int)vs.size() == n, "vertices(g) holds " << std::ranges::distance(vs) << " of " << n);
    std::vector<char> got((size_t)n);
    for (auto u : vs) {
      auto&& id = gg::vertex_id(g, u);
      int    at = -1;
      for (int i = 0; i < n; ++i)
        if (R::id(i) == id) at = i;
      MC_CHECK(at >= 0 && !got[(size_t)at], "vertices(g) gives an unknown or repeated id " << show(id));
      if (at < 0) return;
      got[(size_t)at] = 1;
      vd[(size_t)at]  = u;
      order.push_back(at);
    }
    if constexpr (!R::keyed)
      for (int i = 0; i < n; ++i)
        MC_CHECK(order[(size_t)i] == i, "vertices(g) out of order");
    MC_CHECK((long)gg::num_vertices(g) == n, "num_vertices(g) = " << (long)gg::num_vertices(g));
    MC_CHECK((long)gg::num_partitions(g) == 1, "num_partitions(g)");
    MC_CHECK((long)gg::num_vertices(g, 0) == n, "num_vertices(g, 0) = " << (long)gg::num_vertices(g, 0));
    auto v0 = gg::vertices(g, 0);
    size_t k = 0;
    for (auto u : v0) {
      MC_CHECK(k < order.size() && u == vd[(size_t)order[k]], "vertices(g, 0) is not vertices(g)");
      ++k;
    }
    MC_CHECK((int)k == n, "vertices(g, 0) holds " << k);
    if constexpr (!cont::Csr<T>) { // a compressed graph knows its partitions; others have one
      MC_CHECK((long)gg::num_vertices(g, 1) == 0, "num_vertices(g, 1) = " << (long)gg::num_vertices(g, 1));
      auto v1 = gg::vertices(g, 1);
      MC_CHECK(v1.begin() == v1.end(), "vertices(g, 1) is not empty");
    }
  }
  auto id_at = [&](int i) { return R::id(i); };
  auto index_of = [&](auto&& id) {
    for (int i = 0; i < n; ++i)
      if (R::id(i) == id) return i;
    return -1;
  };
  for (int i = 0; i < n; ++i) {
    forms(id_at(i), [&](auto&& id) {
      auto it = gg::find_vertex(g, id);
      MC_CHECK(it != std::ranges::end(gg::vertices(g)) && *it == vd[(size_t)i], "find_vertex(g, " << show(id) << ") is another vertex");
    });
    MC_CHECK((long)gg::partition_id(g, vd[(size_t)i]) == 0, "partition_id");
  }
  if constexpr (R::keyed) // a key that is not there
    MC_CHECK(gg::find_vertex(g, R::id(n + 5)) == std::ranges::end(gg::vertices(g)), "find_vertex of an absent id is a vertex");
  // edges
  size_t total = 0;
  using ED     = gg::edge_t<G>;
  std::vector<std::vector<ED>>                  eds((size_t)n);
  std::vector<std::vector<std::pair<int, int>>> list((size_t)n); // as listed: target, value
  for (int i = 0; i < n; ++i) {
    const VD u   = vd[(size_t)i];
    auto&    row = m.rows[(size_t)i];
    auto     es  = gg::edges(g, u);
    for (auto&& e : es) {
      eds[(size_t)i].push_back(e);
      auto&& tid = gg::target_id(g, e);
      auto&& sid = gg::source_id(g, e);
      int    t   = index_of(tid);
      MC_CHECK(t >= 0, "target_id gives an unknown id " << show(tid));
      MC_CHECK(sid == id_at(i), "source_id of an edge of " << i << " is " << show(sid));
      MC_CHECK(gg::source(g, e) == u, "source of an edge is another vertex than the one it was listed for");
      if (t < 0) return;
      MC_CHECK(gg::target(g, e) == vd[(size_t)t], "target of an edge is not the vertex with its target id");
      int w = -1;
      if constexpr (R::vals != NoVal) {
        if constexpr (R::vals == IsId) {
          if constexpr (requires { std::get<0>(gg::edge_value(g, e)); })
            MC_CHECK(index_of(std::get<0>(gg::edge_value(g, e))) == t, "edge_value of an edge without value is not its id");
          else
            MC_CHECK(index_of(gg::edge_value(g, e)) == t, "edge_value of an edge without value is not its id");
        } else
          w = value_of<R>(gg::edge_value(g, e));
      }
      list[(size_t)i].push_back({t, w});
    }
    auto want = row;
    if constexpr (!valued)
      for (auto& x : want)
        x.second = -1;
    auto got = list[(size_t)i];
    if constexpr (!R::ordered || R::undir || R::uniq || R::lib) {
      std::sort(want.begin(), want.end());
      std::sort(got.begin(), got.end());
    }
    MC_CHECK(got == want, "edges of vertex " << i << " are not the stored ones");
    if constexpr (R::uniq && R::ordered)
      for (size_t k = 1; k < eds[(size_t)i].size(); ++k)
        MC_CHECK(!(gg::target_id(g, eds[(size_t)i][k]) < gg::target_id(g, eds[(size_t)i][k - 1])), "edges out of order");
    const long d = (long)row.size();
    total += row.size();
    auto same = [&](auto&& r, const char* what) {
      size_t k = 0;
      for (auto&& e : r) {
        MC_CHECK(k < eds[(size_t)i].size() && e == eds[(size_t)i][k], what << " lists another edge than edges(g, u)");
        ++k;
      }
      MC_CHECK(k == eds[(size_t)i].size() && (size_t)std::ranges::size(r) == k, what << " has another length than edges(g, u)");
    };
    same(gg::edges(g, u), "edges(g, u), repeated,");
    same(gg::out_edges(g, u), "out_edges(g, u)");
    forms(id_at(i), [&](auto&& id) {
      same(gg::edges(g, id), "edges(g, uid)");
      same(gg::out_edges(g, id), "out_edges(g, uid)");
      MC_CHECK((long)gg::degree(g, id) == d, "degree(g, uid) = " << (long)gg::degree(g, id) << " of " << d);
      MC_CHECK((long)gg::out_degree(g, id) == d, "out_degree(g, uid) = " << (long)gg::out_degree(g, id) << " of " << d);
      MC_CHECK((long)gg::num_edges(g, id) == d, "num_edges(g, uid) = " << (long)gg::num_edges(g, id) << " of " << d);
    });
    MC_CHECK((long)gg::degree(g, u) == d, "degree(g, u) = " << (long)gg::degree(g, u) << " of " << d);
    MC_CHECK((long)gg::out_degree(g, u) == d, "out_degree(g, u) = " << (long)gg::out_degree(g, u) << " of " << d);
    MC_CHECK((long)gg::num_edges(g, u) == d, "num_edges(g, u) = " << (long)gg::num_edges(g, u) << " of " << d);
    mc::transition(1 + row.size());
  }
  MC_CHECK((size_t)gg::num_edges(g) == (R::undir ? m.edges : total), "num_edges(g) = " << (size_t)gg::num_edges(g) << " of " << (R::undir ? m.edges : total));
  MC_CHECK(gg::has_edges(g) == (total > 0), "has_edges(g) = " << gg::has_edges(g));
  // membership and search, for every pair
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) {
      const VD   u = vd[(size_t)i], v = vd[(size_t)j];
      const bool is = m.has(i, j);
      // first listed edge from i to j
      const ED*  first = nullptr;
      for (size_t k = 0; k < eds[(size_t)i].size(); ++k)
        if (!first && list[(size_t)i][k].first == j) first = &eds[(size_t)i][k];
      auto found = [&](auto&& e, const char* what) {
        if (is)
          MC_CHECK(first && e == *first, what << " of " << i << "," << j << " is not the first edge from " << i << " to " << j);
        else
          for (auto& x : eds[(size_t)i])
            MC_CHECK(!(e == x), what << " of the absent edge " << i << "," << j << " is an edge of " << i);
      };
      MC_CHECK(gg::contains_edge(g, u, v) == is, "contains_edge(g, u, v) for " << i << "," << j);
      MC_CHECK(gg::contains_out_edge(g, u, v) == is, "contains_out_edge(g, u, v) for " << i << "," << j);
      found(gg::find_vertex_edge(g, u, v), "find_vertex_edge(g, u, v)");
      found(gg::find_out_edge(g, u, v), "find_out_edge(g, u, v)");
      forms(id_at(j), [&](auto&& vid) {
        found(gg::find_vertex_edge(g, u, vid), "find_vertex_edge(g, u, vid)");
        few_forms(id_at(i), [&](auto&& uid) {
          MC_CHECK(gg::contains_edge(g, uid, vid) == is, "contains_edge(g, uid, vid) for " << i << "," << j);
          MC_CHECK(gg::contains_out_edge(g, uid, vid) == is, "contains_out_edge(g, uid, vid) for " << i << "," << j);
          found(gg::find_vertex_edge(g, uid, vid), "find_vertex_edge(g, uid, vid)");
        });
      });
      // incoming: an edge to i from j
      const bool in = m.has(j, i);
      if constexpr (!R::undir) { // an undirected list answers through its own incoming edges: C21
        MC_CHECK(gg::contains_in_edge(g, u, v) == m.has(j, i), "contains_in_edge(g, u, v) for " << i << "," << j);
        forms(id_at(i), [&](auto&& uid) {
          MC_CHECK(gg::contains_in_edge(g, uid, id_at(j)) == in, "contains_in_edge(g, uid, vid) for " << i << "," << j);
          if (in) {
            auto&& e = gg::find_in_edge(g, uid, id_at(j));
            MC_CHECK(gg::source_id(g, e) == id_at(j) && gg::target_id(g, e) == id_at(i), "find_in_edge(g, uid, vid) for " << i << "," << j);
          }
        });
        if (in) {
          auto&& e = gg::find_in_edge(g, u, v);
          MC_CHECK(gg::source_id(g, e) == id_at(j) && gg::target_id(g, e) == id_at(i), "find_in_edge(g, u, v) for " << i << "," << j);
          auto&& f = gg::find_in_edge(g, u, id_at(j));
          MC_CHECK(gg::source_id(g, f) == id_at(j) && gg::target_id(g, f) == id_at(i), "find_in_edge(g, u, vid) for " << i << "," << j);
        }
      }
    }
  // an id that no vertex has
  for (int i = 0; i < n; ++i) {
    MC_CHECK(!gg::contains_edge(g, id_at(i), R::id(n + 5)), "contains_edge to an absent id");
    auto e = gg::find_vertex_edge(g, vd[(size_t)i], R::id(n + 5));
    for (auto& x : eds[(size_t)i])
      MC_CHECK(!(e == x), "find_vertex_edge to an absent id is an edge");
  }
  // incoming edges, where they are kept
  if constexpr (!R::undir && requires { gg::in_edges(g, vd[0]); })
    for (int i = 0; i < n; ++i) {
      std::vector<int> want, got, byid;
      std::vector<std::pair<int, int>> wval, gval;
      for (int j = 0; j < n; ++j)
        for (auto& x : m.rows[(size_t)j])
          if (x.first == i) want.push_back(j), wval.push_back({j, x.second});
      for (auto&& e : gg::in_edges(g, vd[(size_t)i])) {
        got.push_back(index_of(gg::source_id(g, e)));
        if constexpr (valued)
          gval.push_back({got.back(), value_of<R>(gg::edge_value(g, e))});
        else if constexpr (R::vals == IsId)
          MC_CHECK(gg::edge_value(g, e) == gg::source_id(g, e), "the record of an incoming edge is not the id of its source");
        MC_CHECK(gg::target_id(g, e) == id_at(i), "target_id of an incoming edge");
        MC_CHECK(gg::target(g, e) == vd[(size_t)i], "target of an incoming edge");
        MC_CHECK(got.back() >= 0 && gg::source(g, e) == vd[(size_t)got.back()], "source of an incoming edge");
      }
      std::sort(got.begin(), got.end());
      MC_CHECK(got == want, "in_edges(g, u) of " << i << " are not the edges that lead there");
      if constexpr (valued) {
        std::sort(gval.begin(), gval.end());
        std::sort(wval.begin(), wval.end());
        MC_CHECK(gval == wval, "the values of the edges that lead to " << i << " are others");
      }
      for (auto&& e : gg::in_edges(g, id_at(i)))
        byid.push_back(index_of(gg::source_id(g, e)));
      std::sort(byid.begin(), byid.end());
      MC_CHECK(byid == want, "in_edges(g, uid) of " << i << " are not the edges that lead there");
      MC_CHECK((size_t)gg::in_degree(g, vd[(size_t)i]) == want.size(), "in_degree(g, u)");
      MC_CHECK((size_t)gg::in_degree(g, id_at(i)) == want.size(), "in_degree(g, uid)");
    }
  // values
  if constexpr (R::lib) {
    MC_CHECK(gg::graph_value(g) == 77, "graph_value(g)");
    for (int i = 0; i < n; ++i)
      MC_CHECK(gg::vertex_value(g, vd[(size_t)i]) == 500 + i, "vertex_value(g, u) of " << i << " is " << gg::vertex_value(g, vd[(size_t)i]));
  } else
    for (int i = 0; i < n; ++i) { // the vertex is its row
      if constexpr (R::keyed)
        MC_CHECK(&gg::vertex_value(g, vd[(size_t)i]) == &g.at(R::id(i)), "vertex_value(g, u) is another row");
      else
        MC_CHECK(&gg::vertex_value(g, vd[(size_t)i]) == &g[(size_t)i], "vertex_value(g, u) is another row");
    }
  // writing through the value of one edge changes that edge only
  if constexpr (!std::is_const_v<G> && R::vals == Plain && std::is_lvalue_reference_v<decltype(gg::edge_value(g, eds[0][0]))>)
    if constexpr (!std::is_const_v<std::remove_reference_t<decltype(gg::edge_value(g, eds[0][0]))>>)
      for (int i = 0; i < n; ++i)
        for (size_t k = 0; k < eds[(size_t)i].size(); ++k) {
          const int old                       = gg::edge_value(g, eds[(size_t)i][k]);
          gg::edge_value(g, eds[(size_t)i][k]) = 4242;
          for (int a = 0; a < n; ++a)
            for (size_t b = 0; b < eds[(size_t)a].size(); ++b) {
              const bool me = (a == i && b == k) || (R::undir && list[(size_t)a][b].second == list[(size_t)i][k].second);
              MC_CHECK(gg::edge_value(std::as_const(g), eds[(size_t)a][b]) == (me ? 4242 : list[(size_t)a][b].second), "writing the value of one edge changes another");
            }
          gg::edge_value(g, eds[(size_t)i][k]) = old;
        }
  if constexpr (!std::is_const_v<G> && R::lib)
    for (int i = 0; i < n; ++i) {
      gg::vertex_value(g, vd[(size_t)i]) = 9;
      for (int a = 0; a < n; ++a)
        MC_CHECK(gg::vertex_value(std::as_const(g), vd[(size_t)a]) == (a == i ? 9 : 500 + a), "writing the value of one vertex changes another");
      gg::vertex_value(g, vd[(size_t)i]) = 500 + i;
    }
}
template <class R>
void probe(const EL& el, Suite& S) {
  auto        m = R::model(el);
  auto        g = R::make(el);
  queries<R>(std::as_const(g), m);
  mc::trace();
  if constexpr (!requires { typename R::const_only; }) {
    queries<R>(g, m);
    queries<R>(std::as_const(g), m);
    mc::trace();
    mc::trace();
  }
  mc::outcome(mc::Hash().add(S.name_hash).add(el.key()).h);
}
#endif

#if WHAT == 29
// Every descriptor of one kind that can be had for the elements, with the element it stands for.
template <class D>
struct Held {
  D   d;
  int el; // element number
  const char* how;
};
template <class D>
void relations(const std::vector<Held<D>>& hs, const char* kind) {
  constexpr bool ordered = requires(const D& a, const D& b) { a < b; };
  for (auto& a : hs)
    for (auto& b : hs) {
      const bool same = a.el == b.el;
      MC_CHECK((a.d == b.d) == same, kind << " descriptors of " << (same ? "one element" : "different elements") << " are " << (same ? "unequal" : "equal") << ": " << a.how << " / " << b.how);
      MC_CHECK((a.d != b.d) == !same, kind << ": != is not the opposite of ==");
      if (same) MC_CHECK(std::hash<D>{}(a.d) == std::hash<D>{}(b.d), kind << " descriptors of one element hash differently: " << a.how << " / " << b.how);
      if constexpr (ordered) {
        const int lt = a.d < b.d, gt = a.d > b.d;
        MC_CHECK(lt + gt + (int)same == 1, kind << " order: not exactly one of <, ==, >");
        MC_CHECK((a.d <= b.d) == (lt || same) && (a.d >= b.d) == (gt || same), kind << " order: <= and >= disagree with < and ==");
        MC_CHECK(((a.d <=> b.d) < 0) == (bool)lt && ((a.d <=> b.d) == 0) == same, kind << " order: <=> disagrees");
      }
    }
  if constexpr (ordered) {
    // one descriptor per element is enough for transitivity
    std::vector<const Held<D>*> one;
    std::set<int>               seen;
    for (auto& a : hs)
      if (seen.insert(a.el).second) one.push_back(&a);
    if (one.size() <= 6)
      for (auto a : one)
        for (auto b : one)
          for (auto c : one)
            if (a->d < b->d && b->d < c->d) MC_CHECK(a->d < c->d, kind << " order is not transitive");
  }
  std::unordered_set<D> us;
  std::set<int>         els;
  for (auto& a : hs) {
    us.insert(a.d);
    els.insert(a.el);
  }
  MC_CHECK(us.size() == els.size(), "a hash set of " << kind << " descriptors holds " << us.size() << " of " << els.size());
  for (auto& a : hs)
    MC_CHECK(us.count(a.d) == 1, "a hash set misses a " << kind << " descriptor");
}
template <class G>
concept Plain_ = !cont::Dyn<G> && !cont::Csr<G> && !cont::Ual<G>;

template <class R, class G>
void descriptors(G& g, const Model& m) {
  using T     = std::remove_const_t<G>;
  using VD    = gg::vertex_t<G>;
  using ED    = gg::edge_t<G>;
  const int n = m.n;
  auto index_of = [&](auto&& id) {
    for (int i = 0; i < n; ++i)
      if (R::id(i) == id) return i;
    return -1;
  };
  std::vector<Held<VD>> vh;
  std::vector<VD>       vd((size_t)n);
  std::vector<int>      order;
  {
    auto vs = gg::vertices(g);
    for (auto u : vs) {
      int i = index_of(gg::vertex_id(g, u));
      MC_CHECK(i >= 0, "an unknown vertex");
      if (i < 0) return;
      vh.push_back({u, i, "iteration"});
      vd[(size_t)i] = u;
      order.push_back(i);
    }
    // a second pass by iterators, postfix and copies
    auto it = vs.begin();
    for (size_t k = 0; it != vs.end(); ++k) {
      auto keep = it;
      auto old  = it++;
      MC_CHECK(k < order.size() && old == keep && keep != it, "vertex iterator: it++");
      if (k >= order.size()) return;
      vh.push_back({*old, order[k], "iterator"});
    }
    MC_CHECK(it == vs.end() && it == gg::vertices(g).end() && vs.cend() == vs.end() && vs.cbegin() == vs.begin(), "end of the vertices");
    // the descriptor itself can be incremented
    if (n) {
      VD d = *vs.begin(), e = d;
      for (size_t k = 0; k < order.size(); ++k) {
        vh.push_back({d, order[k], "incremented"});
        vh.push_back({VD(d.value()), order[k], "rebuilt"});
        if (k + 1 < order.size()) {
          VD o = d++;
          MC_CHECK(o == e, "d++ gives the old descriptor");
          VD& r = ++e;
          MC_CHECK(&r == &e && e == d, "++d gives the new descriptor");
        }
      }
      MC_CHECK(vs.front() == vd[(size_t)order[0]] && !vs.empty() && (bool)vs, "front of the vertices");
    } else
      MC_CHECK(vs.empty() && !(bool)vs, "empty vertices");
    MC_CHECK((int)vs.size() == n, "size of the vertices");
    decltype(vs) none;
    MC_CHECK(none.begin() == none.end() && none.size() == 0, "a default vertex view is not empty");
  }
  for (int i = 0; i < n; ++i) {
    vh.push_back({*gg::find_vertex(g, R::id(i)), i, "find_vertex"});
    // resolution
    const VD u = vd[(size_t)i];
    MC_CHECK(u.vertex_id() == R::id(i) || R::lib, "vertex_id() of a descriptor");
    if constexpr (Plain_<T>) {
      auto& cg = std::as_const(g);
      if constexpr (R::keyed) {
        MC_CHECK((const void*)&u.underlying_value(g) == (const void*)&*g.find(R::id(i)) && (const void*)&u.underlying_value(cg) == (const void*)&*g.find(R::id(i)), "underlying_value of a vertex is another element");
        MC_CHECK((const void*)&u.inner_value(g) == (const void*)&g.at(R::id(i)) && (const void*)&u.inner_value(cg) == (const void*)&g.at(R::id(i)), "inner_value of a vertex is another element");
      } else {
        MC_CHECK((const void*)&u.underlying_value(g) == (const void*)&g[(size_t)i] && (const void*)&u.underlying_value(cg) == (const void*)&g[(size_t)i], "underlying_value of a vertex is another element");
        MC_CHECK((const void*)&u.inner_value(g) == (const void*)&g[(size_t)i] && (const void*)&u.inner_value(cg) == (const void*)&g[(size_t)i], "inner_value of a vertex is another element");
      }
    }
  }
  // edges: numbered by (vertex, position)
  std::vector<Held<ED>> eh;
  std::vector<std::vector<int>> num((size_t)n);
  int                   next = 0;
  for (int i = 0; i < n; ++i) {
    const VD u  = vd[(size_t)i];
    auto     es = gg::edges(g, u);
    std::vector<ED> row;
    for (auto e : es) {
      eh.push_back({e, next, "iteration"});
      vh.push_back({e.source(), i, "source of an edge"});
      vh.push_back({gg::source(g, e), i, "source(g, e)"});
      int t = index_of(gg::target_id(g, e));
      MC_CHECK(t >= 0, "an unknown target");
      if (t < 0) return;
      vh.push_back({gg::target(g, e), t, "target(g, e)"});
      num[(size_t)i].push_back(next++);
      row.push_back(e);
    }
    auto&  nu = num[(size_t)i];
    size_t k  = 0;
    for (auto it = es.begin(); it != es.end(); ++k) {
      auto keep = it;
      auto old  = it++;
      MC_CHECK(k < nu.size() && old == keep && keep != it, "edge iterator: it++");
      if (k >= nu.size()) return;
      eh.push_back({*old, nu[k], "iterator"});
    }
    k = 0;
    for (auto e : gg::edges(g, R::id(i)))
      if (k < nu.size()) eh.push_back({e, nu[k++], "edges by id"});
    MC_CHECK(es.size() == nu.size() && es.source() == u && es.empty() == nu.empty(), "size and source of the edges of a vertex");
    MC_CHECK(es.cbegin() == es.begin() && es.cend() == es.end(), "cbegin and cend of the edges");
    if (!nu.empty()) {
      ED d = *es.begin(), e = d;
      MC_CHECK(es.front() == d, "front of the edges");
      for (k = 0; k < nu.size(); ++k) {
        eh.push_back({d, nu[k], "incremented"});
        eh.push_back({ED(d.value(), u), nu[k], "rebuilt"});
        if (k + 1 < nu.size()) {
          ED o = d++;
          MC_CHECK(o == e, "d++ gives the old descriptor");
          ED& r = ++e;
          MC_CHECK(&r == &e && e == d, "++d gives the new descriptor");
        }
      }
    }
    for (int j = 0; j < n; ++j) {
      int at = -1;
      for (k = 0; k < row.size(); ++k)
        if (at < 0 && index_of(gg::target_id(g, row[k])) == j) at = (int)k;
      if (at >= 0) {
        eh.push_back({gg::find_vertex_edge(g, u, vd[(size_t)j]), nu[(size_t)at], "find_vertex_edge"});
        eh.push_back({gg::find_vertex_edge(g, R::id(i), R::id(j)), nu[(size_t)at], "find_vertex_edge by id"});
      }
    }
    // resolution
    if constexpr (Plain_<T>) {
      auto& vdat  = u.underlying_value(g);
      auto& cvdat = u.underlying_value(std::as_const(g));
      auto& cont  = [&]() -> auto& {
        if constexpr (requires { u.inner_value(g).edges(); })
          return u.inner_value(g).edges();
        else
          return u.inner_value(g);
      }();
      k = 0;
      for (auto it = cont.begin(); it != cont.end(); ++it, ++k) {
        if (k >= row.size()) return;
        const void* at = (const void*)&*it;
        MC_CHECK((const void*)&row[k].underlying_value(vdat) == at && (const void*)&row[k].underlying_value(cvdat) == at, "underlying_value of an edge is another element");
        using E = std::remove_cvref_t<decltype(*it)>;
        if constexpr (R::vals == IsId) {
          const void* in = at;
          if constexpr (TupleLike<E>) in = (const void*)&std::get<0>(*it);
          MC_CHECK((const void*)&row[k].inner_value(vdat) == in && (const void*)&row[k].inner_value(cvdat) == in, "inner_value of an edge is another element");
        } else if constexpr (R::vals == Plain) {
          MC_CHECK((const void*)&row[k].inner_value(vdat) == (const void*)&std::get<1>(*it) && (const void*)&row[k].inner_value(cvdat) == (const void*)&std::get<1>(*it), "inner_value of an edge is another element");
        } else if constexpr (R::vals == Rest) {
          auto t = row[k].inner_value(vdat);
          auto c = row[k].inner_value(cvdat);
          MC_CHECK((const void*)&std::get<0>(t) == (const void*)&std::get<1>(*it) && (const void*)&std::get<1>(c) == (const void*)&std::get<2>(*it), "inner_value of an edge is another element");
        } else
          MC_CHECK((const void*)&row[k].inner_value(vdat) == at, "inner_value of an edge is another element");
      }
    } else if constexpr (R::lib) {
      for (k = 0; k < row.size(); ++k) // each resolves to a value of its own
        for (size_t l = 0; l < row.size(); ++l)
          if constexpr (std::is_lvalue_reference_v<decltype(gg::edge_value(g, row[k]))>)
            MC_CHECK((&gg::edge_value(g, row[k]) == &gg::edge_value(g, row[l])) == (k == l), "two edges resolve to one value, or one to two");
    }
  }
  relations(vh, "vertex");
  relations(eh, "edge");
  if constexpr (!R::undir && requires { gg::in_edges(g, vd[0]); }) {
    using ID = gg::in_edge_t<G>;
    std::vector<Held<ID>> ih;
    int                   k = 0;
    for (int i = 0; i < n; ++i) {
      const int k0 = k;
      for (auto e : gg::in_edges(g, vd[(size_t)i])) {
        ih.push_back({e, k++, "in_edges"});
        vh.push_back({gg::target(g, e), i, "target of an incoming edge"});
        int s = index_of(gg::source_id(g, e));
        if (s >= 0) vh.push_back({gg::source(g, e), s, "source of an incoming edge"});
      }
      k = k0;
      for (auto e : gg::in_edges(g, R::id(i)))
        ih.push_back({e, k++, "in_edges by id"});
    }
    relations(ih, "in-edge");
    relations(vh, "vertex");
  }
  mc::transition(vh.size() + eh.size());
}
template <class R>
void probe(const EL& el, Suite& S) {
  auto m = R::model(el);
  auto g = R::make(el);
  descriptors<R>(std::as_const(g), m);
  mc::trace();
  if constexpr (!requires { typename R::const_only; }) {
    descriptors<R>(g, m);
    mc::trace();
  }
  mc::outcome(mc::Hash().add(S.name_hash).add(el.key()).h);
}
#endif

template <class R>
void all(Suite& S) {
  zoo::graphs(mc::thorough(), [&](const EL& g) {
    if (S.stop()) return;
    if (R::uniq && parallel(g)) return;
    if constexpr (R::undir) {
      for (auto& x : g.e)
        if (x.u > x.v) return; // one direction of creation is as good as the other here: C26
    }
    S.run_case(
          mc::Hash().add(S.name_hash).add(g.key()).h, [&] { return g.str(); },
          [&] {
            probe<R>(g, S);
            if (g.m()) S.nontrivial();
            mc::state(mc::Hash().add(S.name_hash).add(g.key()).h);
          });
  });
}

using std::deque, std::forward_list, std::list, std::map, std::pair, std::set, std::string, std::tuple, std::unordered_map, std::unordered_set, std::vector;
#if PART == 1
MC_SUITE(vector_vector_int) { all<Indexed<vector<vector<int>>>>(S); }
MC_SUITE(vector_vector_u8) { all<Indexed<vector<vector<uint8_t>>>>(S); }
MC_SUITE(vector_vector_pair) { all<Indexed<vector<vector<pair<int, int>>>>>(S); }
MC_SUITE(vector_vector_tuple3) { all<Indexed<vector<vector<tuple<int, int, int>>>>>(S); }
MC_SUITE(vector_vector_struct) { all<Indexed<vector<vector<Se>>>>(S); }
MC_SUITE(vector_list_struct) { all<Indexed<vector<list<Se>>>>(S); }
#elif PART == 2
MC_SUITE(vector_list_pair) { all<Indexed<vector<list<pair<int, int>>>>>(S); }
MC_SUITE(deque_flist_tuple2) { all<Indexed<deque<forward_list<tuple<int, int>>>>>(S); }
MC_SUITE(vector_deque_tuple1) { all<Indexed<vector<deque<tuple<int>>>>>(S); }
MC_SUITE(deque_list_int) { all<Indexed<deque<list<int>>>>(S); }
MC_SUITE(vector_set_int) { all<Indexed<vector<set<int>>>>(S); }
MC_SUITE(vector_map) { all<Indexed<vector<map<int, int>>>>(S); }
MC_SUITE(vector_umap) { all<Indexed<vector<unordered_map<int, int>>>>(S); }
#elif PART == 3
MC_SUITE(map_vector_pair) { all<Keyed<map<int, vector<pair<int, int>>>>>(S); }
MC_SUITE(map_vector_int) { all<Keyed<map<int, vector<int>>>>(S); }
MC_SUITE(map_list_tuple3) { all<Keyed<map<long, list<tuple<long, int, int>>>>>(S); }
MC_SUITE(map_map) { all<Keyed<map<int, map<int, int>>>>(S); }
MC_SUITE(smap_vector_pair) { all<Keyed<map<string, vector<pair<string, int>>>>>(S); }
MC_SUITE(smap_vector) { all<Keyed<map<string, vector<string>>>>(S); }
#elif PART == 4
MC_SUITE(umap_vector_pair) { all<Keyed<unordered_map<int, vector<pair<int, int>>>>>(S); }
MC_SUITE(umap_list_int) { all<Keyed<unordered_map<unsigned, list<unsigned>>>>(S); }
MC_SUITE(sumap_list_pair) { all<Keyed<unordered_map<string, list<pair<string, int>>>>>(S); }
MC_SUITE(umap_umap) { all<Keyed<unordered_map<int, unordered_map<int, int>>>>(S); }
#elif PART == 5
MC_SUITE(vov) { all<Lib<vov_z<>>>(S); }
MC_SUITE(vol) { all<Lib<vol_z<uint8_t>>>(S); }
MC_SUITE(vofl) { all<Lib<vofl_z<>>>(S); }
MC_SUITE(vos) { all<Lib<vos_z<>, true>>(S); }
MC_SUITE(vous) { all<Lib<vous_z<>, true, false>>(S); }
#elif PART == 6
MC_SUITE(vom) { all<Lib<vom_z<>, true>>(S); }
MC_SUITE(voum) { all<Lib<voum_z<>, true, false>>(S); }
MC_SUITE(dov) { all<Lib<dov_z<int>>>(S); }
MC_SUITE(csr) { all<Lib<csr_z<>>>(S); }
MC_SUITE(csr_u8) { all<Lib<csr_z<uint8_t, uint8_t>>>(S); }
MC_SUITE(ual) { all<Lib<ual_z<>>>(S); }
MC_SUITE(ual_u8) { all<Lib<ual_z<uint8_t>>>(S); }
#elif PART == 7
MC_SUITE(mov) { all<Lib<mov_z<>>>(S); }
MC_SUITE(mol_string) { all<Lib<mol_z<string>>>(S); }
MC_SUITE(mos) { all<Lib<mos_z<>, true>>(S); }
MC_SUITE(uov) { all<Lib<uov_z<>, false, false>>(S); }
MC_SUITE(uos_string) { all<Lib<uos_z<string>, true>>(S); }
#elif PART == 10
// vertices that hold their edges behind a member function
struct Vm {
  std::vector<std::pair<int, int>> row;
  auto&       edges() { return row; }
  const auto& edges() const { return row; }
};
struct Vmem {
  using G                       = std::vector<Vm>;
  static constexpr bool keyed   = false, lib = false, undir = false, uniq = false, ordered = true;
  static constexpr Vals vals    = Plain;
  static int   id(int i) { return i; }
  static Model model(const EL& el) { return directed(el); }
  static G     make(const EL& el) {
    G g((size_t)el.n);
    for (auto& x : el.e)
      g[(size_t)x.u].row.push_back({x.v, x.w});
    return g;
  }
};
MC_SUITE(vertex_member) { all<Vmem>(S); }
// targets stored in a type that cannot hold every vertex id: an id is an edge's target only if it is that id
template <class G>
void narrow(Suite& S, int n) {
  // every set of up to two edges from vertex 0, and one elsewhere, over targets at the edges of the narrow type
  const std::vector<int> ts{0, 1, 2, 44, 127};
  for (size_t a = 0; a <= ts.size(); ++a)
    for (size_t b = a; b <= ts.size(); ++b) {
      if (S.stop()) return;
      S.run_case(
            a * 100 + b, [&] { return "targets #" + std::to_string(a) + ", #" + std::to_string(b); },
            [&] {
              G g;
              if constexpr (requires { g.resize(1); }) g.resize((size_t)n);
              else
                for (int i = 0; i < n; ++i)
                  g[i];
              std::set<int> has;
              auto          add = [&](size_t k) {
                if (k == ts.size() || !has.insert(ts[k]).second) return;
                using T = std::remove_cvref_t<decltype(*g[0].begin())>;
                if constexpr (std::is_integral_v<T>)
                  put(g[0], (T)ts[k], 7);
                else
                  put(g[0], (std::remove_const_t<std::tuple_element_t<0, T>>)ts[k], 7);
              };
              add(a);
              add(b);
              auto u  = *gg::find_vertex(g, 0);
              auto es = gg::edges(g, u);
              for (int v = 0; v < n; ++v) {
                const bool is = has.count(v) > 0;
                auto       d  = *gg::find_vertex(g, v);
                MC_CHECK(gg::contains_edge(g, u, d) == is, "contains_edge(g, u, v) of " << v);
                auto one = [&](auto vid) {
                  MC_CHECK(gg::contains_edge(g, 0, vid) == is, "contains_edge(g, uid, vid) of " << v);
                  MC_CHECK(gg::contains_edge(g, (size_t)0, vid) == is, "contains_edge(g, uid, vid) of " << v);
                  MC_CHECK(gg::contains_in_edge(g, vid, 0) == is, "contains_in_edge(g, uid, vid) of " << v);
                  auto e = gg::find_vertex_edge(g, u, vid), f = gg::find_vertex_edge(g, 0, vid);
                  bool el = false, fl = false;
                  for (auto&& x : es) {
                    el = el || (x == e && (int)gg::target_id(g, x) == v);
                    fl = fl || (x == f && (int)gg::target_id(g, x) == v);
                  }
                  MC_CHECK(el == is && fl == is, "find_vertex_edge of " << v);
                };
                one(v);
                one((size_t)v);
                one((unsigned)v);
                one((short)v);
                MC_CHECK(gg::contains_in_edge(g, d, u) == is, "contains_in_edge(g, u, v) of " << v);
                mc::transition();
              }
              S.nontrivial();
              mc::trace();
              mc::state(mc::Hash().add(S.name_hash).add(a).add(b).h);
              mc::outcome(mc::Hash().add(S.name_hash).add(a).add(b).h);
            });
    }
}
MC_SUITE(narrow_u8) { narrow<vector<vector<uint8_t>>>(S, 300); }
MC_SUITE(narrow_i8) { narrow<vector<list<int8_t>>>(S, 300); }
MC_SUITE(narrow_pair_u8) { narrow<deque<vector<pair<uint8_t, int>>>>(S, 300); }
MC_SUITE(narrow_map_u8) { narrow<vector<map<uint8_t, int>>>(S, 300); }
MC_SUITE(narrow_keyed_u8) { narrow<map<int, vector<uint8_t>>>(S, 300); }
MC_SUITE(narrow_int) { narrow<vector<vector<int>>>(S, 300); }
#elif PART == 11
// vertices of the user's own: they hand out their edges, and perhaps the incoming ones, by member functions
MC_SUITE(own_vector_int) { all<Own<std::vector<OwnV<vector<int>>>>>(S); }
MC_SUITE(own_list_int) { all<Own<std::vector<OwnV<list<int>>>>>(S); }
MC_SUITE(own_list_pair) { all<Own<std::deque<OwnV<list<pair<int, int>>>>>>(S); }
MC_SUITE(own_vector_tuple3) { all<Own<std::vector<OwnV<vector<tuple<int, int, int>>>>>>(S); }
MC_SUITE(own_list_tuple3) { all<Own<std::vector<OwnV<list<tuple<int, int, int>>>>>>(S); }
MC_SUITE(own_vector_tuple2) { all<Own<std::vector<OwnV<vector<tuple<int, int>>>>>>(S); }
MC_SUITE(own_flist_tuple1) { all<Own<std::vector<OwnV<forward_list<tuple<int>>>>>>(S); }
MC_SUITE(own_vector_struct) { all<Own<std::vector<OwnV<vector<Se>>>>>(S); }
MC_SUITE(own_list_struct) { all<Own<std::vector<OwnV<list<Se>>>>>(S); }
MC_SUITE(own_set) { all<Own<std::vector<OwnV<set<int>>>>>(S); }
MC_SUITE(own_map) { all<Own<std::vector<OwnV<map<int, int>>>>>(S); }
#elif PART == 12
MC_SUITE(own_keyed_vector_pair) { all<OwnKeyed<std::map<int, OwnV<vector<pair<int, int>>>>>>(S); }
MC_SUITE(own_keyed_list_int) { all<OwnKeyed<std::map<long, OwnV<list<long>>>>>(S); }
MC_SUITE(own_keyed_string) { all<OwnKeyed<std::unordered_map<string, OwnV<list<pair<string, int>>>>>>(S); }
MC_SUITE(own_keyed_tuple3) { all<OwnKeyed<std::unordered_map<int, OwnV<vector<tuple<int, int, int>>>>>>(S); }
MC_SUITE(own_keyed_tuple1) { all<OwnKeyed<std::map<int, OwnV<vector<tuple<int>>>>>>(S); }
MC_SUITE(map_vector_tuple2) { all<Keyed<map<int, vector<tuple<int, int>>>>>(S); }
MC_SUITE(map_flist_tuple1) { all<Keyed<map<int, forward_list<tuple<int>>>>>(S); }
MC_SUITE(umap_list_tuple2) { all<Keyed<unordered_map<int, list<tuple<int, int>>>>>(S); }
MC_SUITE(map_vector_tuple3) { all<Keyed<map<int, vector<tuple<int, int, int>>>>>(S); }
#elif PART == 13
MC_SUITE(own_bi_vector_int) { all<Own<std::vector<OwnV<vector<int>, vector<int>>>>>(S); }
MC_SUITE(own_bi_list_pair) { all<Own<std::vector<OwnV<list<pair<int, int>>, list<pair<int, int>>>>>>(S); }
MC_SUITE(own_bi_tuple3) { all<Own<std::deque<OwnV<vector<tuple<int, int, int>>, vector<tuple<int, int, int>>>>>>(S); }
MC_SUITE(own_bi_tuple2) { all<Own<std::vector<OwnV<list<tuple<int, int>>, list<tuple<int, int>>>>>>(S); }
MC_SUITE(own_bi_struct) { all<Own<std::vector<OwnV<vector<Se>, vector<Se>>>>>(S); }
MC_SUITE(own_bi_map) { all<Own<std::vector<OwnV<map<int, int>, map<int, int>>>>>(S); }
MC_SUITE(own_bi_keyed) { all<OwnKeyed<std::map<int, OwnV<vector<pair<int, int>>, vector<pair<int, int>>>>>>(S); }
MC_SUITE(own_bi_keyed_string) { all<OwnKeyed<std::unordered_map<string, OwnV<list<string>, list<string>>>>>(S); }
#elif PART == 9
MC_SUITE(dispatch) {
  [&]<int... I>(std::integer_sequence<int, I...>) {
    (([&] {
       constexpr auto F = (dis::Fn)I;
       if constexpr (F != dis::VERTS && F != dis::HAS) dis::form<F>(S);
     }()),
     ...);
  }(std::make_integer_sequence<int, (int)dis::LAST>{});
  S.run_case(
        1, [] { return std::string("vertices(g)"); },
        [&] {
          dis::own<dis::Own, 1, false>(1, 2);
          dis::own<dis::Own, 2, false>(1, 2);
          dis::own<dis::Own, 3, false>(1, 2);
          dis::own<dis::Own, 1, true>(1, 2);
          dis::own<dis::Own, 2, true>(1, 2);
          dis::own<dis::Own, 3, true>(1, 2);
          dis::own<dis::OwnRaw, 1, false>(3, 3);
          dis::own<dis::OwnRaw, 2, false>(3, 3);
          dis::own<dis::OwnRaw, 3, false>(3, 3);
          dis::own<dis::OwnRaw, 1, true>(3, 3);
          dis::own<dis::OwnRaw, 2, true>(3, 3);
          dis::own<dis::OwnRaw, 3, true>(3, 3);
          S.nontrivial();
          mc::state(1);
        });
}
#elif PART == 8
MC_SUITE(vov_bi) { all<Lib<cont::vov_bi<int, uint32_t, int, int>>>(S); }
MC_SUITE(vol_bi) { all<Lib<cont::vol_bi<int, uint32_t, int, int>>>(S); }
MC_SUITE(vov_std_bi) { all<Lib<vov_z<uint32_t, true>>>(S); }
MC_SUITE(vos_std_bi) { all<Lib<vos_z<uint32_t, true>, true>>(S); }
MC_SUITE(mov_std_bi) { all<Lib<mov_z<uint32_t, true>>>(S); }
MC_SUITE(uov_string_bi) { all<Lib<uov_z<string, true>, false, false>>(S); }
#endif
} // namespace

// ualmodel.hpp - models of undirected adjacency lists and the comparison of a graph with its model.
#pragma once
#include "tok.hpp"
#include <algorithm>
#include <deque>
#include <forward_list>
#include <graph/container/undirected_adjacency_list.hpp>
#include <graph/graph.hpp>
#include <list>
#include <optional>
#include <ranges>
#include <set>

namespace um {
using namespace da;
using graph::container::undirected_adjacency_list;
template <class T>
struct uargs;
template <class EV_, class VV_, class GV_, class VId_, template <class, class> class C_, class Al_>
struct uargs<undirected_adjacency_list<EV_, VV_, GV_, VId_, C_, Al_>> {
  using EV  = EV_;
  using VV  = VV_;
  using GV  = GV_;
  using VId = VId_;
};
struct Edge {
  int s, t, w;
};
struct Model {
  std::vector<int>              vv;
  std::vector<std::vector<int>> adj; // edge numbers
  std::map<int, Edge>           e;
  int                           gv = 0, next = 0;

  int  n() const { return (int)vv.size(); }
  void add_v(int x) {
    vv.push_back(x);
    adj.emplace_back();
  }
  int add_e(int u, int v, int w) {
    const int k = next++;
    e[k]        = {u, v, w};
    adj[u].push_back(k);
    if (v != u) adj[v].push_back(k);
    return k;
  }
  void erase(int k) {
    const Edge x = e.at(k);
    std::erase(adj[x.s], k);
    std::erase(adj[x.t], k);
    e.erase(k);
  }
  void clear_v(int u) {
    while (!adj[u].empty())
      erase(adj[u].front());
  }
  void clear() {
    vv.clear();
    adj.clear();
    e.clear();
  }
  void resize(int k, int x) {
    for (int i = k; i < n(); ++i)
      clear_v(i);
    vv.resize(k, x);
    adj.resize(k);
  }
  int other(int k, int u) const {
    const Edge& x = e.at(k);
    return x.s == u ? x.t : x.s;
  }
  std::vector<int> whole() const { // edges in the order of the whole-graph iteration
    std::vector<int> r;
    for (auto& a : adj)
      r.insert(r.end(), a.begin(), a.end());
    return r;
  }
  // two states that differ in the numbering and labels of edges only are the same state
  std::string key() const {
    std::ostringstream os;
    std::map<int, int> num;
    for (int x : vv)
      os << x << ",";
    os << gv;
    for (auto& a : adj) {
      os << "|";
      for (int k : a) {
        auto [it, neu] = num.try_emplace(k, (int)num.size());
        os << it->second;
        if (neu) os << "(" << e.at(k).s << ">" << e.at(k).t << ")";
      }
    }
    return os.str();
  }
  std::string str() const {
    std::ostringstream os;
    os << "{v:";
    for (int x : vv)
      os << " " << x;
    os << " gv:" << gv;
    for (int u = 0; u < n(); ++u) {
      os << " " << u << ":";
      for (int k : adj[u])
        os << "[" << e.at(k).s << ">" << e.at(k).t << "=" << e.at(k).w << "]";
    }
    os << "}";
    return os.str();
  }
};

template <class E>
int ev_of(const E& x) {
  if constexpr (requires { x.value(); })
    return val_of(x.value());
  else
    return 0;
}

// Everything the public interface says about g has to be what m says.
template <class G>
void check_const(const G& g, const Model& m, const char* when) {
  using A           = uargs<G>;
  using VId         = typename A::VId;
  constexpr bool EV = !Void<typename A::EV>, VV = !Void<typename A::VV>, GV = !Void<typename A::GV>;
  const size_t   n  = m.vv.size();
  MC_CHECK(g.num_vertices() == n && g.vertices().size() == n, when << ": num_vertices " << g.num_vertices() << " expected " << n);
  MC_CHECK(graph::num_vertices(g) == n, when << ": num_vertices(g)");
  MC_CHECK((size_t)(g.end() - g.begin()) == n && (size_t)(g.cend() - g.cbegin()) == n, when << ": begin/end");
  MC_CHECK(g.num_edges() == m.e.size(), when << ": num_edges() " << g.num_edges() << " expected " << m.e.size());
  MC_CHECK(graph::num_edges(g) == m.e.size(), when << ": num_edges(g)");
  MC_CHECK(g.has_edge() == !m.e.empty(), when << ": has_edge()");
  MC_CHECK(graph::has_edges(g) == !m.e.empty(), when << ": has_edges(g)");
  if constexpr (GV) MC_CHECK(val_of(g.graph_value()) == m.gv, when << ": graph value");
  std::vector<int> whole;
  for (size_t ui = 0; ui < n; ++ui) {
    const VId   uid  = (VId)ui;
    const auto& u    = g.vertices()[ui];
    const auto& want = m.adj[ui];
    whole.insert(whole.end(), want.begin(), want.end());
    if constexpr (VV) MC_CHECK(val_of(u.value()) == m.vv[ui], when << ": value of vertex " << ui);
    MC_CHECK(g.try_find_vertex(uid) == g.begin() + (std::ptrdiff_t)ui, when << ": try_find_vertex");
    MC_CHECK(u.num_edges() == want.size(), when << ": degree of " << ui << " is " << u.num_edges() << " expected " << want.size());
    MC_CHECK(u.neighbors_size(g) == want.size(), when << ": neighbors_size of " << ui);
    auto r = u.edges(g, uid);
    MC_CHECK(r.size() == want.size(), when << ": size of edges of " << ui);
    size_t i = 0;
    for (auto it = r.begin(); it != r.end(); ++it, ++i) {
      MC_CHECK(i < want.size(), when << ": vertex " << ui << " lists more edges than it has");
      const Edge& x = m.e.at(want[i]);
      const int   o = m.other(want[i], (int)ui);
      MC_CHECK((int)it->list_owner_id() == x.s && (int)it->list_target_id() == x.t,
               when << ": edge " << i << " of " << ui << " is " << +it->list_owner_id() << ">" << +it->list_target_id());
      if constexpr (EV) MC_CHECK(ev_of(*it) == x.w, when << ": value of edge " << i << " of " << ui);
      MC_CHECK((int)it.source_id() == (int)ui && &it.graph() == &g, when << ": iterator's source or graph");
      MC_CHECK((int)it->other_vertex_id(g, uid) == o && (int)it->other_vertex_id(g, g.begin() + (std::ptrdiff_t)ui) == o,
               when << ": other_vertex_id");
      MC_CHECK(it->other_vertex(g, uid) == g.begin() + o && it->other_vertex(g, g.begin() + (std::ptrdiff_t)ui) == g.begin() + o,
               when << ": other_vertex");
      MC_CHECK(it->source(g) == g.begin() + x.s && it->target(g) == g.begin() + x.t, when << ": source/target of an edge");
    }
    MC_CHECK(i == want.size(), when << ": vertex " << ui << " lists " << i << " edges of " << want.size());
    for (auto it = u.edges_cend(g, uid); it != u.edges_cbegin(g, uid);) { // backwards
      auto old = it--;
      MC_CHECK(old != it, when << ": -- did not move");
      --i;
      MC_CHECK(&*it == &*std::next(r.begin(), (std::ptrdiff_t)i), when << ": backward edge " << i << " of " << ui);
      MC_CHECK(i > 0 || it == u.edges_begin(g, uid), when << ": backward start");
      if (i == 0) break;
    }
    MC_CHECK(i == 0, when << ": backward listing of " << ui << " is short by " << i);
    if (!want.empty()) {
      MC_CHECK(&u.edge_front(g) == &*r.begin() && &u.edge_back(g) == &*std::next(r.begin(), (std::ptrdiff_t)want.size() - 1),
               when << ": edge_front/edge_back of " << ui);
    }
    auto nr = u.neighbors(g, uid);
    MC_CHECK(nr.size() == want.size(), when << ": size of neighbors of " << ui);
    auto ni = nr.begin();
    for (; ni != nr.end(); ni++, ++i) {
      MC_CHECK(i < want.size(), when << ": too many neighbors of " << ui);
      const int o = m.other(want[i], (int)ui);
      MC_CHECK((int)ni.other_vertex_id() == o && ni.other_vertex() == g.begin() + o && &*ni == &g.vertices()[(size_t)o],
               when << ": neighbor " << i << " of " << ui);
    }
    MC_CHECK(i == want.size(), when << ": neighbors of " << ui);
    for (; i > 0; --i) {
      --ni;
      MC_CHECK((int)ni.other_vertex_id() == m.other(want[i - 1], (int)ui), when << ": backward neighbor of " << ui);
    }
    { // the same walks with the postfix operators
      auto it = r.begin();
      for (i = 0; i < want.size(); ++i) {
        auto old = it++;
        MC_CHECK(old != it && &*old == &*std::next(r.begin(), (std::ptrdiff_t)i), when << ": it++ at edge " << i << " of " << ui);
      }
      MC_CHECK(it == r.end(), when << ": it++ does not reach the end of the edges of " << ui);
      auto nj = nr.begin();
      for (i = 0; i < want.size(); ++i) {
        const int o   = m.other(want[i], (int)ui);
        auto      old = nj++;
        MC_CHECK(old != nj && (int)old.other_vertex_id() == o, when << ": ni++ at neighbor " << i << " of " << ui);
        if constexpr (VV) MC_CHECK(val_of(old->value()) == m.vv[(size_t)o], when << ": value of neighbor " << i << " of " << ui);
      }
      MC_CHECK(nj == nr.end(), when << ": ni++ does not reach the end of the neighbors of " << ui);
      for (i = want.size(); i > 0; --i) {
        auto old = nj--;
        MC_CHECK(old != nj && (int)nj.other_vertex_id() == m.other(want[i - 1], (int)ui), when << ": ni-- at neighbor " << i << " of " << ui);
        if (i == want.size())
          MC_CHECK(old == nr.end(), when << ": ni-- returned another iterator");
        else
          MC_CHECK((int)old.other_vertex_id() == m.other(want[i], (int)ui), when << ": ni-- returned another neighbor");
      }
      if (!want.empty()) {
        auto a = nr.begin(), b = nr.end();
        swap(a, b);
        MC_CHECK(a == nr.end() && b == nr.begin() && (int)b.other_vertex_id() == m.other(want[0], (int)ui), when << ": swapped neighbor iterators of " << ui);
      }
    }
  }
  auto   er = g.edges();
  size_t i  = 0;
  MC_CHECK(er.size() == whole.size(), when << ": size of edges() is " << er.size() << " expected " << whole.size());
  for (const auto& uv : er) {
    MC_CHECK(i < whole.size(), when << ": edges() lists too many edges");
    const Edge& x = m.e.at(whole[i]);
    MC_CHECK((int)uv.list_owner_id() == x.s && (int)uv.list_target_id() == x.t && (!EV || ev_of(uv) == x.w),
             when << ": edges() at " << i);
    ++i;
  }
  MC_CHECK(i == whole.size(), when << ": edges() lists " << i << " of " << whole.size());
  auto it = er.begin();
  for (i = 0; i < whole.size(); ++i) {
    const Edge& x   = m.e.at(whole[i]);
    auto        old = it++;
    MC_CHECK(old != it && (int)old->list_owner_id() == x.s && (int)old->list_target_id() == x.t && (!EV || ev_of(*old) == x.w),
             when << ": edges() by it++ at " << i);
  }
  MC_CHECK(it == er.end(), when << ": it++ does not reach the end of edges()");
}
// ... and so do the customization points, for a const or mutable graph
template <class GG>
void check_cpo(GG& g, const Model& m, const char* when) {
  using G           = std::remove_const_t<GG>;
  using A           = uargs<G>;
  using VId         = typename A::VId;
  constexpr bool EV = !Void<typename A::EV>, VV = !Void<typename A::VV>;
  size_t         ui = 0;
  for (auto&& u : graph::vertices(g)) {
    MC_CHECK(ui < m.vv.size() && (size_t)graph::vertex_id(g, u) == ui, when << ": vertices(g)");
    const VId   uid  = (VId)ui;
    const auto& want = m.adj[ui];
    MC_CHECK(graph::vertex_id(g, *graph::find_vertex(g, uid)) == uid, when << ": find_vertex(g," << ui << ")");
    if constexpr (VV) MC_CHECK(val_of(graph::vertex_value(g, u)) == m.vv[ui], when << ": vertex_value");
    MC_CHECK((size_t)graph::degree(g, u) == want.size() && (size_t)graph::degree(g, uid) == want.size(), when << ": degree(g,u)");
    MC_CHECK((size_t)graph::in_degree(g, u) == want.size() && (size_t)graph::in_degree(g, uid) == want.size(), when << ": in_degree(g,u)");
    std::set<int> nb;
    auto          listing = [&](auto&& range, const char* what) {
      size_t i = 0;
      for (auto&& uv : range) {
        MC_CHECK(i < want.size(), when << ": " << what << " of " << ui << " has too many edges");
        const int o = m.other(want[i], (int)ui);
        nb.insert(o);
        MC_CHECK((size_t)graph::source_id(g, uv) == ui && (int)graph::target_id(g, uv) == o, when << ": ids in " << what << " of " << ui);
        MC_CHECK((int)graph::vertex_id(g, graph::target(g, uv)) == o && (size_t)graph::vertex_id(g, graph::source(g, uv)) == ui,
                 when << ": ends in " << what << " of " << ui);
        if constexpr (EV) MC_CHECK(val_of(graph::edge_value(g, uv)) == m.e.at(want[i]).w, when << ": value in " << what << " of " << ui);
        ++i;
      }
      MC_CHECK(i == want.size(), when << ": " << what << " of " << ui << " has too few edges");
    };
    listing(graph::edges(g, u), "edges(g,u)");
    listing(graph::edges(g, uid), "edges(g,uid)");
    listing(graph::in_edges(g, u), "in_edges(g,u)");
    listing(graph::in_edges(g, uid), "in_edges(g,uid)");
    for (size_t vi = 0; vi < m.vv.size(); ++vi) {
      const VId  vid = (VId)vi;
      const bool has = nb.count((int)vi) > 0;
      auto       v   = *graph::find_vertex(g, vid);
      MC_CHECK(graph::contains_edge(g, uid, vid) == has && graph::contains_edge(g, u, v) == has, when << ": contains_edge " << ui << " " << vi);
      MC_CHECK(graph::contains_in_edge(g, uid, vid) == has && graph::contains_in_edge(g, u, v) == has, when << ": contains_in_edge " << ui << " " << vi);
      if (has) { // the first edge listed that goes there
        int first = -1;
        for (size_t i = 0; i < want.size() && first < 0; ++i)
          if (m.other(want[i], (int)ui) == (int)vi) first = want[i];
        auto ok = [&](auto&& uv) {
          return (size_t)graph::source_id(g, uv) == ui && (size_t)graph::target_id(g, uv) == vi &&
                 (!EV || ev_of(*uv.value()) == m.e.at(first).w);
        };
        MC_CHECK(ok(graph::find_vertex_edge(g, u, v)) && ok(graph::find_vertex_edge(g, u, vid)) && ok(graph::find_vertex_edge(g, uid, vid)),
                 when << ": find_vertex_edge " << ui << " " << vi);
      }
    }
    ++ui;
  }
  MC_CHECK(ui == m.vv.size(), when << ": vertices(g) has " << ui);
}
template <class G>
void check_mut(G& g, const Model& m, const char* when) {
  using VId         = typename uargs<G>::VId;
  constexpr bool EV = !Void<typename uargs<G>::EV>, VV = !Void<typename uargs<G>::VV>, GV = !Void<typename uargs<G>::GV>;
  for (size_t ui = 0; ui < m.vv.size(); ++ui) {
    const VId uid = (VId)ui;
    auto&     u   = g.vertices()[ui];
    size_t    i   = 0;
    auto      r   = u.edges(g, uid);
    MC_CHECK(r.size() == m.adj[ui].size(), when << ": size of mutable edges of " << ui);
    for (auto it = r.begin(); it != r.end(); it++, ++i) {
      MC_CHECK(i < m.adj[ui].size(), when << ": mutable listing of " << ui);
      const Edge& x = m.e.at(m.adj[ui][i]);
      const int   o = m.other(m.adj[ui][i], (int)ui);
      MC_CHECK((int)it->list_owner_id() == x.s && (int)it->list_target_id() == x.t, when << ": mutable edge " << i << " of " << ui);
      MC_CHECK(it->source(g) == g.begin() + x.s && it->target(g) == g.begin() + x.t && it->other_vertex(g, uid) == g.begin() + o,
               when << ": mutable ends");
      if constexpr (EV) { // a value written through one end is seen through the other
        using V        = std::remove_reference_t<decltype(it->value())>;
        it->value()    = V(x.w + 1000);
        const auto& v  = g.vertices()[(size_t)o];
        size_t      at = (size_t)(std::find(m.adj[o].begin(), m.adj[o].end(), m.adj[ui][i]) - m.adj[o].begin());
        auto        jt = std::next(v.edges_cbegin(g, (VId)o), (std::ptrdiff_t)at);
        MC_CHECK(val_of(jt->value()) == x.w + 1000, when << ": value of an edge seen from its other end");
        it->value() = V(x.w);
      }
    }
    MC_CHECK(i == m.adj[ui].size(), when << ": mutable listing of " << ui << " is short");
    auto it = u.edges_end(g, uid);
    while (i > 0) {
      --it;
      --i;
      MC_CHECK(&*it == &*std::next(r.begin(), (std::ptrdiff_t)i), when << ": mutable backward edge " << i << " of " << ui);
    }
    if (!m.adj[ui].empty()) MC_CHECK(&u.edge_front(g) == &*r.begin() && &u.edge_back(g) == &*std::prev(r.end()), when << ": mutable front/back");
    it = u.edges_end(g, uid);
    for (size_t j = m.adj[ui].size(); j > 0; --j) {
      auto old = it--;
      MC_CHECK(old != it && &*it == &*std::next(r.begin(), (std::ptrdiff_t)j - 1), when << ": mutable it-- at edge " << j - 1 << " of " << ui);
    }
    MC_CHECK(it == r.begin(), when << ": mutable it-- does not reach the first edge of " << ui);
    auto nr = u.neighbors(g, uid);
    {
      auto nj = nr.begin();
      for (size_t j = 0; j < m.adj[ui].size(); ++j) {
        auto old = nj++;
        MC_CHECK(old != nj && (int)old.other_vertex_id() == m.other(m.adj[ui][j], (int)ui), when << ": mutable ni++ at neighbor " << j << " of " << ui);
      }
      MC_CHECK(nj == nr.end(), when << ": mutable ni++ does not reach the end");
      for (size_t j = m.adj[ui].size(); j > 0; --j) {
        auto old = nj--;
        MC_CHECK(old != nj && (int)nj.other_vertex_id() == m.other(m.adj[ui][j - 1], (int)ui), when << ": mutable ni-- at neighbor " << j - 1 << " of " << ui);
      }
    }
    for (auto ni = nr.begin(); ni != nr.end(); ++ni, ++i)
      MC_CHECK(i < m.adj[ui].size() && (int)ni.other_vertex_id() == m.other(m.adj[ui][i], (int)ui) &&
                     ni.other_vertex() == g.begin() + m.other(m.adj[ui][i], (int)ui),
               when << ": mutable neighbor " << i << " of " << ui);
    MC_CHECK(i == m.adj[ui].size(), when << ": mutable neighbors of " << ui);
    if constexpr (VV) {
      auto d                    = *graph::find_vertex(g, uid);
      graph::vertex_value(g, d) = std::remove_reference_t<decltype(u.value())>(77);
      MC_CHECK(val_of(u.value()) == 77, when << ": vertex_value is not the vertex's value");
      u.value() = std::remove_reference_t<decltype(u.value())>(m.vv[ui]);
    }
  }
  size_t i = 0;
  auto   w = m.whole();
  for (auto& uv : g.edges()) {
    MC_CHECK(i < w.size() && (int)uv.list_owner_id() == m.e.at(w[i]).s && (int)uv.list_target_id() == m.e.at(w[i]).t &&
                   (!EV || ev_of(uv) == m.e.at(w[i]).w),
             when << ": mutable edges() at " << i);
    ++i;
  }
  MC_CHECK(i == w.size() && g.edges().size() == w.size(), when << ": mutable edges()");
  if constexpr (GV) MC_CHECK(val_of(g.graph_value()) == m.gv, when << ": mutable graph value");
}
template <class G>
void check(G& g, const Model& m, const char* when, bool full = true) {
  check_const(std::as_const(g), m, when);
  if (full) {
    check_cpo(g, m, when);
    check_cpo(std::as_const(g), m, when);
    check_mut(g, m, when);
  }
}

} // namespace um

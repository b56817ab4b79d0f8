#pragma once
#include "cont.hpp"
#include <climits>
#include <cmath>
#include <limits>
#include <set>

namespace ac {
using gen::E;
using gen::EL;
// numeric value of an edge; 1 when the graph stores none
template <class G>
long ew(const G& g, const auto& e) {
  if constexpr (std::is_void_v<typename cont::ev_of<G>::type>)
    return 1;
  else if constexpr (requires { static_cast<long>(graph::edge_value(g, e)); })
    return static_cast<long>(graph::edge_value(g, e));
  else
    return 1;
}
// adjacency as stored by the real graph, in stored order
template <class G>
std::vector<std::vector<std::pair<int, long>>> read_adj(const G& g) {
  std::vector<std::vector<std::pair<int, long>>> a(graph::num_vertices(g));
  for (auto u : graph::vertices(g)) {
    auto& row = a[(size_t)graph::vertex_id(g, u)];
    for (auto&& uv : graph::edges(g, u)) {
      row.push_back({(int)graph::target_id(g, uv), ew(g, uv)});
    }
  }
  return a;
}
// record the stored graph as a model state (input-space properties)
template <class A>
void input_state(const A& a) {
  mc::Hash h;
  for (auto& r : a) {
    h.add(r.size());
    for (auto& [v, w] : r)
      h.add((uint64_t)(v + 1) * 0x10001 + (uint64_t)w);
  }
  mc::state(h.h);
}
template <class A>
std::vector<std::vector<char>> closure(const A& a) { // reachability (reflexive)
  size_t                         n = a.size();
  std::vector<std::vector<char>> r(n, std::vector<char>(n, 0));
  for (size_t i = 0; i < n; ++i) {
    std::vector<int> st{(int)i};
    r[i][i] = 1;
    while (!st.empty()) {
      int u = st.back();
      st.pop_back();
      for (auto& [v, w] : a[u])
        if (!r[i][v]) {
          r[i][v] = 1;
          st.push_back(v);
        }
    }
  }
  return r;
}
// reachable-set + hop distance from a set of sources (-1 unreachable)
template <class A>
std::vector<int> hops(const A& a, const std::vector<int>& src) {
  std::vector<int> d(a.size(), -1), q;
  for (int s : src)
    if (d[s] < 0) {
      d[s] = 0;
      q.push_back(s);
    }
  for (size_t i = 0; i < q.size(); ++i)
    for (auto& [v, w] : a[q[i]])
      if (d[v] < 0) {
        d[v] = d[q[i]] + 1;
        q.push_back(v);
      }
  return d;
}
// number of connected components of an undirected EL after removing a vertex (or -1 for none)
inline std::vector<int> ucomp(const EL& g, int removed = -1) {
  std::vector<int> c(g.n);
  std::iota(c.begin(), c.end(), 0);
  if (g.n > 24) { // large graphs: breadth-first labelling
    std::vector<std::vector<int>> a(g.n);
    for (auto& x : g.e)
      if (x.u != removed && x.v != removed) {
        a[x.u].push_back(x.v);
        a[x.v].push_back(x.u);
      }
    std::vector<char> seen(g.n, 0);
    for (int s = 0; s < g.n; ++s) {
      if (seen[s])
        continue;
      std::vector<int> q{s};
      seen[s] = 1;
      for (size_t i = 0; i < q.size(); ++i) {
        c[q[i]] = s;
        for (int v : a[q[i]])
          if (!seen[v]) {
            seen[v] = 1;
            q.push_back(v);
          }
      }
    }
    return c;
  }
  bool ch = true;
  while (ch) {
    ch = false;
    for (auto& x : g.e) {
      if (x.u == removed || x.v == removed)
        continue;
      int m = std::min(c[x.u], c[x.v]);
      if (c[x.u] != m || c[x.v] != m) {
        c[x.u] = c[x.v] = m;
        ch = true;
      }
    }
  }
  return c;
}
inline int ncomp(const EL& g, int removed = -1) {
  auto c = ucomp(g, removed);
  int  k = 0;
  for (int i = 0; i < g.n; ++i)
    if (i != removed && c[i] == i)
      ++k;
  return k;
}
inline const char* tname(const char* s) { return s; }
} // namespace ac

// gen.hpp - abstract graphs, exhaustive enumerators of small graphs, deterministic structured families, builders.
#pragma once
#include "mc.hpp"
#include <algorithm>
#include <numeric>
#include <string>
#include <vector>

namespace gen {
struct E {
  int u, v, w;
  bool operator==(const E&) const = default;
};
struct EL { // ordered edge list over vertices 0..n-1
  int            n = 0;
  std::vector<E> e;
  std::string    str() const {
    std::string s = "n=" + std::to_string(n) + " edges=[";
    for (auto& x : e)
      s += std::to_string(x.u) + ">" + std::to_string(x.v) + ":" + std::to_string(x.w) + " ";
    if (!e.empty())
      s.pop_back();
    return s + "]";
  }
  uint64_t key() const {
    mc::Hash h;
    h.add(n);
    for (auto& x : e)
      h.add((uint64_t)(uint32_t)x.u * 1000003u + (uint32_t)x.v * 131u + (uint64_t)(uint32_t)x.w * 0x100000000ull);
    return h.h;
  }
  int m() const { return (int)e.size(); }
};

// all ordered sequences of exactly k edges over n vertices (self-loops and parallel edges included); w=0
template <class F>
void edge_sequences(int n, int k, F&& f, bool loops = true) {
  std::vector<std::pair<int, int>> ps;
  for (int u = 0; u < n; ++u)
    for (int v = 0; v < n; ++v)
      if (loops || u != v)
        ps.push_back({u, v});
  EL g;
  g.n = n;
  g.e.assign(k, E{0, 0, 0});
  std::vector<int> idx(k, 0);
  if (k > 0 && ps.empty())
    return;
  for (;;) {
    for (int i = 0; i < k; ++i)
      g.e[i] = E{ps[idx[i]].first, ps[idx[i]].second, 0};
    f(g);
    int i = k - 1;
    while (i >= 0 && ++idx[i] == (int)ps.size())
      idx[i--] = 0;
    if (i < 0)
      return;
  }
}
// all simple digraphs (subset of n*n or n*(n-1) ordered pairs), edges in lexicographic order
template <class F>
void digraphs(int n, bool loops, F&& f) {
  std::vector<std::pair<int, int>> ps;
  for (int u = 0; u < n; ++u)
    for (int v = 0; v < n; ++v)
      if (loops || u != v)
        ps.push_back({u, v});
  for (uint64_t m = 0; m < (1ull << ps.size()); ++m) {
    EL g;
    g.n = n;
    for (size_t i = 0; i < ps.size(); ++i)
      if (m >> i & 1)
        g.e.push_back(E{ps[i].first, ps[i].second, 0});
    f(g);
  }
}
// all simple undirected graphs (u<=v pairs)
template <class F>
void ugraphs(int n, bool loops, F&& f) {
  std::vector<std::pair<int, int>> ps;
  for (int u = 0; u < n; ++u)
    for (int v = u; v < n; ++v)
      if (loops || u != v)
        ps.push_back({u, v});
  for (uint64_t m = 0; m < (1ull << ps.size()); ++m) {
    EL g;
    g.n = n;
    for (size_t i = 0; i < ps.size(); ++i)
      if (m >> i & 1)
        g.e.push_back(E{ps[i].first, ps[i].second, 0});
    f(g);
  }
}
// all ordered sequences of exactly k undirected edges over n vertices (pairs u<=v, self-loops and parallels included)
template <class F>
void uedge_sequences(int n, int k, F&& f, bool loops = true) {
  std::vector<std::pair<int, int>> ps;
  for (int u = 0; u < n; ++u)
    for (int v = u + (loops ? 0 : 1); v < n; ++v)
      ps.push_back({u, v});
  EL g;
  g.n = n;
  g.e.assign(k, E{0, 0, 0});
  std::vector<int> idx(k, 0);
  if (k > 0 && ps.empty())
    return;
  for (;;) {
    for (int i = 0; i < k; ++i)
      g.e[i] = E{ps[idx[i]].first, ps[idx[i]].second, 0};
    f(g);
    int i = k - 1;
    while (i >= 0 && ++idx[i] == (int)ps.size())
      idx[i--] = 0;
    if (i < 0)
      return;
  }
}
// all assignments of weights from ws to the edges of g
template <class F>
void weightings(EL g, const std::vector<int>& ws, F&& f) {
  std::vector<int> idx(g.e.size(), 0);
  for (;;) {
    for (size_t i = 0; i < g.e.size(); ++i)
      g.e[i].w = ws[idx[i]];
    f(g);
    int i = (int)g.e.size() - 1;
    while (i >= 0 && ++idx[i] == (int)ws.size())
      idx[i--] = 0;
    if (i < 0)
      return;
  }
}
inline EL both(const EL& g) { // each undirected edge stored in both directions; a self-loop is stored once
  EL r;
  r.n = g.n;
  for (auto& x : g.e) {
    r.e.push_back(x);
    if (x.u != x.v)
      r.e.push_back(E{x.v, x.u, x.w});
  }
  return r;
}
inline EL reversed(const EL& g) {
  EL r = g;
  for (auto& x : r.e)
    std::swap(x.u, x.v);
  return r;
}
// the same edges in another (deterministic) order: k=0 as is, 1 reversed, 2.. pseudo-random permutations
inline EL reorder(EL g, int k) {
  if (k == 1)
    std::reverse(g.e.begin(), g.e.end());
  else if (k > 1) {
    uint64_t x = 0x1234567ull * k;
    for (size_t i = g.e.size(); i > 1; --i) {
      x = mc::mix(x + i);
      std::swap(g.e[i - 1], g.e[x % i]);
    }
  }
  return g;
}
inline EL by_source(EL g) {
  std::stable_sort(g.e.begin(), g.e.end(), [](const E& a, const E& b) { return a.u < b.u; });
  return g;
}
inline EL sorted(EL g) {
  std::stable_sort(g.e.begin(), g.e.end(), [](const E& a, const E& b) { return std::pair(a.u, a.v) < std::pair(b.u, b.v); });
  return g;
}
inline EL relabel(const EL& g, const std::vector<int>& p) {
  EL r = g;
  for (auto& x : r.e) {
    x.u = p[x.u];
    x.v = p[x.v];
  }
  return r;
}
inline std::vector<std::vector<std::pair<int, int>>> adj(const EL& g) {
  std::vector<std::vector<std::pair<int, int>>> a(g.n);
  for (auto& x : g.e)
    a[x.u].push_back({x.v, x.w});
  return a;
}
template <class F>
void permutations(int n, F&& f) {
  std::vector<int> p(n);
  std::iota(p.begin(), p.end(), 0);
  do
    f(p);
  while (std::next_permutation(p.begin(), p.end()));
}

// -------- larger deterministic structured families (undirected edge lists u-v or directed by construction)
template <class F>
void families(int maxn, F&& f) {
  auto emit = [&](EL g) {
    int i = 0;
    for (auto& x : g.e)
      x.w = 1 + (i * 7 + x.u * 3 + x.v * 5) % 11, ++i;
    f(g);
  };
  for (int n = 1; n <= maxn; n = n < 12 ? n + 1 : n * 3 / 2 + 1) {
    EL path{n, {}}, cyc{n, {}}, star{n, {}}, tree{n, {}}, rpath{n, {}}, istar{n, {}}, zig{n, {}};
    for (int i = 0; i + 1 < n; ++i) {
      path.e.push_back({i, i + 1, 0});
      rpath.e.push_back({n - 1 - i, n - 2 - i, 0});
      star.e.push_back({0, i + 1, 0});
      istar.e.push_back({i, n - 1, 0});
      tree.e.push_back({i / 2, i + 1, 0});
    }
    cyc = path;
    cyc.e.push_back({n - 1, 0, 0});
    for (int i = 0; i + 1 < n; ++i) // zig-zag path 0,n-1,1,n-2,...
    {
      auto at = [&](int k) { return k % 2 ? n - 1 - k / 2 : k / 2; };
      zig.e.push_back({at(i), at(i + 1), 0});
    }
    emit(path);
    emit(rpath);
    emit(cyc);
    emit(star);
    emit(istar);
    emit(tree);
    emit(zig);
    if (n >= 4) {
      // circulants, two triangles joined by a path, ladder, binary-tree with leaf links, many components
      for (int s = 2; s <= std::min(n - 1, 4); ++s) {
        EL c{n, {}};
        for (int i = 0; i < n; ++i) {
          c.e.push_back({i, (i + 1) % n, 0});
          c.e.push_back({i, (i + s) % n, 0});
        }
        emit(c);
      }
      EL lad{n / 2 * 2, {}};
      for (int i = 0; i < n / 2; ++i) {
        lad.e.push_back({2 * i, 2 * i + 1, 0});
        if (i + 1 < n / 2) {
          lad.e.push_back({2 * i, 2 * i + 2, 0});
          lad.e.push_back({2 * i + 1, 2 * i + 3, 0});
        }
      }
      emit(lad);
      EL lol{n, {}}; // lollipop: clique on first half, tail on the rest
      int k = std::min(n / 2 + 1, 9);
      for (int i = 0; i < k; ++i)
        for (int j = i + 1; j < k; ++j)
          lol.e.push_back({i, j, 0});
      for (int i = k - 1; i + 1 < n; ++i)
        lol.e.push_back({i, i + 1, 0});
      emit(lol);
      EL comps{n, {}}; // blocks of three: triangles, the last vertices isolated
      for (int i = 0; i + 2 < n - 1; i += 3) {
        comps.e.push_back({i, i + 1, 0});
        comps.e.push_back({i + 1, i + 2, 0});
        comps.e.push_back({i + 2, i, 0});
      }
      emit(comps);
      EL cactus{n, {}}; // triangles sharing vertices
      for (int i = 0; i + 2 < n; i += 2) {
        cactus.e.push_back({i, i + 1, 0});
        cactus.e.push_back({i + 1, i + 2, 0});
        cactus.e.push_back({i + 2, i, 0});
      }
      emit(cactus);
    }
    if (n <= 9) {
      EL k{n, {}};
      for (int i = 0; i < n; ++i)
        for (int j = i + 1; j < n; ++j)
          k.e.push_back({i, j, 0});
      emit(k);
    }
  }
}
// directed graphs whose vertex ids fill (or nearly fill) a small id type; f(EL, fits_int8)
template <class F>
void id_limit_graphs(F&& f) {
  for (int n : {127, 128, 255, 256}) {
    EL path{n, {}}, rpath{n, {}}, cyc{n, {}}, in{n, {}}, out{n, {}};
    for (int i = 0; i + 1 < n; ++i) {
      path.e.push_back({i, i + 1, 1 + i % 3});
      rpath.e.push_back({n - 1 - i, n - 2 - i, 1 + i % 2});
      in.e.push_back({i, n - 1, 1 + i % 5});
      out.e.push_back({n - 1, i, 1 + i % 4});
    }
    cyc = path;
    cyc.e.push_back({n - 1, 0, 2});
    for (auto* e : {&path, &rpath, &cyc, &in, &out})
      f(*e, n <= 128);
  }
}
} // namespace gen

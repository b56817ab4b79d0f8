// C01: Dijkstra on the real code vs. exact distances, over exhaustively enumerated weighted digraphs.
// The visitor is a monitor automaton that replays the run on its own tentative-distance model.
#include "algo_common.hpp"
#include <graph/algorithm/dijkstra_shortest_paths.hpp>
using namespace ac;
using namespace cont;

template <class D>
struct Model {
  std::vector<D>            d;
  std::vector<int>          disc, exam, fin;
  std::vector<int>          pending; // per-vertex count of edges examined in the current examination
  std::vector<std::vector<std::pair<int, long>>> adj;
  int                       cur = -1;
  size_t                    pos = 0;
  bool                      awaiting = false; // an edge was examined, verdict not yet seen
  bool                      expect_relax = false;
  int                       eu = -1, ev = -1;
  bool                      need_discover = false;
  int                       inits = 0;
  bool                      started = false;
  std::function<D(D, long)> comb;
  std::vector<int>          srcs;
  uint64_t                  trace = 1469598103934665603ull;
  static constexpr D        INF = std::numeric_limits<D>::max();

  Model(std::vector<std::vector<std::pair<int, long>>> a, std::function<D(D, long)> c)
        : d(a.size(), INF), disc(a.size()), exam(a.size()), fin(a.size()), adj(std::move(a)), comb(std::move(c)) {}

  void tr(int op, int x) {
    trace = mc::mix(trace ^ (uint64_t)(op * 1000 + x + 7));
    mc::transition();
    mc::state(mc::Hash().range(d).add(cur + 1).add(pos).h);
  }
  void init(int u) {
    MC_CHECK(!started, "initialize after start");
    MC_CHECK(u == inits, "initialize order " << u);
    ++inits;
  }
  void discover(int u) {
    started = true;
    tr(1, u);
    if (cur < 0 && !awaiting) { // a source
      MC_CHECK(std::find(srcs.begin(), srcs.end(), u) != srcs.end(), "discover of non-source " << u << " outside examination");
      MC_CHECK(disc[u] == 0, "source " << u << " discovered twice");
      d[u] = D(0);
    } else {
      MC_CHECK(need_discover && u == ev, "unexpected discover of " << u);
      need_discover = false;
    }
    ++disc[u];
    MC_CHECK(disc[u] == 1, "vertex " << u << " discovered twice");
  }
  void verdict_done() {
    MC_CHECK(!awaiting, "edge " << eu << "->" << ev << " examined but neither relaxed nor not-relaxed reported");
    MC_CHECK(!need_discover, "newly reached vertex " << ev << " not discovered");
  }
  void examine(int u) {
    tr(2, u);
    verdict_done();
    MC_CHECK(cur < 0, "examination of " << u << " inside examination of " << cur);
    MC_CHECK(disc[u], "examined before discovered " << u);
    ++exam[u];
    cur = u;
    pos = 0;
  }
  void edge(int u, int v, long w) {
    tr(3, v);
    verdict_done();
    MC_CHECK(u == cur, "edge of " << u << " examined while examining " << cur);
    MC_CHECK(pos < adj[u].size() && adj[u][pos].first == v && adj[u][pos].second == w, "edge order at " << u << " pos " << pos);
    ++pos;
    awaiting     = true;
    eu           = u;
    ev           = v;
    D nd         = comb(d[u], w);
    expect_relax = nd < d[v];
    if (expect_relax) {
      need_discover = disc[v] == 0;
      d[v]          = nd;
    }
  }
  void relaxed(int u, int v) {
    tr(4, v);
    MC_CHECK(awaiting && u == eu && v == ev, "relaxed event without examined edge");
    MC_CHECK(expect_relax, "edge " << u << "->" << v << " reported relaxed but distance did not improve");
    awaiting = false;
  }
  void not_relaxed(int u, int v) {
    tr(5, v);
    MC_CHECK(awaiting && u == eu && v == ev, "not_relaxed event without examined edge");
    MC_CHECK(!expect_relax, "edge " << u << "->" << v << " reported not relaxed but distance improved");
    awaiting = false;
  }
  void finish(int u) {
    tr(6, u);
    verdict_done();
    MC_CHECK(u == cur, "finish of " << u << " during " << cur);
    MC_CHECK(pos == adj[u].size(), "finished before all edges examined");
    cur = -1;
    ++fin[u];
  }
};
template <class M>
struct VisEdges {
  M&   m;
  void on_examine_edge(const auto& g, const auto& e) { m.edge((int)graph::source_id(g, e), (int)graph::target_id(g, e), ew(g, e)); }
  void on_edge_relaxed(const auto& g, const auto& e) { m.relaxed((int)graph::source_id(g, e), (int)graph::target_id(g, e)); }
  void on_edge_not_relaxed(const auto& g, const auto& e) { m.not_relaxed((int)graph::source_id(g, e), (int)graph::target_id(g, e)); }
};
template <class T>
concept NotId = !std::integral<T>;
template <class M>
struct VisDesc : VisEdges<M> { // vertex-descriptor flavour
  void on_initialize_vertex(const auto& g, const NotId auto& u) { this->m.init((int)graph::vertex_id(g, u)); }
  void on_discover_vertex(const auto& g, const NotId auto& u) { this->m.discover((int)graph::vertex_id(g, u)); }
  void on_examine_vertex(const auto& g, const NotId auto& u) { this->m.examine((int)graph::vertex_id(g, u)); }
  void on_finish_vertex(const auto& g, const NotId auto& u) { this->m.finish((int)graph::vertex_id(g, u)); }
};
template <class M>
struct VisId : VisEdges<M> { // vertex-id flavour
  void on_initialize_vertex(const auto&, const std::integral auto& u) { this->m.init((int)u); }
  void on_discover_vertex(const auto&, const std::integral auto& u) { this->m.discover((int)u); }
  void on_examine_vertex(const auto&, const std::integral auto& u) { this->m.examine((int)u); }
  void on_finish_vertex(const auto&, const std::integral auto& u) { this->m.finish((int)u); }
};

enum Mode { SUM, BOTTLENECK, UNIT };

template <class D, class A, class C>
std::vector<D> oracle(const A& a, const std::vector<int>& src, C comb) {
  constexpr D    INF = std::numeric_limits<D>::max();
  std::vector<D> d(a.size(), INF);
  for (int s : src)
    d[s] = D(0);
  for (size_t r = 0; r <= a.size(); ++r)
    for (size_t u = 0; u < a.size(); ++u)
      if (d[u] != INF)
        for (auto& [v, w] : a[u])
          if (comb(d[u], w) < d[v])
            d[v] = comb(d[u], w);
  return d;
}

// one full check of one graph x source list x mode x visitor flavour
template <class D, class PT = uint32_t, bool Full = false, class G>
void check(G& g, const std::vector<int>& src, Mode mode, int flavour, bool single) {
  constexpr D INF = std::numeric_limits<D>::max();
  auto        a   = read_adj(g);
  using VId       = graph::vertex_id_t<G>;
  auto comb       = [mode](D x, long w) -> D {
    return mode == UNIT ? D(x + 1) : mode == SUM ? D(x + D(w)) : std::max<D>(x, D(w));
  };
  auto           want = oracle<D>(a, src, comb);
  std::vector<D> dist(a.size(), D(77));
  std::vector<PT> pred(a.size(), PT(99));
  graph::init_shortest_paths(dist, pred);
  for (size_t i = 0; i < a.size(); ++i) {
    mc::chk(dist[i] == INF, "init_shortest_paths: distance not infinite");
    mc::chk((size_t)pred[i] == i, "init_shortest_paths: predecessor not self");
  }
  std::vector<VId> s(src.begin(), src.end());
  using M = Model<D>;
  M m(a, comb);
  m.srcs   = src;
  auto wf  = [mode](const auto& gg, const auto& e) -> D { return mode == UNIT ? D(1) : D(ew(gg, e)); };
  auto cmb = [mode](D x, D w) -> D { return mode == BOTTLENECK ? std::max(x, w) : D(x + w); };
  auto run = [&](auto&& vis) {
    if constexpr (Full) {
      if (mode == SUM) {
        if (single)
          graph::dijkstra_shortest_paths(g, s[0], dist, pred, wf, vis);
        else
          graph::dijkstra_shortest_paths(g, s, dist, pred, wf, vis);
        return;
      }
      if (single) {
        graph::dijkstra_shortest_paths(g, s[0], dist, pred, wf, vis, std::less<D>(), cmb);
        return;
      }
    }
    graph::dijkstra_shortest_paths(g, s, dist, pred, wf, vis, std::less<D>(), cmb);
  };
  if (flavour == 0) {
    VisDesc<M> v{m};
    run(v);
  } else if (flavour == 1) {
    VisId<M> v{m};
    run(v);
  } else {
    run(graph::empty_visitor());
  }
  mc::trace();
  bool anyreach = false;
  for (size_t i = 0; i < a.size(); ++i) {
    MC_CHECK(dist[i] == want[i], "distance[" << i << "]=" << +dist[i] << " expected " << +want[i]);
    bool is_src = std::find(src.begin(), src.end(), (int)i) != src.end();
    if (flavour < 2) {
      MC_CHECK(m.d[i] == want[i], "event model distance differs at " << i);
      bool r = want[i] != INF;
      MC_CHECK(m.disc[i] == (r ? 1 : 0), "vertex " << i << " discovered " << m.disc[i] << " times");
      MC_CHECK(m.exam[i] == m.fin[i] && (m.exam[i] > 0) == r, "vertex " << i << " examined " << m.exam[i] << " finished " << m.fin[i]);
    }
    if (want[i] == INF || is_src) {
      MC_CHECK((size_t)pred[i] == i, "predecessor of " << (is_src ? "source " : "unreached ") << i << " changed to " << +pred[i]);
    } else {
      anyreach  = true;
      size_t p  = (size_t)pred[i];
      bool   ok = false;
      MC_CHECK(p < a.size() && p != i, "predecessor of " << i << " is " << p);
      for (auto& [v, w] : a[p])
        if (v == (int)i && want[p] != INF && comb(want[p], w) == want[i])
          ok = true;
      MC_CHECK(ok, "predecessor " << p << " of " << i << " does not attain its distance");
    }
  }
  // predecessor chains end at a source (also with zero-weight edges)
  for (size_t i = 0; i < a.size(); ++i)
    if (want[i] != INF) {
      size_t x = i, steps = 0;
      while (std::find(src.begin(), src.end(), (int)x) == src.end()) {
        x = (size_t)pred[x];
        MC_CHECK(++steps <= a.size(), "predecessor chain of " << i << " does not reach a source");
      }
    }
  if (flavour < 2)
    MC_CHECK(m.inits == (int)a.size(), "initialize events " << m.inits);
  // distances-only entry points give the same distances
  std::vector<D> d2(a.size());
  graph::init_shortest_paths(d2);
  if constexpr (Full) {
    if (mode == SUM) {
      if (single)
        graph::dijkstra_shortest_distances(g, s[0], d2, wf);
      else
        graph::dijkstra_shortest_distances(g, s, d2, wf);
    } else if (mode == UNIT) {
      if (single)
        graph::dijkstra_shortest_distances(g, s[0], d2);
      else
        graph::dijkstra_shortest_distances(g, s, d2);
    }
  }
  if (!Full || mode == BOTTLENECK)
    graph::dijkstra_shortest_distances(g, s, d2, wf, graph::empty_visitor(), std::less<D>(), cmb);
  MC_CHECK(d2 == dist, "distances-only result differs: " << mc::str(d2) << " vs " << mc::str(dist));
  mc::outcome(mc::Hash().range(dist).range(pred).h);
  (void)anyreach;
}

template <class G>
void one(mc::Suite& S, const EL& el, const char* cn, const std::vector<std::vector<int>>& srcs, bool modes) {
  for (auto& src : srcs) {
    bool inr = true;
    for (int s : src)
      inr &= s < el.n;
    if (!inr)
      continue;
    S.run_case(
          mc::Hash().add(el.key()).range(src).add(std::string(cn)).h,
          [&] { return std::string(cn) + " " + el.str() + " sources=" + mc::str(src); },
          [&] {
            auto make = [&] {
              if constexpr (Ual<G>)
                return build_ual<G>(el);
              else
                return build<G>(el);
            };
            G g = make();
            if (graph::num_vertices(g) <= (size_t)*std::max_element(src.begin(), src.end()))
              return;
            if (el.m() > 0)
              S.nontrivial();
            const bool single = src.size() == 1;
            const int  fl     = (int)(el.key() % 3);
            check<int, uint32_t, true>(g, src, SUM, fl, single);
            if (modes) {
              check<int, uint32_t, true>(g, src, BOTTLENECK, (fl + 1) % 3, single);
              check<int, uint32_t, true>(g, src, UNIT, (fl + 2) % 3, single);
              check<double, size_t>(g, src, SUM, (fl + 2) % 3, single);
              check<uint16_t, int>(g, src, UNIT, (fl + 1) % 3, single);
            }
          });
  }
}
// every flavour of visitor on every mode for this graph
template <class G>
void all_modes(mc::Suite& S, const EL& el, const char* cn) {
  for (int s = 0; s < el.n; ++s)
    S.run_case(
          mc::Hash().add(el.key()).add(s).add(std::string(cn)).h, [&] { return std::string(cn) + " " + el.str() + " source=" + std::to_string(s); },
          [&] {
            G g = [&] {
              if constexpr (Ual<G>)
                return build_ual<G>(el);
              else
                return build<G>(el);
            }();
            if (graph::num_vertices(g) <= (size_t)s)
              return;
            if (el.m() > 0)
              S.nontrivial();
            for (int fl = 0; fl < 3; ++fl)
              for (int mode = 0; mode < 3; ++mode) {
                check<int>(g, {s}, (Mode)mode, fl, true);
                if (fl == 2)
                  check<int>(std::as_const(g), {s}, (Mode)mode, fl, true);
              }
          });
}

#if PART == 1
MC_SUITE(sequences) { // ordered edge sequences with weights: covers parallel edges, self-loops, edge order
  for (int k = 0; k <= 3; ++k)
    gen::edge_sequences(3, k, [&](const EL& b) {
      gen::weightings(b, {0, 1, 3}, [&](const EL& el) { one<vov_t<int>>(S, el, "vov", {{0}, {0, 1}}, false); });
    });
  if (mc::thorough())
    gen::edge_sequences(3, 4, [&](const EL& b) {
      gen::weightings(b, {0, 1, 3}, [&](const EL& el) { one<vov_t<int>>(S, el, "vov", {{0}, {0, 1}}, false); });
    });
}
#endif
#if PART == 1
MC_SUITE(subsets4) { // all simple digraphs on 4 vertices with up to K edges, all weightings
  int K = mc::tier(4, 6);
  gen::digraphs(4, false, [&](const EL& b) {
    if (b.m() > K)
      return;
    gen::weightings(b, b.m() <= 4 ? std::vector<int>{0, 1, 3, 7} : std::vector<int>{1, 3, 8},
                    [&](const EL& el) { one<vov_t<int>>(S, el, "vov", {{0}}, el.m() <= 3); });
    if (b.m() <= 4)
      gen::weightings(b, {1, 4}, [&](const EL& el) { one<vov_t<int>>(S, el, "vov", {{0, 3}, {2, 1, 0}}, false); });
  });
}
#endif
#if PART == 1
MC_SUITE(dense) { // all acyclic and cyclic 5-vertex graphs around a decreasing-relaxation ladder, few weights
  gen::digraphs(mc::tier(4, 4), true, [&](const EL& b) {
    EL el = b;
    for (int i = 0; i < el.m(); ++i)
      el.e[i].w = 1 + (el.e[i].u * 5 + el.e[i].v * 3 + i * i) % 9;
    one<vov_t<int>>(S, el, "vov", {{0}, {1, 2}}, false);
    for (auto& x : el.e) // weights that make long paths cheaper than direct edges
      x.w = (x.v - x.u) * (x.v - x.u);
    one<vov_t<int>>(S, el, "vov", {{0}}, false);
  });
}
#endif
#if PART >= 3
MC_SUITE(containers) {
  auto f = [&](const EL& el) {
#if PART == 3
    all_modes<vov_t<int, uint8_t>>(S, el, "vov/u8");
    all_modes<vol_t<int, size_t>>(S, el, "vol/size_t");
    all_modes<vofl_t<int>>(S, el, "vofl");
#elif PART == 4
    all_modes<vos_t<int>>(S, el, "vos");
    all_modes<dov_t<int, int>>(S, el, "dov/int");
    all_modes<vov_t<void>>(S, el, "vov/void");
#else
    all_modes<csr_t<int>>(S, el, "csr");
    all_modes<vvp_t>(S, el, "vector<vector<pair>>");
    all_modes<ual_t<int>>(S, el, "ual");
#endif
  };
  gen::edge_sequences(3, 2, [&](const EL& b) { gen::weightings(b, {0, 2}, f); });
  gen::digraphs(3, true, [&](const EL& b) {
    EL el = b;
    for (int i = 0; i < el.m(); ++i)
      el.e[i].w = 1 + (i * 5) % 7;
    f(el);
  });
}
#endif
#if PART == 2
MC_SUITE(types) { // distance / predecessor types
  auto f = [&](const EL& el) {
    S.run_case(el.key(), [&] { return el.str(); }, [&] {
      auto g = build<vov_t<int, uint8_t>>(el);
      S.nontrivial();
      for (int mode = 0; mode < 3; ++mode)
        for (int fl = 0; fl < 3; ++fl) {
          check<long, int>(g, {1}, (Mode)mode, fl, true);
          check<float, size_t>(g, {0, 2}, (Mode)mode, fl, false);
          check<unsigned, uint8_t, true>(g, {2}, (Mode)mode, fl, fl != 1);
        }
    });
  };
  gen::digraphs(3, true, [&](const EL& b) {
    for (int t = 0; t < 3; ++t) {
      EL el = b;
      for (int i = 0; i < el.m(); ++i)
        el.e[i].w = (t + i * 5) % 7;
      f(el);
    }
  });
}
#endif
#if PART == 1
MC_SUITE(id_limits) { // vertex ids that fill the whole range of the id type
  gen::id_limit_graphs([&](const EL& el, bool small) {
    for (int s : {0, 1, el.n - 1}) {
      one<csr_t<int, uint8_t>>(S, el, "csr/u8", {{s}}, false);
      if (small)
        one<csr_t<int, int8_t>>(S, el, "csr/i8", {{s}}, false);
    }
  });
}
MC_SUITE(families) { // larger structured graphs, directed and symmetric
  gen::families(mc::tier(40, 120), [&](const EL& el) {
    for (int s : {0, el.n / 2, el.n - 1}) {
      one<vov_t<int>>(S, el, "vov", {{s}, {(s + 1) % (el.n + 1), s}}, el.n < 30);
      one<vov_t<int>>(S, gen::both(el), "vov/sym", {{s}}, el.n < 30);
    }
  });
}
#endif

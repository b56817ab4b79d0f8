// C02: Bellman-Ford on the real code vs. exact distances / negative-cycle oracle.
#include "algo_common.hpp"
#include <graph/algorithm/bellman_ford_shortest_paths.hpp>
using namespace ac;
using namespace cont;

template <class T>
concept NotId = !std::integral<T>;

template <class D>
struct Mon { // event monitor replaying relaxations on its own distance model
  std::vector<D>   d;
  std::vector<int> disc;
  std::vector<int> srcs;
  bool             awaiting = false, expect = false;
  std::vector<std::tuple<int, int, long>> final_pass; // edges judged minimized or not
  int              eu = -1, ev = -1;
  int              not_min = 0;
  static constexpr D INF = std::numeric_limits<D>::max();
  Mon(size_t n, std::vector<int> s) : d(n, INF), disc(n), srcs(std::move(s)) {}
  void tr() {
    mc::transition();
    mc::state(mc::Hash().range(d).add(awaiting).h);
  }
  void discover(int u) {
    ++disc[u];
    if (std::find(srcs.begin(), srcs.end(), u) != srcs.end())
      d[u] = std::min<D>(d[u], D(0));
    tr();
  }
  void edge(int u, int v, long w) {
    MC_CHECK(!awaiting, "edge " << eu << "->" << ev << " examined without verdict");
    awaiting = true;
    eu       = u;
    ev       = v;
    expect   = d[u] != INF && D(d[u] + D(w)) < d[v];
    if (expect)
      d[v] = D(d[u] + D(w));
    tr();
  }
  void relaxed(int u, int v) {
    MC_CHECK(awaiting && u == eu && v == ev && expect, "edge " << u << "->" << v << " wrongly reported relaxed");
    awaiting = false;
  }
  void not_relaxed(int u, int v) {
    MC_CHECK(awaiting && u == eu && v == ev && !expect, "edge " << u << "->" << v << " wrongly reported not relaxed");
    awaiting = false;
  }
  void minimized(int u, int v, long w) {
    final_pass.push_back({u, v, w});
    MC_CHECK(d[u] == INF || !(D(d[u] + D(w)) < d[v]), "edge " << u << "->" << v << " wrongly reported minimized");
  }
  void not_minimized(int u, int v, long w) {
    ++not_min;
    final_pass.push_back({u, v, w});
    MC_CHECK(d[u] != INF && D(d[u] + D(w)) < d[v], "edge " << u << "->" << v << " wrongly reported not minimized");
  }
};
template <class M, bool Ids>
struct Vis {
  M&   m;
  void on_discover_vertex(const auto& g, const NotId auto& u)
    requires(!Ids)
  {
    m.discover((int)graph::vertex_id(g, u));
  }
  void on_discover_vertex(const auto&, const std::integral auto& u)
    requires(Ids)
  {
    m.discover((int)u);
  }
  void on_examine_edge(const auto& g, const auto& e) { m.edge((int)graph::source_id(g, e), (int)graph::target_id(g, e), ew(g, e)); }
  void on_edge_relaxed(const auto& g, const auto& e) { m.relaxed((int)graph::source_id(g, e), (int)graph::target_id(g, e)); }
  void on_edge_not_relaxed(const auto& g, const auto& e) { m.not_relaxed((int)graph::source_id(g, e), (int)graph::target_id(g, e)); }
  void on_edge_minimized(const auto& g, const auto& e) { m.minimized((int)graph::source_id(g, e), (int)graph::target_id(g, e), ew(g, e)); }
  void on_edge_not_minimized(const auto& g, const auto& e) {
    m.not_minimized((int)graph::source_id(g, e), (int)graph::target_id(g, e), ew(g, e));
  }
};

struct BoundedOut { // output iterator that refuses to run away
  std::vector<int>* v;
  size_t            cap;
  using iterator_category = std::output_iterator_tag;
  using difference_type   = std::ptrdiff_t;
  BoundedOut& operator*() { return *this; }
  BoundedOut& operator++() { return *this; }
  BoundedOut  operator++(int) { return *this; }
  template <std::integral T>
  BoundedOut& operator=(T x) {
    if (v->size() >= cap)
      mc::fail("negative-cycle extraction does not terminate (more vertices than the graph has)");
    v->push_back((int)x);
    return *this;
  }
};

template <class D, class PT, bool Full, class G>
void check(G& g, const std::vector<int>& src, int flavour) {
  constexpr D INF = std::numeric_limits<D>::max();
  auto        a   = read_adj(g);
  size_t      n   = a.size();
  // oracle
  std::vector<long> want(n, LONG_MAX);
  for (int s : src)
    want[s] = 0;
  bool neg = false;
  for (size_t r = 0; r <= n; ++r) {
    bool ch = false;
    for (size_t u = 0; u < n; ++u)
      if (want[u] != LONG_MAX)
        for (auto& [v, w] : a[u])
          if (want[u] + w < want[v]) {
            want[v] = want[u] + w;
            ch      = true;
          }
    if (r == n && ch)
      neg = true;
  }
  using VId = graph::vertex_id_t<G>;
  std::vector<VId> s(src.begin(), src.end());
  std::vector<D>   dist(n);
  std::vector<PT>  pred(n);
  graph::init_shortest_paths(dist, pred);
  auto wf = [](const auto& gg, const auto& e) -> D { return D(ew(gg, e)); };
  using M = Mon<D>;
  M                    m(n, src);
  std::optional<VId>   r;
  bool                 single = src.size() == 1 && (flavour & 4);
  auto                 run    = [&](auto&& vis) {
    if constexpr (Full)
      if (single) {
        r = graph::bellman_ford_shortest_paths(g, s[0], dist, pred, wf, vis);
        return;
      }
    r = graph::bellman_ford_shortest_paths(g, s, dist, pred, wf, vis);
  };
  switch (flavour & 3) {
  case 0: {
    Vis<M, false> v{m};
    run(v);
    break;
  }
  case 1: {
    Vis<M, true> v{m};
    run(v);
    break;
  }
  default: run(graph::empty_visitor());
  }
  mc::trace();
  MC_CHECK(r.has_value() == neg, (neg ? "reachable negative cycle not reported" : "negative cycle reported but none is reachable"));
  if ((flavour & 3) < 2) {
    for (int x : src)
      MC_CHECK(m.disc[x] >= 1, "source not discovered");
    MC_CHECK(!m.awaiting, "last edge without verdict");
    MC_CHECK(m.not_min == (neg ? 1 : 0) || (neg && m.not_min > 0), "not-minimized events: " << m.not_min);
    std::vector<std::tuple<int, int, long>> listed;
    for (size_t u = 0; u < n; ++u)
      for (auto& [v, w] : a[u])
        listed.push_back({(int)u, v, w});
    MC_CHECK(m.final_pass.size() <= listed.size() && std::equal(m.final_pass.begin(), m.final_pass.end(), listed.begin()),
             "the final check does not judge every edge it passes, in the order they are listed");
    MC_CHECK(neg || m.final_pass.empty() || m.final_pass.size() == listed.size(), "the final check judges some edges only");
  }
  std::vector<int> cyc;
  graph::find_negative_cycle(g, pred, r, BoundedOut{&cyc, n});
  if (neg) {
    mc::count("negative_cycle_cases");
    MC_CHECK((size_t)*r < n, "cycle vertex out of range");
    MC_CHECK(!cyc.empty(), "empty cycle");
    std::set<int> uniq(cyc.begin(), cyc.end());
    MC_CHECK(uniq.size() == cyc.size(), "cycle repeats a vertex " << mc::str(cyc));
    // listed by predecessor: cyc[i+1] -> cyc[i]
    long tot = 0;
    for (size_t i = 0; i < cyc.size(); ++i) {
      int  v = cyc[i], u = cyc[(i + 1) % cyc.size()];
      long best = LONG_MAX;
      for (auto& [t, w] : a[u])
        if (t == v)
          best = std::min(best, w);
      MC_CHECK(best != LONG_MAX, "cycle " << mc::str(cyc) << " uses missing edge " << u << "->" << v);
      tot += best;
    }
    MC_CHECK(tot < 0, "reported cycle " << mc::str(cyc) << " has weight " << tot);
    mc::outcome(mc::Hash().range(cyc).h);
  } else {
    MC_CHECK(cyc.empty(), "cycle emitted although none was reported");
    for (size_t i = 0; i < n; ++i) {
      bool is_src = std::find(src.begin(), src.end(), (int)i) != src.end();
      if (want[i] == LONG_MAX) {
        MC_CHECK(dist[i] == INF, "unreached vertex " << i << " got distance " << +dist[i]);
        MC_CHECK((size_t)pred[i] == i, "unreached vertex " << i << " got predecessor " << +pred[i]);
        continue;
      }
      MC_CHECK((double)dist[i] == (double)want[i], "distance[" << i << "]=" << +dist[i] << " expected " << want[i]);
      if ((size_t)pred[i] == i && is_src && want[i] == 0)
        continue;
      size_t p  = (size_t)pred[i];
      bool   ok = false;
      MC_CHECK(p < n, "predecessor of " << i << " is " << +pred[i]);
      for (auto& [v, w] : a[p])
        if (v == (int)i && want[p] != LONG_MAX && want[p] + w == want[i])
          ok = true;
      MC_CHECK(ok, "predecessor " << p << " of " << i << " does not attain its distance");
    }
    mc::outcome(mc::Hash().range(dist).range(pred).h);
  }
  // distances-only forms
  std::vector<D> d2(n);
  graph::init_shortest_paths(d2);
  std::optional<VId> r2;
  if (Full && single)
    r2 = graph::bellman_ford_shortest_distances(g, s[0], d2, wf);
  else
    r2 = graph::bellman_ford_shortest_distances(g, s, d2, wf);
  MC_CHECK(r2.has_value() == neg, "distances-only form disagrees about the negative cycle");
  if (!neg)
    MC_CHECK(d2 == dist, "distances-only form differs");
}

template <class G, bool Full, class D = int, class PT = uint32_t>
void one(mc::Suite& S, const EL& el, const char* cn, std::vector<std::vector<int>> srcs, bool all_flavours = false) {
  for (auto& src : srcs)
    S.run_case(
          mc::Hash().add(el.key()).range(src).add(std::string(cn)).h, [&] { return std::string(cn) + " " + el.str() + " sources=" + mc::str(src); },
          [&] {
            G g = make<G>(el);
            for (int s : src)
              if ((size_t)s >= graph::num_vertices(g))
                return;
            if (el.m() > 0)
              S.nontrivial();
            if (all_flavours)
              for (int f = 0; f < 7; ++f)
                check<D, PT, Full>(g, src, f);
            else
              check<D, PT, Full>(g, src, (int)(el.key() % 7));
          });
}
#if PART == 1
MC_SUITE(sequences) {
  for (int k = 0; k <= mc::tier(3, 4); ++k)
    gen::edge_sequences(3, k, [&](const EL& b) {
      gen::weightings(b, {-2, -1, 0, 1, 3}, [&](const EL& el) { one<vov_t<int>, true>(S, el, "vov", {{0}, {1, 2}}); });
    });
}
MC_SUITE(subsets4) {
  int K = mc::tier(4, 6);
  gen::digraphs(4, true, [&](const EL& b) {
    if (b.m() > K || b.m() < 2)
      return;
    gen::weightings(b, {-3, 1, 2}, [&](const EL& el) { one<vov_t<int>, true>(S, el, "vov", {{0}}); });
    if (b.m() <= 3)
      gen::weightings(b, {-1, 0, 4}, [&](const EL& el) { one<vov_t<int>, true>(S, el, "vov", {{1}, {0, 3}, {2, 2}}); });
  });
}
#elif PART == 2
MC_SUITE(dense) { // all digraphs n=4 (with loops in the thorough tier) with patterned signs
  gen::digraphs(4, mc::thorough(), [&](const EL& b) {
    for (int t = 0; t < 6; ++t) {
      EL el = b;
      for (int i = 0; i < el.m(); ++i)
        el.e[i].w = (el.e[i].u * (3 + t) + el.e[i].v * 5 + i * t) % 7 - 1 - t % 3;
      one<vov_t<int>, true>(S, el, "vov", {{0}, {3}});
    }
  });
}
MC_SUITE(id_limits) { // vertex ids that fill the whole range of the id type
  gen::id_limit_graphs([&](const EL& el, bool small) {
    for (int s : {0, 1, el.n - 1}) {
      one<csr_t<int, uint8_t>, true>(S, el, "csr/u8", {{s}});
      if (small)
        one<csr_t<int, int8_t>, true>(S, el, "csr/i8", {{s}});
    }
  });
}
MC_SUITE(families) {
  gen::families(mc::tier(30, 80), [&](const EL& b) {
    for (int t = 0; t < 5; ++t) {
      EL el = b;
      for (int i = 0; i < el.m(); ++i) // t=4: all negative; t<4: one or a few negative edges
        el.e[i].w = t == 4 ? -1 : (i % (5 + t * 7) == 3 + t ? -2 - 3 * t : 1 + i % 3);
      for (int s : {0, el.n / 2, el.n - 1}) {
        one<vov_t<int>, true>(S, el, "vov", {{s}});
        EL r = gen::reversed(el);
        std::reverse(r.e.begin(), r.e.end());
        one<vov_t<int>, true>(S, r, "vov/rev", {{s}});
      }
    }
  });
}
#else
MC_SUITE(containers) {
  auto f = [&](const EL& el) {
    std::vector<std::vector<int>> src{{0}, {1}, {0, 2}};
#if PART == 3
    one<vov_t<int, uint8_t>, false>(S, el, "vov/u8", src, true);
    one<vol_t<int, size_t>, false, long, int>(S, el, "vol/size_t", src, true);
    one<vofl_t<int>, false, double, size_t>(S, el, "vofl", src, true);
#elif PART == 4
    one<vos_t<int>, false>(S, el, "vos", src, true);
    one<dov_t<int, int>, false>(S, el, "dov/int", src, true);
    one<csr_t<int>, false, float, int>(S, el, "csr", src, true);
#else
    one<vvp_t, false>(S, el, "vector<vector<pair>>", src, true);
    one<ual_t<int>, false>(S, el, "ual", src, true);
    one<const vov_t<int>, true, short, uint16_t>(S, el, "const vov", src, true);
#endif
  };
  gen::edge_sequences(3, 2, [&](const EL& b) { gen::weightings(b, {-1, 0, 2}, f); });
  gen::digraphs(3, true, [&](const EL& b) {
    for (int t = 0; t < 4; ++t) {
      EL el = b;
      for (int i = 0; i < el.m(); ++i)
        el.e[i].w = (i * (5 + t)) % 7 - t;
      f(el);
    }
  });
}
#endif

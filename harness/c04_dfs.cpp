// C04: depth_first_search: event trace monitored by an automaton (colours + path stack) over enumerated digraphs.
#include "algo_common.hpp"
#include <graph/algorithm/depth_first_search.hpp>
using namespace ac;
using namespace cont;
template <class T>
concept NotId = !std::integral<T>;

struct Mon {
  std::vector<std::vector<std::pair<int, long>>> adj;
  std::vector<int>                               color, disc, fin; // 0 white 1 gray 2 black
  std::vector<std::pair<int, size_t>>            st;              // path with next edge position
  int                                            src = 0, starts = 0, inits = 0;
  enum { IDLE, EXAMINED, CLASSIFIED } ph = IDLE;
  int              eu = -1, ev = -1, kind = 0; // 1 tree 2 back 3 fwd/cross
  bool             need_disc = false;
  std::vector<int> order;
  uint64_t         examined = 0, finished_edges = 0, classified = 0;
  std::map<std::pair<int, int>, int> open; // examined-but-unfinished edges
  int              kinds[4] = {0, 0, 0, 0};
  void tr(int op, int v) {
    mc::transition();
    mc::Hash h;
    h.range(color);
    for (auto& f : st)
      h.add(f.first * 1000 + f.second);
    mc::state(h.h);
    order.push_back(op * 100000 + v);
  }
  void init(int u) {
    tr(8, u);
    MC_CHECK(u == src && inits == 0 && starts == 0, "initialize event for " << u);
    ++inits;
  }
  void start(int u) {
    tr(0, u);
    MC_CHECK(inits == 1, "start event before the source was initialized");
    MC_CHECK(u == src && starts == 0 && disc[u] == 0, "start event for " << u);
    ++starts;
  }
  void discover(int u) {
    tr(1, u);
    MC_CHECK(color[u] == 0, "vertex " << u << " discovered twice");
    if (st.empty()) {
      MC_CHECK(u == src && examined == 0, "root discovery of " << u);
      MC_CHECK(starts == 1, "source discovered before start event");
    } else {
      MC_CHECK(need_disc && u == ev, "unexpected discovery of " << u);
      need_disc = false;
    }
    color[u] = 1;
    ++disc[u];
    ph = IDLE;
    st.push_back({u, 0});
  }
  void settle() {
    MC_CHECK(ph != EXAMINED, "edge " << eu << "->" << ev << " was not classified");
    MC_CHECK(!need_disc, "target " << ev << " of a tree edge was not discovered");
  }
  void edge(int u, int v, long w) {
    tr(2, v);
    settle();
    MC_CHECK(!st.empty() && st.back().first == u, "edge of " << u << " examined while another vertex is deepest");
    auto& pos = st.back().second;
    MC_CHECK(pos < adj[u].size() && adj[u][pos].first == v && adj[u][pos].second == w, "edges of " << u << " not examined in stored order");
    ++pos;
    ++examined;
    ph = EXAMINED;
    eu = u;
    ev = v;
    ++open[{u, v}];
  }
  void classify(int k, int u, int v) {
    tr(2 + k, v);
    MC_CHECK(ph == EXAMINED && u == eu && v == ev, "classification of " << u << "->" << v << " without examination");
    int want = color[v] == 0 ? 1 : color[v] == 1 ? 2 : 3;
    MC_CHECK(k == want, "edge " << u << "->" << v << " classified " << k << " expected " << want << " (1 tree 2 back 3 forward/cross)");
    ph = CLASSIFIED;
    ++kinds[k];
    ++classified;
    need_disc = k == 1;
  }
  void finish_edge(int u, int v) {
    tr(6, v);
    MC_CHECK(ph != EXAMINED || u != eu || v != ev || open[std::pair(u, v)] > 1, "edge finished before classification");
    auto& c = open[{u, v}];
    MC_CHECK(c > 0, "edge " << u << "->" << v << " finished but not examined or finished twice");
    --c;
    ++finished_edges;
  }
  void finish(int u) {
    tr(7, u);
    settle();
    MC_CHECK(!st.empty() && st.back().first == u, "vertex " << u << " finished out of nesting order");
    MC_CHECK(st.back().second == adj[u].size(), "vertex " << u << " finished with unexamined edges");
    color[u] = 2;
    ++fin[u];
    st.pop_back();
  }
};
struct VisE {
  Mon& m;
#define EV(name, call)                                                                                                 \
  void name(const auto& g, const auto& e) {                                                                            \
    int u = (int)graph::source_id(g, e), v = (int)graph::target_id(g, e);                                              \
    (void)u, (void)v;                                                                                                  \
    call;                                                                                                              \
  }
  EV(on_examine_edge, m.edge(u, v, ew(g, e)))
  EV(on_tree_edge, m.classify(1, u, v))
  EV(on_back_edge, m.classify(2, u, v))
  EV(on_forward_or_cross_edge, m.classify(3, u, v))
  EV(on_finish_edge, m.finish_edge(u, v))
};
struct VisD : VisE {
  void on_initialize_vertex(const auto& g, const NotId auto& u) { m.init((int)graph::vertex_id(g, u)); }
  void on_start_vertex(const auto& g, const NotId auto& u) { m.start((int)graph::vertex_id(g, u)); }
  void on_discover_vertex(const auto& g, const NotId auto& u) { m.discover((int)graph::vertex_id(g, u)); }
  void on_finish_vertex(const auto& g, const NotId auto& u) { m.finish((int)graph::vertex_id(g, u)); }
};
struct VisI : VisE {
  void on_initialize_vertex(const auto&, const std::integral auto& u) { m.init((int)u); }
  void on_start_vertex(const auto&, const std::integral auto& u) { m.start((int)u); }
  void on_discover_vertex(const auto&, const std::integral auto& u) { m.discover((int)u); }
  void on_finish_vertex(const auto&, const std::integral auto& u) { m.finish((int)u); }
};
template <class G>
void check(G& g, int src, bool ids) {
  Mon m;
  m.adj    = read_adj(g);
  m.src    = src;
  size_t n = m.adj.size();
  m.color.assign(n, 0);
  m.disc.assign(n, 0);
  m.fin.assign(n, 0);
  using VId = graph::vertex_id_t<G>;
  if (ids) {
    VisI v{{m}};
    graph::depth_first_search(g, (VId)src, v);
  } else {
    VisD v{{m}};
    graph::depth_first_search(g, (VId)src, v);
  }
  mc::trace();
  mc::outcome(mc::Hash().range(m.order).h);
  m.settle();
  MC_CHECK(m.st.empty(), "search ended inside a vertex");
  auto     h = hops(m.adj, {src});
  uint64_t E = 0;
  for (size_t i = 0; i < n; ++i) {
    int want = h[i] >= 0;
    E += want ? m.adj[i].size() : 0;
    MC_CHECK(m.disc[i] == want && m.fin[i] == want, "vertex " << i << " discovered " << m.disc[i] << " finished " << m.fin[i] << " expected " << want);
  }
  MC_CHECK(m.examined == E && m.classified == E && m.finished_edges == E, "edges examined/classified/finished " << m.examined << "/" << m.classified << "/" << m.finished_edges << " of " << E);
  mc::count("back_edges", m.kinds[2]);
  mc::count("forward_or_cross_edges", m.kinds[3]);
  graph::depth_first_search(g, (VId)src); // no visitor
}
template <class G>
void one(mc::Suite& S, const EL& el, const char* cn, std::vector<int> srcs) {
  for (int src : srcs)
    S.run_case(
          mc::Hash().add(el.key()).add(src).add(std::string(cn)).h, [&] { return std::string(cn) + " " + el.str() + " source=" + std::to_string(src); },
          [&] {
            auto g = make<G>(el);
            if ((size_t)src >= graph::num_vertices(g))
              return;
            if (el.m())
              S.nontrivial();
            G& gg = g;
            check<G>(gg, src, true);
            check<G>(gg, src, false);
          });
}
#if PART == 1
MC_SUITE(digraphs) {
  for (int n = 1; n <= 3; ++n)
    gen::digraphs(n, true, [&](const EL& el) { one<vov_t<void>>(S, el, "vov", n == 1 ? std::vector{0} : n == 2 ? std::vector{0, 1} : std::vector{0, 1, 2}); });
  gen::digraphs(4, true, [&](const EL& el) { one<vov_t<void>>(S, el, "vov", {0, 3}); });
}
MC_SUITE(sequences) {
  for (int k = 1; k <= mc::tier(4, 5); ++k)
    gen::edge_sequences(3, k, [&](const EL& el) { one<vov_t<void>>(S, el, "vov", {0}); });
  for (int k = 1; k <= mc::tier(4, 5); ++k)
    gen::edge_sequences(4, k, [&](const EL& el) { one<vov_t<void>>(S, el, "vov", {0}); }, k <= 3);
}
MC_SUITE(five) {
  if (mc::thorough())
    gen::digraphs(5, false, [&](const EL& el) { one<vov_t<void>>(S, el, "vov", {0}); });
}
#elif PART == 2
MC_SUITE(id_limits) { // vertex ids that fill the whole range of the id type
  gen::id_limit_graphs([&](const EL& el, bool small) {
    for (int s : {0, 1, el.n - 1}) {
      one<csr_t<int, uint8_t>>(S, el, "csr/u8", {s});
      if (small)
        one<csr_t<int, int8_t>>(S, el, "csr/i8", {s});
    }
  });
}
MC_SUITE(families) {
  gen::families(mc::tier(70, 300), [&](const EL& el) {
    for (int s : {0, el.n / 2, el.n - 1}) {
      one<vov_t<int>>(S, el, "vov", {s});
      one<vov_t<int>>(S, gen::both(el), "vov/sym", {s});
    }
  });
}
#else
MC_SUITE(containers) {
  auto f = [&](const EL& el) {
    std::vector<int> src{0, 2};
#if PART == 3
    one<vov_t<int, uint8_t>>(S, el, "vov/u8", src);
    one<vol_t<int, size_t>>(S, el, "vol", src);
    one<vofl_t<int>>(S, el, "vofl", src);
#elif PART == 4
    one<vos_t<int>>(S, el, "vos", src);
    one<dov_t<int, int>>(S, el, "dov", src);
    one<csr_t<int>>(S, el, "csr", src);
#else
    one<vvi_t>(S, el, "vvi", src);
    one<vvp_t>(S, el, "vvp", src);
    one<ual_t<int>>(S, el, "ual", src);
    one<const vov_t<int>>(S, el, "const vov", src);
#endif
  };
  gen::digraphs(3, true, f);
  for (int k = 1; k <= 3; ++k)
    gen::edge_sequences(3, k, f);
}
#endif

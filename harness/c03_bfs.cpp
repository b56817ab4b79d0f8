// C03: breadth_first_search: event trace monitored by an automaton over exhaustively enumerated digraphs.
#include "algo_common.hpp"
#include <graph/algorithm/breadth_first_search.hpp>
using namespace ac;
using namespace cont;
template <class T>
concept NotId = !std::integral<T>;

struct Mon {
  std::vector<std::vector<std::pair<int, long>>> adj;
  std::vector<int>                               hop, disc, exam, fin, srcs, mult, inits;
  int                                            cur = -1, last_hop = 0, phase = 0; // phase 0: sources
  bool                                           need = false;
  int                                            need_v = -1;
  std::vector<std::pair<int, long>>              seen; // edges examined of cur
  std::vector<int>                               order;
  void tr(int op, int v) {
    mc::transition();
    mc::state(mc::Hash().range(disc).range(fin).add(cur + 1).add(seen.size()).h);
    order.push_back(op * 100000 + v);
  }
  void init(int u) {
    tr(5, u);
    MC_CHECK(phase == 0 && mult[u] > 0, "initialize event for " << u);
    ++inits[u];
  }
  void discover(int u) {
    tr(1, u);
    ++disc[u];
    if (phase == 0 && cur < 0) {
      MC_CHECK(disc[u] <= inits[u], "source " << u << " discovered before it was initialized");
      MC_CHECK(mult[u] > 0 && disc[u] <= mult[u], "source phase discovers " << u);
    } else {
      MC_CHECK(need && need_v == u, "unexpected discovery of " << u);
      MC_CHECK(disc[u] == 1, "vertex " << u << " discovered " << disc[u] << " times");
      need = false;
    }
  }
  void examine(int u) {
    tr(2, u);
    phase = 1;
    settle();
    MC_CHECK(cur < 0, "examine " << u << " inside " << cur);
    MC_CHECK(disc[u] > 0, "examined before discovered: " << u);
    ++exam[u];
    MC_CHECK(hop[u] >= 0, "examined unreachable " << u);
    MC_CHECK(hop[u] >= last_hop, "vertex " << u << " at hop " << hop[u] << " examined after hop " << last_hop);
    last_hop = hop[u];
    cur      = u;
    seen.clear();
  }
  void settle() { MC_CHECK(!need, "newly reached vertex " << need_v << " was not discovered"); }
  void edge(int u, int v, long w) {
    tr(3, v);
    settle();
    MC_CHECK(u == cur, "edge of " << u << " examined during " << cur);
    seen.push_back({v, w});
    if (!disc[v]) {
      need   = true;
      need_v = v;
    }
  }
  void finish(int u) {
    tr(4, u);
    settle();
    MC_CHECK(u == cur, "finish " << u << " during " << cur);
    ++fin[u];
    auto a = adj[u];
    auto b = seen;
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    MC_CHECK(a == b, "edges examined at " << u << " are not its outgoing edges, each once");
    cur = -1;
  }
};
struct VisE {
  Mon& m;
  void on_examine_edge(const auto& g, const auto& e) { m.edge((int)graph::source_id(g, e), (int)graph::target_id(g, e), ew(g, e)); }
};
struct VisD : VisE {
  void on_initialize_vertex(const auto& g, const NotId auto& u) { m.init((int)graph::vertex_id(g, u)); }
  void on_discover_vertex(const auto& g, const NotId auto& u) { m.discover((int)graph::vertex_id(g, u)); }
  void on_examine_vertex(const auto& g, const NotId auto& u) { m.examine((int)graph::vertex_id(g, u)); }
  void on_finish_vertex(const auto& g, const NotId auto& u) { m.finish((int)graph::vertex_id(g, u)); }
};
struct VisI : VisE {
  void on_initialize_vertex(const auto&, const std::integral auto& u) { m.init((int)u); }
  void on_discover_vertex(const auto&, const std::integral auto& u) { m.discover((int)u); }
  void on_examine_vertex(const auto&, const std::integral auto& u) { m.examine((int)u); }
  void on_finish_vertex(const auto&, const std::integral auto& u) { m.finish((int)u); }
};
struct PartialVis { // only some callbacks present
  std::vector<int>& d;
  void              on_discover_vertex(const auto&, const std::integral auto& u) { d.push_back((int)u); }
};

template <class G>
void check(G& g, const std::vector<int>& src, bool ids, bool single) {
  Mon m;
  m.adj   = read_adj(g);
  size_t n = m.adj.size();
  m.hop   = hops(m.adj, src);
  m.disc.assign(n, 0);
  m.exam.assign(n, 0);
  m.fin.assign(n, 0);
  m.inits.assign(n, 0);
  m.mult.assign(n, 0);
  for (int s : src)
    ++m.mult[s];
  m.srcs = src;
  bool dup = std::any_of(m.mult.begin(), m.mult.end(), [](int x) { return x > 1; });
  using VId = graph::vertex_id_t<G>;
  std::vector<VId> s(src.begin(), src.end());
  auto             run = [&](auto& v) {
    if (single)
      graph::breadth_first_search(g, s[0], v);
    else
      graph::breadth_first_search(g, s, v);
    m.settle();
    MC_CHECK(m.cur < 0, "last examination not finished");
  };
  if (ids) {
    VisI v{{m}};
    run(v);
  } else {
    VisD v{{m}};
    run(v);
  }
  mc::trace();
  mc::outcome(mc::Hash().range(m.order).h);
  for (size_t i = 0; i < n; ++i)
    MC_CHECK(m.inits[i] == m.mult[i], "vertex " << i << " initialized " << m.inits[i] << " times, it is " << m.mult[i] << " times a source");
  for (size_t i = 0; i < n; ++i) {
    int want = m.hop[i] >= 0 ? std::max(1, m.mult[i]) : 0;
    if (!dup) {
      MC_CHECK(m.disc[i] == want && m.exam[i] == want && m.fin[i] == want,
               "vertex " << i << " discovered/examined/finished " << m.disc[i] << "/" << m.exam[i] << "/" << m.fin[i] << " expected " << want);
    } else {
      MC_CHECK((m.disc[i] > 0) == (want > 0) && m.exam[i] == m.disc[i] && m.fin[i] == m.disc[i], "vertex " << i << " events with duplicate sources");
    }
  }
  std::vector<int> d;
  PartialVis       pv{d};
  graph::breadth_first_search(g, s, pv);
  std::sort(d.begin(), d.end());
  d.erase(std::unique(d.begin(), d.end()), d.end());
  std::vector<int> want;
  for (size_t i = 0; i < n; ++i)
    if (m.hop[i] >= 0)
      want.push_back((int)i);
  MC_CHECK(d == want, "discovered set " << mc::str(d) << " expected " << mc::str(want));
  if (single)
    graph::breadth_first_search(g, s[0]);
}
template <class G>
void one(mc::Suite& S, const EL& el, const char* cn, std::vector<std::vector<int>> srcs) {
  for (auto& src : srcs)
    S.run_case(
          mc::Hash().add(el.key()).range(src).add(std::string(cn)).h, [&] { return std::string(cn) + " " + el.str() + " sources=" + mc::str(src); },
          [&] {
            auto g = make<G>(el);
            for (int s : src)
              if ((size_t)s >= graph::num_vertices(g))
                return;
            if (el.m())
              S.nontrivial();
            G& gg = g;
            if (src.size() <= 1) {
              check<G>(gg, src, true, src.size() == 1);
              check<G>(gg, src, false, src.size() == 1);
              if (src.size() == 1)
                check<G>(gg, src, el.key() & 1, false);
            } else
              check<G>(gg, src, el.key() & 1, false);
          });
}
std::vector<std::vector<int>> all_sources(int n) {
  std::vector<std::vector<int>> r;
  r.push_back({});
  for (int m = 1; m < (1 << n); ++m) {
    std::vector<int> s;
    for (int i = 0; i < n; ++i)
      if (m >> i & 1)
        s.push_back(i);
    r.push_back(s);
    if (s.size() > 1) {
      std::reverse(s.begin(), s.end());
      r.push_back(s);
    }
  }
  r.push_back({0, 0});
  return r;
}
#if PART == 1
MC_SUITE(digraphs) {
  for (int n = 1; n <= 3; ++n)
    gen::digraphs(n, true, [&](const EL& el) { one<vov_t<void>>(S, el, "vov", all_sources(n)); });
  gen::digraphs(4, true, [&](const EL& el) { one<vov_t<void>>(S, el, "vov", {{0}, {2, 1}}); });
}
MC_SUITE(sequences) {
  for (int k = 1; k <= mc::tier(4, 5); ++k)
    gen::edge_sequences(3, k, [&](const EL& el) { one<vov_t<void>>(S, el, "vov", {{0}, {1, 2}}); });
  for (int k = 1; k <= mc::tier(4, 5); ++k)
    gen::edge_sequences(4, k, [&](const EL& el) { one<vov_t<void>>(S, el, "vov", {{0}}); }, k <= 3);
}
MC_SUITE(five) {
  if (mc::thorough())
    gen::digraphs(5, false, [&](const EL& el) { one<vov_t<void>>(S, el, "vov", {{0}, {4, 2}}); });
}
#elif PART == 2
MC_SUITE(id_limits) { // vertex ids that fill the whole range of the id type
  gen::id_limit_graphs([&](const EL& el, bool small) {
    for (int s : {0, 1, el.n - 1}) {
      one<csr_t<int, uint8_t>>(S, el, "csr/u8", {{s}, {0, s}});
      if (small)
        one<csr_t<int, int8_t>>(S, el, "csr/i8", {{s}, {0, s}});
    }
  });
}
MC_SUITE(families) {
  gen::families(mc::tier(70, 300), [&](const EL& el) {
    for (int s : {0, el.n / 2, el.n - 1}) {
      one<vov_t<int>>(S, el, "vov", {{s}, {s, (s + 1) % el.n}});
      one<vov_t<int>>(S, gen::both(el), "vov/sym", {{s}, {s, (s + 1) % el.n}});
    }
  });
}
#else
MC_SUITE(containers) {
  auto f = [&](const EL& el) {
    std::vector<std::vector<int>> src{{0}, {2}, {1, 2}};
#if PART == 3
    one<vov_t<int, uint8_t>>(S, el, "vov/u8", src);
    one<vol_t<int, size_t>>(S, el, "vol", src);
    one<vofl_t<int>>(S, el, "vofl", src);
#elif PART == 4
    one<vos_t<int>>(S, el, "vos", src);
    one<dov_t<int, int>>(S, el, "dov", src);
    one<csr_t<int>>(S, el, "csr", src);
#else
    one<vvi_t>(S, el, "vvi", src);
    one<vvp_t>(S, el, "vvp", src);
    one<ual_t<int>>(S, el, "ual", src);
    one<const vov_t<int>>(S, el, "const vov", src);
#endif
  };
  gen::digraphs(3, true, f);
  for (int k = 1; k <= 3; ++k)
    gen::edge_sequences(3, k, f);
}
#endif

// C05: topological_sort (whole graph / one source / several sources) over enumerated digraphs.
#include "algo_common.hpp"
#include <graph/algorithm/topological_sort.hpp>
#include <list>
using namespace ac;
using namespace cont;

// cyclic part reachable from srcs? (reference: Warshall-style closure without reflexivity)
template <class A>
bool cyclic_from(const A& a, const std::vector<int>& h) {
  int                            n = (int)a.size();
  std::vector<std::vector<char>> r(n, std::vector<char>(n, 0));
  for (int i = 0; i < n; ++i)
    for (auto& [v, w] : a[i])
      r[i][v] = 1;
  for (int k = 0; k < n; ++k)
    for (int i = 0; i < n; ++i)
      if (r[i][k])
        for (int j = 0; j < n; ++j)
          r[i][j] |= r[k][j];
  for (int i = 0; i < n; ++i)
    if (h[i] >= 0 && r[i][i])
      return true;
  return false;
}
template <class A, class R>
void validate(const A& a, const std::vector<int>& h, bool ok, const R& out, const char* form) {
  bool cyc = cyclic_from(a, h);
  mc::trace();
  mc::count(cyc ? "cyclic" : "acyclic");
  mc::outcome(mc::Hash().add(cyc).range(out).h);
  MC_CHECK(ok == !cyc, form << " returned " << ok << " but the relevant part is " << (cyc ? "cyclic" : "acyclic"));
  if (cyc)
    return;
  std::vector<int> pos(a.size(), -1);
  int              i = 0;
  for (auto x : out) {
    MC_CHECK((size_t)x < a.size(), form << " emitted a non-vertex " << (long)x);
    MC_CHECK(pos[(size_t)x] < 0, form << " emitted vertex " << (long)x << " twice");
    pos[(size_t)x] = i++;
    mc::transition();
  }
  for (size_t u = 0; u < a.size(); ++u) {
    MC_CHECK((pos[u] >= 0) == (h[u] >= 0), form << ": vertex " << u << (h[u] >= 0 ? " missing from the order" : " is not reachable but was emitted"));
    if (h[u] < 0)
      continue;
    for (auto& [v, w] : a[u])
      MC_CHECK(pos[u] < pos[v], form << ": edge " << u << "->" << v << " goes backwards");
  }
}
template <class G>
void check(const G& g, const std::vector<int>& srcs, bool whole) {
  using VId = graph::vertex_id_t<G>;
  auto a    = read_adj(g);
  input_state(a);
  if (whole) {
    std::vector<int> all(a.size(), 0);
    std::vector<VId> out;
    bool             ok = graph::topological_sort(g, std::back_inserter(out));
    validate(a, all, ok, out, "whole");
    // a raw output iterator into an exactly sized buffer
    std::vector<VId> raw(a.size());
    if (!cyclic_from(a, all)) {
      MC_CHECK(graph::topological_sort(g, raw.begin()), "second run differs");
      MC_CHECK(raw == out, "not repeatable");
    }
    return;
  }
  std::vector<VId> vs;
  for (int s : srcs)
    vs.push_back((VId)s);
  auto             h = hops(a, srcs);
  std::vector<VId> out;
  bool             ok = graph::topological_sort(g, vs, std::back_inserter(out));
  validate(a, h, ok, out, "sources");
  if (srcs.size() == 1) {
    std::vector<VId> o2;
    ok = graph::topological_sort(g, (VId)srcs[0], std::back_inserter(o2));
    validate(a, h, ok, o2, "single source");
    std::list<VId>   l(vs.begin(), vs.end());
    std::vector<VId> o3;
    ok = graph::topological_sort(g, l, std::back_inserter(o3));
    validate(a, h, ok, o3, "source list");
  }
}
template <class G>
void one(mc::Suite& S, const EL& el, const char* cn, const std::vector<std::vector<int>>& srcs) {
  auto run = [&](const std::vector<int>& s, bool whole) {
    S.run_case(
          mc::Hash().add(el.key()).range(s).add(std::string(cn)).add(whole).h,
          [&] { return std::string(cn) + " " + el.str() + (whole ? " whole" : " sources=" + mc::str(s)); },
          [&] {
            const auto g = make<G>(el);
            for (int x : s)
              if ((size_t)x >= graph::num_vertices(g))
                return;
            if (el.m())
              S.nontrivial();
            check(g, s, whole);
          });
  };
  run({}, true);
  for (auto& s : srcs)
    run(s, false);
}
static std::vector<std::vector<int>> lists(int n, int maxlen) { // every source list up to maxlen, duplicates included
  std::vector<std::vector<int>> r{{}}, cur{{}};
  for (int l = 0; l < maxlen; ++l) {
    std::vector<std::vector<int>> nx;
    for (auto& c : cur)
      for (int v = 0; v < n; ++v) {
        auto d = c;
        d.push_back(v);
        nx.push_back(d);
      }
    r.insert(r.end(), nx.begin(), nx.end());
    cur = nx;
  }
  return r;
}
#if PART == 1
MC_SUITE(digraphs) {
  for (int n = 0; n <= 3; ++n)
    gen::digraphs(n, true, [&](const EL& el) { one<vov_t<void>>(S, el, "vov", lists(n, 3)); });
  gen::digraphs(4, true, [&](const EL& el) {
    bool loopy = std::any_of(el.e.begin(), el.e.end(), [](auto& x) { return x.u == x.v; });
    one<vov_t<void>>(S, el, "vov", loopy ? lists(0, 0) : lists(4, 2));
  });
}
MC_SUITE(dags5) { // every DAG on 5 vertices up to the vertex order: all upper-triangular graphs x relabelings
  std::vector<std::vector<int>> perms;
  gen::permutations(5, [&](auto& p) {
    if (mc::thorough() || perms.size() < 1 || (p[0] * 7 + p[1] * 3 + p[2]) % 11 == 0)
      perms.push_back(p);
  });
  gen::ugraphs(5, false, [&](const EL& el) {
    for (auto& p : perms)
      one<vov_t<void>>(S, gen::relabel(el, p), "vov", {{0}, {4, 2}});
  });
  if (mc::thorough())
    gen::digraphs(5, false, [&](const EL& el) { one<vov_t<void>>(S, el, "vov", {{0}, {1, 0}}); });
}
MC_SUITE(sequences) {
  for (int k = 1; k <= mc::tier(4, 5); ++k)
    gen::edge_sequences(3, k, [&](const EL& el) { one<vov_t<void>>(S, el, "vov", {{0}, {2, 1}}); });
  for (int k = 2; k <= mc::tier(4, 5); ++k)
    gen::edge_sequences(4, k, [&](const EL& el) { one<vov_t<void>>(S, el, "vov", {{0}, {3, 1}}); }, false);
}
#elif PART == 2
MC_SUITE(id_limits) { // vertex ids that fill the whole range of the id type
  gen::id_limit_graphs([&](const EL& el, bool small) {
    for (int s : {0, 1, el.n - 1}) {
      one<csr_t<int, uint8_t>>(S, el, "csr/u8", {{s}});
      if (small)
        one<csr_t<int, int8_t>>(S, el, "csr/i8", {{s}});
    }
  });
}
MC_SUITE(families) {
  gen::families(mc::tier(70, 300), [&](const EL& el) {
    for (int k = 0; k < 3; ++k) {
      one<vov_t<int>>(S, gen::reorder(el, k), "vov", {{0}, {el.n - 1, 0}, {el.n / 2, 0, el.n / 2}});
      EL d = el; // orient to a DAG
      for (auto& x : d.e)
        if (x.u > x.v)
          std::swap(x.u, x.v);
      one<vov_t<int>>(S, gen::reorder(d, k), "vov/dag", {{0}, {el.n - 1, 0}, {el.n / 2, 0, el.n / 2}});
    }
  });
}
#else
MC_SUITE(containers) {
  auto f = [&](const EL& el) {
    std::vector<std::vector<int>> src{{0}, {2, 0}, {1, 1}};
#if PART == 3
    one<vov_t<int, uint8_t>>(S, el, "vov/u8", src);
    one<vol_t<int, size_t>>(S, el, "vol", src);
    one<vofl_t<int>>(S, el, "vofl", src);
#elif PART == 4
    one<vos_t<int>>(S, el, "vos", src);
    one<dov_t<int, int>>(S, el, "dov", src);
    one<csr_t<int>>(S, el, "csr", src);
#else
    one<vvi_t>(S, el, "vvi", src);
    one<vvp_t>(S, el, "vvp", src);
    one<ual_t<int>>(S, el, "ual", src);
    one<vous_t<void>>(S, el, "vous", src);
#endif
  };
  gen::digraphs(3, true, f);
  gen::edge_sequences(3, 3, f);
  gen::ugraphs(4, false, [&](const EL& e) { f(e); f(gen::reversed(e)); f(gen::relabel(e, {2, 0, 3, 1})); });
}
#endif

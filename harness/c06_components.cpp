// C06: connected_components and afforest (both overloads) against the partition computed by the reference.
#include "algo_common.hpp"
#include <deque>
#include <graph/algorithm/connected_components.hpp>
using namespace ac;
using namespace cont;

template <class C>
void same_partition(const C& comp, const std::vector<int>& ref, const char* form) {
  std::map<long, int> to;
  std::map<int, long> back;
  for (size_t i = 0; i < ref.size(); ++i) {
    long c = (long)comp[i];
    mc::transition();
    auto [a, x] = to.emplace(c, ref[i]);
    auto [b, y] = back.emplace(ref[i], c);
    MC_CHECK(a->second == ref[i], form << ": vertex " << i << " shares label " << c << " with a vertex it is not connected to; labels " << mc::str(comp));
    MC_CHECK(b->second == c, form << ": vertex " << i << " has label " << c << " but its component has label " << b->second << "; labels " << mc::str(comp));
  }
}
template <class A>
std::vector<int> weak(const A& a) {
  std::vector<int> c(a.size());
  std::iota(c.begin(), c.end(), 0);
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t u = 0; u < a.size(); ++u)
      for (auto& [v, w] : a[u]) {
        int m = std::min(c[u], c[v]);
        if (c[u] != m || c[v] != m)
          c[u] = c[v] = m, ch = true;
      }
  }
  return c;
}
template <class CT, class G>
void cc(const G& g, const std::vector<int>& ref, size_t extra) {
  const size_t n = ref.size();
  std::vector<CT> comp(n + extra, CT(7));
  size_t k = graph::connected_components(g, comp);
  mc::trace();
  same_partition(comp, ref, "connected_components");
  std::set<CT> ids(comp.begin(), comp.begin() + n);
  MC_CHECK(k == ids.size(), "returned " << k << " components, labels show " << ids.size());
  if (n)
    MC_CHECK(*ids.rbegin() == CT(ids.size() - 1) && *ids.begin() == CT(0), "labels are not 0..k-1: " << mc::str(comp));
  mc::outcome(mc::Hash().range(comp).h);
}
// undirected storage
template <class G>
void und(mc::Suite& S, const EL& el, const char* cn, std::vector<int> rounds, bool wide = false) {
  S.run_case(
        mc::Hash().add(el.key()).add(std::string(cn)).h, [&] { return std::string(cn) + " " + el.str(); },
        [&] {
          const G g = make<G>(Ual<G> ? el : gen::both(el));
          auto    a = read_adj(g);
          input_state(a);
          if (el.m())
            S.nontrivial();
          auto ref = weak(a);
          cc<size_t>(g, ref, 0);
          if (wide) {
            cc<uint8_t>(g, ref, 0);
            cc<int>(g, ref, 2);
          }
          using VId = graph::vertex_id_t<G>;
          if (a.empty())
            return; // see the empty suite
          for (int r : rounds) {
            std::vector<VId> comp(a.size(), VId(3));
            graph::afforest(g, comp, (size_t)r);
            mc::trace();
            same_partition(comp, ref, "afforest");
            mc::outcome(mc::Hash().range(comp).h);
          }
          std::vector<VId> comp(a.size());
          graph::afforest(g, comp);
          same_partition(comp, ref, "afforest(default rounds)");
        });
}
// directed storage + transpose
template <class G>
void dir(mc::Suite& S, const EL& el, const char* cn, std::vector<int> rounds) {
  S.run_case(
        mc::Hash().add(el.key()).add(std::string(cn)).add(99).h, [&] { return std::string(cn) + " directed+transpose " + el.str(); },
        [&] {
          const G g  = make<G>(el);
          const G gt = make<G>(gen::reversed(el));
          auto    a  = read_adj(g);
          input_state(a);
          if (el.m())
            S.nontrivial();
          if (a.empty() || graph::num_vertices(gt) != a.size())
            return;
          auto ref  = weak(a);
          using VId = graph::vertex_id_t<G>;
          for (int r : rounds) {
            std::vector<VId> comp(a.size(), VId(3));
            graph::afforest(g, gt, comp, (size_t)r);
            mc::trace();
            same_partition(comp, ref, "afforest(g,g_t)");
            mc::outcome(mc::Hash().range(comp).h);
          }
          std::vector<VId> comp(a.size());
          graph::afforest(g, gt, comp);
          same_partition(comp, ref, "afforest(g,g_t,default rounds)");
        });
}
#if PART == 1
MC_SUITE(ugraphs) {
  for (int n = 1; n <= 3; ++n)
    gen::ugraphs(n, true, [&](const EL& el) { und<vov_t<void>>(S, el, "vov", {0, 1, 2, 3}, true); });
  gen::ugraphs(4, true, [&](const EL& el) {
    for (int k = 0; k < 4; ++k)
      und<vov_t<void>>(S, gen::reorder(el, k), "vov", {0, 1, 2, 3}, true);
  });
  gen::ugraphs(5, false, [&](const EL& el) {
    for (int k = 0; k < mc::tier(4, 24); ++k)
      und<vov_t<void>>(S, gen::reorder(el, k), "vov", {0, 1, 2, 3});
  });
  if (mc::thorough())
    gen::ugraphs(6, false, [&](const EL& el) {
      for (int k = 0; k < 2; ++k)
        und<vov_t<void>>(S, gen::reorder(el, k), "vov", {0, 1, 2});
    });
}
MC_SUITE(sequences) {
  for (int k = 1; k <= mc::tier(4, 5); ++k)
    gen::uedge_sequences(4, k, [&](const EL& el) { und<vov_t<void>>(S, el, "vov", {0, 1, 2}); });
  for (int k = 2; k <= mc::tier(4, 5); ++k)
    gen::uedge_sequences(5, k, [&](const EL& el) { und<vov_t<void>>(S, el, "vov", {0, 1}); }, false);
}
#elif PART == 2
MC_SUITE(directed) {
  for (int n = 1; n <= 3; ++n)
    gen::digraphs(n, true, [&](const EL& el) { dir<vov_t<void>>(S, el, "vov", {0, 1, 2, 3}); });
  gen::digraphs(4, false, [&](const EL& el) {
    for (int k = 0; k < mc::tier(2, 12); ++k)
      dir<vov_t<void>>(S, gen::reorder(el, k), "vov", {0, 1, 2, 3});
  });
  for (int k = 1; k <= mc::tier(4, 5); ++k)
    gen::edge_sequences(4, k, [&](const EL& el) { dir<vov_t<void>>(S, el, "vov", {0, 1, 2}); }, false);
  if (mc::thorough())
    gen::digraphs(5, false, [&](const EL& el) {
      if (el.m() <= 8)
        dir<vov_t<void>>(S, el, "vov", {0, 1, 2});
    });
}
#elif PART == 3
MC_SUITE(id_limits) { // vertex ids that fill the whole range of the id type
  gen::id_limit_graphs([&](const EL& el, bool) {
    S.run_case(el.key(), [&] { return "csr/u8 " + el.str(); }, [&] {
      S.nontrivial();
      const auto       g = make<csr_t<int, uint8_t>>(gen::both(el));
      std::vector<int> comp(el.n, 5);
      size_t           k = graph::connected_components(g, comp);
      MC_CHECK(k == 1, k << " components");
      for (int c : comp)
        MC_CHECK(c == 0, "component " << c);
    });
  });
}
MC_SUITE(families) { // many components and large ids: hooking order, sampling and skipping
  gen::families(mc::tier(120, 700), [&](const EL& el) {
    for (int k = 0; k < 2; ++k) {
      und<vov_t<int>>(S, gen::reorder(el, k), "vov", {0, 1, 2, 3});
      dir<vov_t<int>>(S, gen::reorder(el, k), "vov", {0, 1, 2, 3});
      // two disjoint copies with interleaved ids
      EL two{el.n * 2, {}};
      for (auto& x : el.e) {
        two.e.push_back({x.u * 2, x.v * 2, 0});
        two.e.push_back({x.v * 2 + 1, x.u * 2 + 1, 0});
      }
      und<vov_t<int>>(S, gen::reorder(two, k), "vov", {0, 1, 2});
      dir<vov_t<int>>(S, gen::reorder(two, k), "vov", {0, 1, 2});
    }
  });
}
MC_SUITE(empty) { // documented: nothing to label
  S.run_case(1, [] { return std::string("empty graph"); }, [&] {
    const vov_t<int>    g;
    std::vector<size_t> c;
    S.nontrivial();
    MC_CHECK(graph::connected_components(g, c) == 0, "empty graph has components");
    std::vector<size_t> d;
    graph::afforest(g, d);
    graph::afforest(g, g, d);
  });
}
#else
MC_SUITE(containers) {
  auto f = [&](const EL& el) {
#if PART == 4
    und<vol_t<int, size_t>>(S, el, "vol", {0, 1, 2});
    und<vod_t<int>>(S, el, "vod", {0, 1, 2});
    und<ual_t<int>>(S, el, "ual", {0, 1, 2});
    dir<vos_t<int, size_t>>(S, el, "vos", {0, 1, 2});
#else
    und<vvi_t>(S, el, "vvi", {0, 1, 2});
    und<csr_t<int>>(S, el, "csr", {0, 1, 2});
    und<dov_t<int, int>>(S, el, "dov", {0, 1, 2});
    dir<csr_t<int, size_t>>(S, el, "csr", {0, 1, 2});
#endif
  };
  for (int n = 1; n <= 3; ++n)
    gen::ugraphs(n, true, f);
  gen::ugraphs(4, false, [&](const EL& el) { f(el); f(gen::reorder(el, 1)); });
  gen::uedge_sequences(3, 3, f);
}
#endif

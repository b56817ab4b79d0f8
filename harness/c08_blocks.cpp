// C08/C09: articulation_points and biconnected_components over enumerated undirected multigraphs.
//   WHAT=8: cut vertices by deletion;  WHAT=9: blocks by the "lie on a common cycle" relation of edges.
#include "algo_common.hpp"
#include <graph/algorithm/articulation_points.hpp>
#include <graph/algorithm/biconnected_components.hpp>
#include <deque>
#include <list>
using namespace ac;
using namespace cont;

#if WHAT == 8
template <class G>
void judge(const G& g, const EL& el) {
  using VId = graph::vertex_id_t<G>;
  std::vector<VId> out;
  graph::articulation_points(g, std::back_inserter(out));
  mc::trace();
  std::set<long> ref, got;
  int            base = ncomp(el);
  for (int v = 0; v < el.n; ++v) {
    // components after deletion, not counting the deleted vertex
    if (ncomp(el, v) > base)
      ref.insert(v);
  }
  for (auto v : out) {
    mc::transition();
    MC_CHECK(got.insert((long)v).second, "vertex " << (long)v << " emitted twice");
  }
  mc::outcome(mc::Hash().range(got).h);
  MC_CHECK(got == ref, "cut vertices " << mc::str(got) << " expected " << mc::str(ref));
}
#else
// reference blocks: for every pair of proper edges, same block iff equal ends or on a common simple cycle.  Equivalent
// characterisation used here: remove each vertex c in turn; two neighbours-classes ... computed as: edges e,f are in the same
// block iff no single vertex separates them (checked for all c), closed transitively over shared structure.
inline std::set<std::set<int>> ref_blocks(const EL& el) {
  std::set<std::pair<int, int>> es;
  for (auto& x : el.e)
    if (x.u != x.v)
      es.insert({std::min(x.u, x.v), std::max(x.u, x.v)});
  std::vector<std::pair<int, int>> e(es.begin(), es.end());
  const int                        m = (int)e.size();
  // comp[c][v]: component of v after deleting c
  std::vector<std::vector<int>> comp(el.n + 1);
  for (int c = 0; c <= el.n; ++c)
    comp[c] = ucomp(el, c == el.n ? -1 : c);
  auto side = [&](int c, int i) { // the component an edge falls into once c is deleted
    return e[i].first == c ? comp[c][e[i].second] : comp[c][e[i].first];
  };
  std::set<std::set<int>> blocks;
  std::vector<int>        done(m, 0);
  for (int i = 0; i < m; ++i) {
    if (done[i])
      continue;
    std::set<int> b{e[i].first, e[i].second};
    for (int j = 0; j < m; ++j) { // not separated by any vertex <=> same block
      bool same = comp[el.n][e[i].first] == comp[el.n][e[j].first];
      for (int c = 0; c < el.n && same; ++c)
        same = side(c, i) == side(c, j);
      if (same) {
        done[j] = 1;
        b.insert(e[j].first);
        b.insert(e[j].second);
      }
    }
    blocks.insert(b);
  }
  std::vector<char> has(el.n, 0);
  for (auto& [u, v] : e)
    has[u] = has[v] = 1;
  for (int v = 0; v < el.n; ++v)
    if (!has[v])
      blocks.insert({v});
  return blocks;
}
template <class C>
void compare(const C& comps, const std::set<std::set<int>>& ref) {
  std::set<std::set<int>> got;
  for (auto& c : comps) {
    mc::transition();
    std::set<int> s;
    for (auto v : c)
      MC_CHECK(s.insert((int)v).second, "vertex " << (long)v << " listed twice in a block");
    MC_CHECK(got.insert(s).second, "block " << mc::str(s) << " reported twice");
  }
  for (auto& b : ref)
    MC_CHECK(got.count(b), "block " << mc::str(b) << " not reported");
  for (auto& b : got)
    MC_CHECK(ref.count(b), "reported " << mc::str(b) << " which is not a block");
  mc::Hash h;
  for (auto& b : got)
    h.range(b);
  mc::outcome(h.h);
}
template <class G>
void judge(const G& g, const EL& el) {
  using VId = graph::vertex_id_t<G>;
  auto                          ref = ref_blocks(el);
  std::vector<std::vector<VId>> out;
  graph::biconnected_components(g, out);
  mc::trace();
  compare(out, ref);
  std::list<std::deque<size_t>> out2;
  graph::biconnected_components(g, out2);
  mc::trace();
  compare(out2, ref);
}
#endif
template <class G>
void one(mc::Suite& S, const EL& el, const char* cn) {
  S.run_case(
        mc::Hash().add(el.key()).add(std::string(cn)).h, [&] { return std::string(cn) + " " + el.str(); },
        [&] {
          const G g = make<G>(Ual<G> ? el : gen::both(el));
          auto    a = read_adj(g);
          input_state(a);
          if (el.m())
            S.nontrivial();
          EL e2 = el;
          e2.n  = (int)a.size();
          judge(g, e2);
        });
}
using V = vov_t<void>;
#if PART == 1
MC_SUITE(ugraphs) {
  for (int n = 0; n <= 3; ++n)
    gen::ugraphs(n, true, [&](const EL& el) { one<V>(S, el, "vov"); });
  gen::ugraphs(4, true, [&](const EL& el) {
    for (int k = 0; k < 3; ++k)
      one<V>(S, gen::reorder(el, k), "vov");
  });
  gen::ugraphs(5, false, [&](const EL& el) {
    for (int k = 0; k < mc::tier(8, 60); ++k)
      one<V>(S, gen::reorder(el, k), "vov");
  });
  gen::ugraphs(6, false, [&](const EL& el) {
    for (int k = 0; k < mc::tier(1, 6); ++k)
      one<V>(S, gen::reorder(el, k), "vov");
  });
}
MC_SUITE(sequences) { // multigraphs: every order of parallel edges and self-loops
  for (int k = 1; k <= 5; ++k)
    gen::uedge_sequences(3, k, [&](const EL& el) { one<V>(S, el, "vov"); });
  for (int k = 1; k <= mc::tier(4, 5); ++k)
    gen::uedge_sequences(4, k, [&](const EL& el) { one<V>(S, el, "vov"); });
  for (int k = 3; k <= mc::tier(4, 5); ++k)
    gen::uedge_sequences(5, k, [&](const EL& el) { one<V>(S, el, "vov"); }, false);
}
#elif PART == 2
MC_SUITE(families) {
  gen::families(mc::tier(60, 200), [&](const EL& el) {
    for (int k = 0; k < 3; ++k) {
      one<V>(S, gen::reorder(el, k), "vov");
      EL d = gen::reorder(el, k); // double every third edge, loop every fifth vertex
      for (int i = 0, m = d.m(); i < m; i += 3)
        d.e.push_back(d.e[i]);
      for (int v = 0; v < d.n; v += 5)
        d.e.push_back({v, v, 0});
      one<V>(S, gen::reorder(d, k), "vov");
    }
  });
}
MC_SUITE(id_limits) { // ids that use the whole range of a small id type
  for (int n : {126, 127, 128, 129, 254, 255, 256}) {
    EL path{n, {}}, cyc{n, {}}, star{n, {}};
    for (int i = 0; i + 1 < n; ++i) {
      path.e.push_back({i, i + 1, 0});
      star.e.push_back({i, n - 1, 0});
    }
    cyc = path;
    cyc.e.push_back({n - 1, 0, 0});
    for (auto* e : {&path, &cyc, &star}) {
      if (n > 128)
        one<csr_t<void, uint8_t>>(S, *e, "csr/u8");
      else
        one<csr_t<void, int8_t>>(S, *e, "csr/i8");
    }
  }
}
#else
MC_SUITE(containers) {
  auto f = [&](const EL& el) {
#if PART == 3
    one<vol_t<int, size_t>>(S, el, "vol");
    one<vofl_t<int>>(S, el, "vofl");
    one<vous_t<int>>(S, el, "vous");
    one<ual_t<int>>(S, el, "ual");
#else
    one<vvi_t>(S, el, "vvi");
    one<csr_t<int, uint8_t>>(S, el, "csr");
    one<dov_t<int, int>>(S, el, "dov");
    one<vos_t<int, uint8_t>>(S, el, "vos");
#endif
  };
  for (int n = 1; n <= 3; ++n)
    gen::ugraphs(n, true, f);
  gen::ugraphs(4, true, f);
  gen::uedge_sequences(3, 3, f);
  gen::uedge_sequences(3, 4, f);
  gen::ugraphs(5, false, f);
}
#endif

// C07: kosaraju (transpose overload and incoming-edge overload) against mutual reachability.
#include "algo_common.hpp"
#include <graph/algorithm/connected_components.hpp>
using namespace ac;
using namespace cont;

template <class CT, class A>
void validate(const A& a, const std::vector<CT>& comp, const char* form) {
  auto   r = closure(a);
  size_t n = a.size();
  mc::trace();
  std::set<CT> ids(comp.begin(), comp.begin() + (long)n);
  for (size_t i = 0; i < n; ++i)
    for (size_t j = 0; j < n; ++j) {
      mc::transition();
      bool same = r[i][j] && r[j][i];
      MC_CHECK((comp[i] == comp[j]) == same, form << ": vertices " << i << " and " << j << (same ? " are mutually reachable but have labels " : " are not mutually reachable but share the label ") << mc::str(comp));
    }
  if (n)
    MC_CHECK(*ids.begin() == CT(0) && (size_t)*ids.rbegin() == ids.size() - 1, form << ": labels are not 0..k-1: " << mc::str(comp));
  mc::outcome(mc::Hash().range(comp).h);
}
template <class G>
void two(mc::Suite& S, const EL& el, const char* cn, bool wide = false) { // caller supplies the reversed graph
  S.run_case(
        mc::Hash().add(el.key()).add(std::string(cn)).h, [&] { return std::string(cn) + " g+g_t " + el.str(); },
        [&] {
          G    g  = make<G>(el);
          G    gt = make<G>(gen::reversed(el));
          auto a  = read_adj(g);
          input_state(a);
          if (graph::num_vertices(gt) != a.size())
            return;
          if (el.m())
            S.nontrivial();
          std::vector<size_t> comp(a.size(), 1);
          graph::kosaraju(g, gt, comp);
          validate(a, comp, "kosaraju(g,g_t)");
          if (wide) {
            std::vector<uint8_t> c8(a.size(), 1);
            graph::kosaraju(std::as_const(g), std::as_const(gt), c8);
            validate(a, c8, "kosaraju(const g,const g_t) uint8 labels");
          }
        });
}
template <class G>
void bidi(mc::Suite& S, const EL& el, const char* cn, bool wide = false) {
  S.run_case(
        mc::Hash().add(el.key()).add(std::string(cn)).add(7).h, [&] { return std::string(cn) + " bidirectional " + el.str(); },
        [&] {
          G    g = make<G>(el);
          auto a = read_adj(g);
          input_state(a);
          if (el.m())
            S.nontrivial();
          std::vector<size_t> comp(a.size(), 1);
          graph::kosaraju(g, comp);
          validate(a, comp, "kosaraju(g)");
          if (wide) {
            std::vector<int> c2(a.size(), 1);
            graph::kosaraju(std::as_const(g), c2);
            validate(a, c2, "kosaraju(const g) int labels");
          }
        });
}
#if PART == 1
MC_SUITE(digraphs) {
  for (int n = 0; n <= 3; ++n)
    gen::digraphs(n, true, [&](const EL& el) { two<vov_t<void>>(S, el, "vov", true); });
  gen::digraphs(4, true, [&](const EL& el) { two<vov_t<void>>(S, el, "vov"); });
  gen::digraphs(4, false, [&](const EL& el) {
    for (int k = 1; k < mc::tier(4, 24); ++k)
      two<vov_t<void>>(S, gen::reorder(el, k), "vov");
  });
}
MC_SUITE(sequences) {
  for (int k = 1; k <= mc::tier(4, 5); ++k)
    gen::edge_sequences(4, k, [&](const EL& el) { two<vov_t<void>>(S, el, "vov"); }, k <= 3);
}
MC_SUITE(five) {
  if (mc::thorough())
    gen::digraphs(5, false, [&](const EL& el) { two<vov_t<void>>(S, el, "vov"); });
}
#elif PART == 2
using B = vov_t<void, uint32_t, true>;
MC_SUITE(bidirectional) {
  for (int n = 0; n <= 3; ++n)
    gen::digraphs(n, true, [&](const EL& el) { bidi<B>(S, el, "vov", true); });
  gen::digraphs(4, true, [&](const EL& el) { bidi<B>(S, el, "vov"); });
  for (int k = 1; k <= mc::tier(4, 5); ++k)
    gen::edge_sequences(4, k, [&](const EL& el) { bidi<B>(S, el, "vov"); }, k <= 3);
  gen::digraphs(4, false, [&](const EL& el) {
    for (int k = 1; k < mc::tier(4, 24); ++k)
      bidi<B>(S, gen::reorder(el, k), "vov");
  });
}
MC_SUITE(five) {
  if (mc::thorough())
    gen::digraphs(5, false, [&](const EL& el) { bidi<B>(S, el, "vov"); });
}
#elif PART == 3
MC_SUITE(id_limits) { // vertex ids that fill the whole range of the id type
  gen::id_limit_graphs([&](const EL& el, bool small) {
    two<csr_t<int, uint8_t>>(S, el, "csr/u8");
    if (small)
      two<csr_t<int, int8_t>>(S, el, "csr/i8");
  });
}
MC_SUITE(families) {
  gen::families(mc::tier(60, 200), [&](const EL& el) {
    for (int k = 0; k < 3; ++k) {
      two<vov_t<int>>(S, gen::reorder(el, k), "vov");
      bidi<vov_t<int, uint32_t, true>>(S, gen::reorder(el, k), "vov");
      two<vov_t<int>>(S, gen::both(gen::reorder(el, k)), "vov/sym");
    }
  });
}
#else
MC_SUITE(containers) {
  auto f = [&](const EL& el) {
#if PART == 4
    two<vol_t<int, size_t>>(S, el, "vol");
    two<csr_t<int>>(S, el, "csr");
    two<vvi_t>(S, el, "vvi");
    bidi<vol_t<int, uint8_t, true>>(S, el, "vol");
    bidi<vos_t<int, uint32_t, true>>(S, el, "vos");
#else
    two<vous_t<int>>(S, el, "vous");
    two<dov_t<int, int>>(S, el, "dov");
    two<ual_t<int>>(S, el, "ual");
    bidi<dov_t<int, size_t, true>>(S, el, "dov");
    bidi<vous_t<int, uint32_t, true>>(S, el, "vous");
#endif
  };
  gen::digraphs(3, true, f);
  gen::edge_sequences(3, 3, f);
  gen::ugraphs(4, false, [&](const EL& e) { f(e); f(gen::reversed(e)); f(gen::relabel(e, {2, 0, 3, 1})); });
}
#endif

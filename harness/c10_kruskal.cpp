// C10: kruskal / inplace_kruskal over enumerated edge lists, and the disjoint-set state space to its fixpoint.
// Oracle: matroid cycle property (exact optimality criterion for any comparator) + union-find-free component count.
#include "algo_common.hpp"
#include <deque>
#include <forward_list>
#include <graph/algorithm/mst.hpp>
#include <list>
using namespace ac;

template <class VId, class EV>
using ED = graph::edge_data<VId, true, void, EV>;
template <class VId, class EV>
struct Out { // a caller-defined record with the same member names
  using source_id_type = VId;
  using target_id_type = VId;
  using value_type     = EV;
  using edge_type      = void;
  int            pad   = 77;
  VId            source_id{};
  VId            target_id{};
  EV             value{};
};

template <class In>
auto tuples(const In& in) {
  std::vector<std::tuple<long, long, double>> r;
  for (auto& x : in)
    r.push_back({(long)x.source_id, (long)x.target_id, (double)x.value});
  return r;
}
template <class T, class C>
void judge(const EL& el, const T& t, double total, size_t comps, C cmp, const char* which) {
  mc::trace();
  auto out = tuples(t);
  auto eq  = [](const auto& a, const E& x) { return std::get<0>(a) == x.u && std::get<1>(a) == x.v && std::get<2>(a) == x.w; };
  // subset of the input, each input edge used at most once
  std::vector<char> used(el.m(), 0);
  EL                forest;
  forest.n   = el.n;
  double sum = 0;
  for (auto& o : out) {
    mc::transition();
    bool found = false;
    for (int i = 0; i < el.m() && !found; ++i)
      if (!used[i] && eq(o, el.e[i])) {
        used[i] = 1;
        found   = true;
        forest.e.push_back(el.e[i]);
      }
    MC_CHECK(found, which << ": emitted edge " << std::get<0>(o) << ">" << std::get<1>(o) << ":" << std::get<2>(o) << " is not an (unused) input edge");
    sum += std::get<2>(o);
  }
  for (size_t i = 1; i < forest.e.size(); ++i)
    MC_CHECK(!cmp(forest.e[i].w, forest.e[i - 1].w), which << ": emitted edges not in comparator order");
  const int nc = el.n ? ncomp(el) : 0;
  MC_CHECK(ncomp(forest) == el.n - (int)forest.e.size(), which << ": emitted edges contain a cycle");
  MC_CHECK((int)forest.e.size() == el.n - nc, which << ": " << forest.e.size() << " edges do not span (expected " << el.n - nc << ")");
  MC_CHECK(sum == total, which << ": returned total " << total << " but the emitted edges sum to " << sum);
  MC_CHECK((int)comps == nc, which << ": returned " << comps << " components, expected " << nc);
  // cycle property: replacing a tree edge on the cycle closed by x by x must not be better
  std::vector<std::vector<std::pair<int, int>>> fa(el.n);
  for (int i = 0; i < forest.m(); ++i) {
    fa[forest.e[i].u].push_back({forest.e[i].v, i});
    fa[forest.e[i].v].push_back({forest.e[i].u, i});
  }
  for (auto& x : el.e) {
    std::vector<int> via(el.n, -2), st{x.u};
    via[x.u] = -1;
    while (!st.empty() && via[x.v] == -2) {
      int u = st.back();
      st.pop_back();
      for (auto& [v, i] : fa[u])
        if (via[v] == -2) {
          via[v] = i;
          st.push_back(v);
        }
    }
    for (int v = x.v; v != x.u;) {
      const E& te = forest.e[via[v]];
      MC_CHECK(!cmp(x.w, te.w), which << ": edge " << x.u << ">" << x.v << ":" << x.w << " is better than tree edge " << te.u << ">" << te.v
                                      << ":" << te.w << " on its cycle");
      v = te.u == v ? te.v : te.u;
    }
  }
  mc::outcome(mc::Hash().add(out.size()).add((uint64_t)(long)(total * 2)).add(comps).h);
}
template <class VId, class EV, class InC, class OutR, class C, bool Default>
void runs(const EL& el0, C cmp) {
  EL el = el0; // vertices are 0..max id
  el.n  = 0;
  for (auto& x : el.e)
    el.n = std::max({el.n, x.u + 1, x.v + 1});
  std::vector<ED<VId, EV>> v;
  for (auto& x : el.e)
    v.push_back({(VId)x.u, (VId)x.v, (EV)x.w});
  InC        in(v.begin(), v.end());
  const InC  cin(v.begin(), v.end());
  const auto before = tuples(in);
  {
    std::vector<OutR> t;
    auto [w, c] = [&] {
      if constexpr (Default)
        return graph::kruskal(in, t);
      else
        return graph::kruskal(in, t, cmp);
    }();
    judge(el, t, (double)w, c, cmp, "kruskal");
    MC_CHECK(tuples(in) == before, "kruskal changed its input");
  }
  {
    std::vector<OutR> t;
    auto [w, c] = graph::kruskal(cin, t, cmp);
    judge(el, t, (double)w, c, cmp, "kruskal(const)");
  }
  if constexpr (std::ranges::random_access_range<InC>) {
    std::vector<OutR> t;
    auto [w, c] = [&] {
      if constexpr (Default)
        return graph::inplace_kruskal(in, t);
      else
        return graph::inplace_kruskal(in, t, cmp);
    }();
    judge(el, t, (double)w, c, cmp, "inplace_kruskal");
    auto a = tuples(in), b = before;
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    MC_CHECK(a == b, "inplace_kruskal changed the multiset of input edges");
  }
}
template <class VId, class EV, class InC, class OutR>
void one(mc::Suite& S, const EL& el, const char* tn, bool all_cmp) {
  S.run_case(
        mc::Hash().add(el.key()).add(std::string(tn)).h, [&] { return std::string(tn) + " " + el.str(); },
        [&] {
          if (el.m())
            S.nontrivial();
          mc::state(el.key());
          runs<VId, EV, InC, OutR, std::less<>, true>(el, std::less<>{});
          runs<VId, EV, InC, OutR, std::greater<>, false>(el, std::greater<>{});
          if (all_cmp) {
            auto ab = [](auto a, auto b) { return (a < 0 ? -a : a) < (b < 0 ? -b : b); };
            runs<VId, EV, InC, OutR, decltype(ab), false>(el, ab);
          }
        });
}
using U32 = ED<uint32_t, int>;
#if PART == 1
MC_SUITE(sequences) {
  one<uint32_t, int, std::vector<U32>, U32>(S, EL{0, {}}, "u32", true);
  for (int k = 1; k <= 3; ++k)
    gen::edge_sequences(3, k, [&](const EL& e) {
      gen::weightings(e, {-2, 0, 1, 2}, [&](const EL& el) { one<uint32_t, int, std::vector<U32>, U32>(S, el, "u32", k < 3); });
    });
  gen::uedge_sequences(3, 4, [&](const EL& e) {
    gen::weightings(e, mc::tier<std::vector<int>>({1, 2}, {-1, 0, 3}), [&](const EL& el) { one<uint32_t, int, std::vector<U32>, U32>(S, el, "u32", false); });
  });
  gen::uedge_sequences(4, 4, [&](const EL& e) {
    gen::weightings(e, mc::tier<std::vector<int>>({1, 2}, {1, 2, 3}), [&](const EL& el) { one<uint32_t, int, std::vector<U32>, U32>(S, el, "u32", false); });
  }, false);
}
#elif PART == 2
MC_SUITE(orders) { // every order of distinct/tied weights over dense graphs
  gen::ugraphs(4, false, [&](const EL& el0) {
    EL el = el0;
    for (auto& x : el.e)
      if ((x.u + x.v) % 2)
        std::swap(x.u, x.v);
    std::vector<int> p(el.m());
    std::iota(p.begin(), p.end(), 0);
    do {
      EL a = el, b = el;
      for (int i = 0; i < el.m(); ++i) {
        a.e[i].w = p[i];         // distinct
        b.e[i].w = p[i] / 2 - 1; // tied pairs
      }
      one<uint32_t, int, std::vector<U32>, U32>(S, a, "u32", false);
      one<uint32_t, int, std::vector<U32>, U32>(S, b, "u32", true);
    } while (std::next_permutation(p.begin(), p.end()));
  });
}
MC_SUITE(families) {
  gen::families(mc::tier(40, 120), [&](const EL& el) {
    for (int k = 0; k < 3; ++k) {
      one<uint32_t, int, std::vector<U32>, U32>(S, gen::reorder(el, k), "u32", false);
      one<size_t, double, std::deque<ED<size_t, double>>, Out<size_t, double>>(S, gen::reorder(el, k), "deque/double", false);
    }
  });
}
MC_SUITE(id_limits) {
  for (int n : {127, 128, 255, 256}) {
    EL path{n, {}}, star{n, {}};
    for (int i = 0; i + 1 < n; ++i) {
      path.e.push_back({i, i + 1, (i * 7) % 5});
      star.e.push_back({n - 1, i, (i * 5) % 7});
    }
    for (auto* e : {&path, &star})
      one<uint8_t, long, std::vector<ED<uint8_t, long>>, ED<uint8_t, long>>(S, *e, "u8", false);
  }
  for (int n : {32767, 65536}) {
    EL gap{n, {{n - 1, 0, 3}, {5, n - 1, 2}, {0, 5, 1}}};
    // a full oracle over 65536 ids is not needed: the three edges involve three ids, all others are isolated
    S.run_case(n, [&] { return "u16 triangle on {0,5," + std::to_string(n - 1) + "}"; }, [&] {
      S.nontrivial();
      std::vector<ED<uint16_t, int>> in, t;
      for (auto& x : gap.e)
        in.push_back({(uint16_t)x.u, (uint16_t)x.v, x.w});
      for (int ip = 0; ip < 2; ++ip) {
        t.clear();
        auto [w, c] = ip ? graph::inplace_kruskal(in, t) : graph::kruskal(in, t);
        MC_CHECK(w == 3 && c == (size_t)n - 2 && t.size() == 2, "total " << w << " components " << c << " edges " << t.size());
      }
    });
  }
}
#else
MC_SUITE(containers) {
  auto f = [&](const EL& el) {
    one<uint32_t, int, std::list<U32>, U32>(S, el, "list", false);
    one<int, long, std::forward_list<ED<int, long>>, Out<int, long>>(S, el, "fwd", false);
    one<size_t, double, std::deque<ED<size_t, double>>, Out<size_t, double>>(S, el, "deque/double", false);
    one<uint8_t, short, std::vector<ED<uint8_t, short>>, ED<uint8_t, short>>(S, el, "u8", true);
  };
  f(EL{0, {}});
  for (int k = 1; k <= 2; ++k)
    gen::edge_sequences(3, k, [&](const EL& e) { gen::weightings(e, {-1, 0, 2}, f); });
  gen::edge_sequences(3, 3, [&](const EL& e) { gen::weightings(e, {1, 2}, f); });
}
// the disjoint-set structure, explored to its fixpoint: every reachable (parent, rank) state under every operation
template <class VId>
void dsu(mc::Suite& S, int n, const char* tn) {
  using DV = graph::disjoint_vector<VId>;
  S.run_case(mc::Hash().add(n).add(std::string(tn)).h, [&] { return std::string("disjoint set ") + tn + " n=" + std::to_string(n); }, [&] {
    S.nontrivial();
    auto enc = [](const DV& d) {
      std::vector<int> r;
      for (auto& x : d) {
        r.push_back((int)x.id);
        r.push_back((int)x.count);
      }
      return r;
    };
    auto root = [](const DV& d, int v) {
      for (int k = 0; k <= (int)d.size(); ++k) {
        if ((int)d[v].id == v)
          return v;
        v = (int)d[v].id;
      }
      return -1;
    };
    DV init(n);
    for (int i = 0; i < n; ++i)
      init[i] = {(VId)i, 0};
    std::set<std::vector<int>> seen{enc(init)};
    std::vector<DV>            todo{init};
    while (!todo.empty()) {
      DV d = todo.back();
      todo.pop_back();
      std::vector<int> rt(n);
      for (int i = 0; i < n; ++i)
        rt[i] = root(d, i);
      mc::state(mc::Hash().range(enc(d)).h);
      auto step = [&](const DV& e, auto&& same) {
        mc::transition();
        std::vector<int> r2(n);
        for (int i = 0; i < n; ++i) {
          r2[i] = root(e, i);
          MC_CHECK(r2[i] >= 0, "parent links contain a cycle");
        }
        for (int i = 0; i < n; ++i)
          for (int j = 0; j < n; ++j)
            MC_CHECK((r2[i] == r2[j]) == same(i, j), "sets of " << i << " and " << j << " wrong after the operation on " << mc::str(enc(d)));
        if (seen.insert(enc(e)).second)
          todo.push_back(e);
      };
      auto keep = [&](int i, int j) { return rt[i] == rt[j]; };
      for (int u = 0; u < n; ++u) {
        DV   e = d;
        auto r = graph::disjoint_find(e, (VId)u);
        MC_CHECK((int)r == rt[u], "find(" << u << ") returned " << (int)r << " not the root " << rt[u]);
        step(e, keep);
        for (int v = 0; v < n; ++v) {
          auto merged = [&](int i, int j) {
            auto in = [&](int k) { return rt[k] == rt[u] || rt[k] == rt[v]; };
            return rt[i] == rt[j] || (in(i) && in(j));
          };
          DV   e2 = d;
          bool m  = graph::disjoint_union_find(e2, (VId)u, (VId)v);
          MC_CHECK(m == (rt[u] != rt[v]), "union_find(" << u << "," << v << ") returned " << m << " on " << mc::str(enc(d)));
          step(e2, merged);
          if (rt[u] != rt[v]) { // the unconditional form is documented for elements of different sets as well as equal ones
            DV e3 = d;
            graph::disjoint_union(e3, (VId)u, (VId)v);
            step(e3, merged);
          } else {
            DV e3 = d;
            graph::disjoint_union(e3, (VId)u, (VId)v);
            seen.insert(enc(e3)); // the rank may grow without bound here: checked, but not expanded
            step(e3, keep);
          }
        }
      }
    }
    mc::count("disjoint_set_states", seen.size());
  });
}
MC_SUITE(disjoint_set) {
  for (int n = 1; n <= mc::tier(5, 6); ++n) {
    dsu<uint32_t>(S, n, "u32");
    if (n < 5)
      dsu<uint8_t>(S, n, "u8");
  }
}
#endif

// C11: prim over enumerated undirected weighted graphs (each edge stored in both directions) x seeds x comparators.
#include "algo_common.hpp"
#include <graph/algorithm/mst.hpp>
#include <deque>
using namespace ac;
using namespace cont;

template <class G, class EV, class C>
void judge(const G& g, const EL& el, int seed, C cmp, EV init, int mode) {
  using VId = graph::vertex_id_t<G>;
  const int        n = el.n;
  const EV         wmark = (EV)-777;
  std::vector<VId> pred(n + 1);
  std::vector<EV>  weight(n + 1, wmark);
  std::vector<VId> pred0;
  for (int i = 0; i <= n; ++i)
    pred[i] = mode == 2 ? (VId)((i + 1) % n) : mode == 1 ? (VId)0 : (VId)i; // whatever the caller had there
  pred0 = pred;
  EV   total;
  auto wf = [](const auto& gg, const auto& e) -> EV { return (EV)ew(gg, e); };
  if (mode == 0) {
    if constexpr (std::is_same_v<C, std::less<>> && !std::is_void_v<typename ev_of<G>::type>)
      total = graph::prim(g, pred, weight, (VId)seed);
    else
      total = graph::prim(g, pred, weight, cmp, init, wf, (VId)seed);
  } else
    total = graph::prim(g, pred, weight, cmp, init, wf, (VId)seed);
  mc::trace();
  auto comp = ucomp(el);
  // tree edges
  EL   forest{n, {}};
  EV   sum = 0;
  for (int v = 0; v < n; ++v) {
    if (comp[v] != comp[seed]) {
      MC_CHECK(pred[v] == pred0[v] && (weight[v] == wmark || weight[v] == init), "vertex " << v << " outside the seed's component was written");
      continue;
    }
    if (v == seed)
      continue;
    mc::transition();
    int p = (int)pred[v];
    MC_CHECK(p >= 0 && p < n, "predecessor of " << v << " is " << p);
    bool ok = false;
    for (auto& x : el.e)
      ok |= ((x.u == p && x.v == v) || (x.u == v && x.v == p)) && (EV)x.w == weight[v];
    MC_CHECK(ok, "no edge joins " << v << " to its predecessor " << p << " with weight " << (double)weight[v]);
    forest.e.push_back({p, v, (int)weight[v]});
    sum += weight[v];
  }
  MC_CHECK((int)pred[seed] == seed, "predecessor of the seed is " << (int)pred[seed]);
  MC_CHECK(pred[n] == pred0[n] && weight[n] == wmark, "element past the last vertex written");
  // every vertex reaches the seed
  for (int v = 0; v < n; ++v)
    if (comp[v] == comp[seed]) {
      int u = v, k = 0;
      while (u != seed && k++ <= n)
        u = (int)pred[u];
      MC_CHECK(u == seed, "predecessors of " << v << " do not lead to the seed");
    }
  MC_CHECK(sum == total, "returned total " << (double)total << ", recorded weights sum to " << (double)sum);
  // optimality (cycle property)
  std::vector<int> via(n, -1), dep(n, 0);
  for (int i = 0; i < forest.m(); ++i)
    via[forest.e[i].v] = i;
  for (int v = 0; v < n; ++v)
    if (comp[v] == comp[seed])
      for (int u = v; u != seed; u = (int)pred[u])
        ++dep[v];
  for (auto& x : el.e) {
    if (comp[x.u] != comp[seed])
      continue;
    for (int a = x.u, b = x.v; a != b;) {
      int& d = dep[a] >= dep[b] ? a : b;
      const E& te = forest.e[via[d]];
      MC_CHECK(!cmp(x.w, te.w), "edge " << x.u << "-" << x.v << ":" << x.w << " is better than tree edge " << te.u << "-" << te.v << ":" << te.w << " on its cycle");
      d = (int)pred[d];
    }
  }
  mc::outcome(mc::Hash().add(forest.m()).add((uint64_t)(long)sum).range(pred).h);
}
template <class G, class EV>
void one(mc::Suite& S, const EL& el, const char* cn, bool vary) {
  S.run_case(
        mc::Hash().add(el.key()).add(std::string(cn)).h, [&] { return std::string(cn) + " " + el.str(); },
        [&] {
          const G g = make<G>(Ual<G> ? el : gen::both(el));
          auto    a = read_adj(g);
          input_state(a);
          if (el.m())
            S.nontrivial();
          EL e2 = el;
          e2.n  = (int)a.size();
          if (!e2.n)
            return;
          for (int s = 0; s < e2.n; s = e2.n > 8 ? s * 2 + 1 : s + 1) {
            judge<G, EV>(g, e2, s, std::less<>{}, std::numeric_limits<EV>::max(), 0);
            if (vary) {
              judge<G, EV>(g, e2, s, std::greater<>{}, std::numeric_limits<EV>::lowest(), 1);
              judge<G, EV>(g, e2, s, std::less<>{}, (EV)1000, 2);
            }
          }
        });
}
using V = vov_t<int>;
#if PART == 1
MC_SUITE(weighted) {
  for (int n = 1; n <= 3; ++n)
    gen::ugraphs(n, true, [&](const EL& e) {
      if (e.m() <= (mc::thorough() ? 6 : 4))
        gen::weightings(e, {-2, 0, 1, 3}, [&](const EL& el) { one<V, int>(S, el, "vov", true); });
    });
  gen::ugraphs(4, false, [&](const EL& e) {
    gen::weightings(e, mc::tier<std::vector<int>>({1, 2, 3}, {-1, 1, 2, 3}), [&](const EL& el) { one<V, int>(S, el, "vov", mc::thorough()); });
  });
}
MC_SUITE(parallel) { // multigraphs with loops: every order
  for (int k = 1; k <= mc::tier(3, 4); ++k)
    gen::uedge_sequences(3, k, [&](const EL& e) {
      gen::weightings(e, {-1, 1, 2}, [&](const EL& el) { one<V, int>(S, el, "vov", true); });
    });
}
#elif PART == 2
MC_SUITE(orders) { // all weight orders over dense graphs
  gen::ugraphs(4, false, [&](const EL& el) {
    std::vector<int> p(el.m());
    std::iota(p.begin(), p.end(), 0);
    do {
      EL a = el;
      for (int i = 0; i < el.m(); ++i)
        a.e[i].w = p[i] + 1;
      one<V, int>(S, a, "vov", true);
    } while (std::next_permutation(p.begin(), p.end()));
  });
  gen::ugraphs(5, false, [&](const EL& el) { // n=5: scrambled distinct and tied weights
    for (int k = 0; k < mc::tier(6, 60); ++k) {
      EL a = el;
      for (int i = 0; i < el.m(); ++i)
        a.e[i].w = (int)(mc::mix(k * 131 + i) % (k % 2 ? 4 : 97)) + (k % 3 == 2 ? -2 : 1);
      one<V, int>(S, a, "vov", false);
    }
  });
}
MC_SUITE(families) {
  gen::families(mc::tier(60, 240), [&](const EL& el) {
    for (int k = 0; k < 3; ++k) {
      EL d = gen::reorder(el, k);
      if (k == 2)
        for (int i = 0, m = d.m(); i < m; i += 3)
          d.e.push_back({d.e[i].v, d.e[i].u, d.e[i].w - 1});
      one<V, int>(S, d, "vov", true);
    }
  });
}
#else
MC_SUITE(containers) {
  auto f = [&](const EL& el) {
#if PART == 3
    one<vol_t<long, size_t>, long>(S, el, "vol/long", true);
    one<vofl_t<int>, double>(S, el, "vofl/double", true);
    one<vous_t<int>, int>(S, el, "vous", false);
    one<ual_t<int>, int>(S, el, "ual", true);
#else
    one<vvp_t, int>(S, el, "vvp", true);
    one<vvi_t, int>(S, [&] { EL u = el; for (auto& x : u.e) x.w = 1; return u; }(), "vvi", false);
    one<csr_t<int, uint8_t>, int>(S, el, "csr/u8", true);
    one<dov_t<double, int>, double>(S, el, "dov/double", false);
#endif
  };
  for (int n = 1; n <= 3; ++n)
    gen::ugraphs(n, true, [&](const EL& e) {
      if (e.m() <= 3)
        gen::weightings(e, {-1, 0, 2}, f);
    });
  gen::ugraphs(4, false, [&](const EL& e) {
    if (e.m() >= 3 && e.m() <= 5)
      gen::weightings(e, {1, 2}, f);
  });
}
#endif

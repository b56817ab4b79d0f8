// C12 triangle counts, C13 maximal independent sets, C15 Jaccard coefficients over enumerated small graphs (WHAT=12/13/15).
#include "algo_common.hpp"
#include <graph/algorithm/jaccard.hpp>
#include <graph/algorithm/mis.hpp>
#include <graph/algorithm/tc.hpp>
#include <list>
using namespace ac;
using namespace cont;

using Adj = std::vector<std::vector<std::pair<int, long>>>;
inline std::vector<std::vector<char>> matrix(const Adj& a) {
  std::vector<std::vector<char>> m(a.size(), std::vector<char>(a.size(), 0));
  for (size_t u = 0; u < a.size(); ++u)
    for (auto& [v, w] : a[u])
      m[u][v] = 1;
  return m;
}
#if WHAT == 12
template <class G>
void judge(const G& g, G& mg, const Adj& a) {
  auto   m   = matrix(a);
  size_t ref = 0, n = a.size();
  bool   simple = true; // no parallel edges
  for (auto& r : a)
    for (size_t i = 1; i < r.size(); ++i)
      simple &= r[i].first != r[i - 1].first;
  for (size_t i = 0; i < n; ++i)
    for (size_t j = i + 1; j < n; ++j)
      if (m[i][j])
        for (size_t k = j + 1; k < n; ++k)
          ref += m[i][k] && m[j][k];
  size_t got = graph::triangle_count(g);
  mc::trace();
  mc::transition(ref + 1);
  mc::outcome(got);
  if (simple)
    MC_CHECK(got == ref, "counted " << got << " triangles, there are " << ref);
  else
    MC_CHECK((got != 0) == (ref != 0) && got >= ref, "counted " << got << " triangles in a multigraph with " << ref << " adjacent triples");
  MC_CHECK(graph::triangle_count(mg) == got, "count on a mutable graph differs");
}
#elif WHAT == 13
template <class G>
void judge(const G& g, G& mg, const Adj& a) {
  using VId = graph::vertex_id_t<G>;
  auto      m = matrix(a);
  const int n = (int)a.size();
  for (int s = 0; s < (n ? n : 1); s = n > 16 ? s * 2 + 1 : s + 1) {
    std::vector<VId> out;
    size_t           cnt = graph::maximal_independent_set(g, std::back_inserter(out), (VId)s);
    mc::trace();
    MC_CHECK(cnt == out.size(), "returned " << cnt << " but emitted " << out.size());
    std::vector<char> in(n, 0);
    for (auto v : out) {
      mc::transition();
      MC_CHECK((int)v >= 0 && (int)v < n && !in[(int)v], "vertex " << (long)v << " emitted twice or unknown");
      in[(int)v] = 1;
    }
    for (int u = 0; u < n; ++u) {
      bool covered = m[u][u];
      for (int v = 0; v < n; ++v)
        if (m[u][v] || m[v][u]) {
          MC_CHECK(!(in[u] && in[v]), "emitted vertices " << u << " and " << v << " are adjacent (seed " << s << ")");
          covered |= in[v] && u != v;
        }
      MC_CHECK(in[u] || covered, "vertex " << u << " could be added (seed " << s << ")");
    }
    if (n)
      MC_CHECK(in[s] == !m[s][s], "seed " << s << " chosen=" << (int)in[s] << " self-loop=" << (int)m[s][s]);
    mc::outcome(mc::Hash().range(out).h);
    if (s == 0) {
      std::list<size_t> o2;
      MC_CHECK(graph::maximal_independent_set(mg, std::back_inserter(o2)) == cnt, "default seed differs from seed 0");
      MC_CHECK(std::equal(o2.begin(), o2.end(), out.begin(), out.end(), [](size_t x, VId y) { return x == (size_t)y; }), "default seed differs from seed 0");
    }
  }
}
#else
template <class G>
void judge(const G& g, G& mg, const Adj& a) {
  auto                          m = matrix(a);
  const int                     n = (int)a.size();
  std::vector<std::tuple<int, int, long>> want, got;
  for (int u = 0; u < n; ++u)
    for (auto& [v, w] : a[u])
      if (u != v)
        want.push_back({u, v, w});
  auto ref = [&](int u, int v) {
    int i = 0, un = 0;
    for (int x = 0; x < n; ++x) {
      bool p = x != u && m[u][x], q = x != v && m[v][x];
      i += p && q;
      un += p || q;
    }
    return un ? (double)i / un : 0.0;
  };
  auto cb = [&](auto&& gr, double eps) {
    return [&, eps](auto u, auto v, auto& uv, auto val) {
      mc::transition();
      MC_CHECK((int)graph::target_id(gr, uv) == (int)v, "edge handed over leads to " << (int)graph::target_id(gr, uv) << " not " << (int)v);
      MC_CHECK((int)graph::source_id(gr, uv) == (int)u, "edge handed over starts at " << (int)graph::source_id(gr, uv) << " not " << (int)u);
      got.push_back({(int)u, (int)v, ew(gr, uv)});
      double r = ref((int)u, (int)v);
      MC_CHECK(val >= 0 && val <= 1 && std::abs((double)val - r) <= eps, "coefficient of " << (int)u << ">" << (int)v << " is " << (double)val << " expected " << r);
      mc::outcome((uint64_t)(r * 1e6));
    };
  };
  std::sort(want.begin(), want.end());
  auto done = [&](const char* w) {
    mc::trace();
    std::sort(got.begin(), got.end());
    MC_CHECK(got == want, w << ": callback ran for " << got.size() << " edges instead of exactly the " << want.size() << " stored non-loop edges");
    got.clear();
  };
  graph::jaccard_coefficient(g, cb(g, 1e-12));
  done("double");
  {
    auto f = cb(mg, 1e-6);
    graph::jaccard_coefficient<G&, decltype(f), float>(mg, f);
    done("float");
  }
}
#endif

template <class G>
void one(mc::Suite& S, const EL& el, const char* cn, bool directed = false) {
  S.run_case(
        mc::Hash().add(el.key()).add(std::string(cn)).h, [&] { return std::string(cn) + (directed ? " directed " : " ") + el.str(); },
        [&] {
#if WHAT == 12
          EL l = gen::sorted(Ual<G> ? [&] { EL t = el; for (auto& x : t.e) if (x.u > x.v) std::swap(x.u, x.v); return t; }() : gen::both(el));
#else
          EL l = Ual<G> || directed ? el : gen::both(el);
#endif
          G       mg = make<G>(l);
          const G g  = make<G>(l);
          auto    a  = read_adj(g);
          input_state(a);
          if (el.m())
            S.nontrivial();
          judge<G>(g, mg, a);
        });
}
using V = vov_t<int>;
inline EL numbered(EL e) {
  int i = 0;
  for (auto& x : e.e)
    x.w = ++i;
  return e;
}
#if PART == 1
MC_SUITE(ugraphs) {
  for (int n = 0; n <= 4; ++n)
    gen::ugraphs(n, true, [&](const EL& el) {
      for (int k = 0; k < 3; ++k)
        one<V>(S, numbered(gen::reorder(el, k)), "vov");
    });
  gen::ugraphs(5, true, [&](const EL& el) { one<V>(S, numbered(el), "vov"); });
#if WHAT != 15
  gen::ugraphs(6, false, [&](const EL& el) { one<V>(S, el, "vov"); });
#if WHAT == 12
  if (mc::thorough())
    gen::ugraphs(7, false, [&](const EL& el) { one<V>(S, el, "vov"); });
#endif
#endif
#if WHAT != 12
  for (int k = 1; k <= mc::tier(4, 5); ++k)
    gen::uedge_sequences(4, k, [&](const EL& el) { one<V>(S, numbered(el), "vov"); });
#else
  for (int k = 3; k <= 4; ++k)
    gen::uedge_sequences(3, k, [&](const EL& el) { one<V>(S, numbered(el), "vov"); });
  gen::uedge_sequences(3, 5, [&](const EL& el) { one<V>(S, numbered(el), "vov"); });
#endif
}
#elif PART == 2
MC_SUITE(families) {
  gen::families(mc::tier(90, 300), [&](const EL& el) {
    for (int k = 0; k < 3; ++k) {
      EL d = gen::reorder(el, k);
      if (k == 2)
        for (int v = 0; v < d.n; v += 4)
          d.e.push_back({v, v, 9});
      one<V>(S, numbered(d), "vov");
    }
  });
}
MC_SUITE(id_limits) {
  for (int n : {127, 128, 255, 256}) {
    EL star{n, {}}, cyc{n, {}};
    for (int i = 0; i + 1 < n; ++i) {
      star.e.push_back({i, n - 1, i});
      cyc.e.push_back({i, i + 1, i});
    }
    EL wheel = star;
    for (int i = 0; i + 2 < n; ++i)
      wheel.e.push_back({i, i + 1, i + n});
    cyc.e.push_back({0, n - 1, 7});
    for (auto* e : {&star, &cyc, &wheel}) {
      one<csr_t<int, uint8_t>>(S, *e, "csr/u8");
      one<csr_t<int, uint16_t>>(S, *e, "csr/u16");
    }
  }
}
#if WHAT == 15
MC_SUITE(digraphs) {
  for (int n = 1; n <= 3; ++n)
    gen::digraphs(n, true, [&](const EL& el) { one<V>(S, numbered(el), "vov", true); });
  gen::digraphs(4, mc::thorough(), [&](const EL& el) { one<V>(S, numbered(el), "vov", true); });
  for (int k = 1; k <= 4; ++k)
    gen::edge_sequences(3, k, [&](const EL& el) { one<V>(S, numbered(el), "vov", true); });
}
#endif
#else
MC_SUITE(containers) {
  auto f = [&](const EL& e) {
    EL el = numbered(e);
#if PART == 3
    one<vol_t<int, size_t>>(S, el, "vol");
    one<vos_t<int>>(S, el, "vos");
    one<ual_t<int>>(S, el, "ual");
    one<vvi_t>(S, el, "vvi");
#else
    one<csr_t<int, uint16_t>>(S, el, "csr");
    one<dov_t<int, int>>(S, el, "dov");
    one<vvp_t>(S, el, "vvp");
    one<vod_t<int, uint8_t>>(S, el, "vod");
#if WHAT != 12
    one<vous_t<int>>(S, el, "vous");
    one<vofl_t<int>>(S, el, "vofl");
#endif
#endif
  };
  for (int n = 1; n <= 4; ++n)
    gen::ugraphs(n, true, f);
  gen::ugraphs(5, false, f);
}
#endif

// C31: invalid arguments are rejected cleanly, and the valid ones next to them are accepted.
#include "zoo.hpp"
#include "tok.hpp"
#include <set>
#include <graph/algorithm/bellman_ford_shortest_paths.hpp>
#include <graph/algorithm/dijkstra_shortest_paths.hpp>
#include <graph/algorithm/mst.hpp>
#include <limits>
#include <typeinfo>
using namespace zoo;
using std::pair, std::vector;
using mc::Suite;
namespace gg = graph;

namespace {
// what a call did: returned, or which exception it threw
template <class F>
std::string outcome_of(F&& f) {
  try {
    f();
    return "returns";
  } catch (const mc::Fail&) {
    throw;
  } catch (const std::exception& e) {
    auto& t = typeid(e);
    return t == typeid(std::out_of_range)      ? "out_of_range"
           : t == typeid(std::invalid_argument) ? "invalid_argument"
           : t == typeid(std::runtime_error)    ? "runtime_error"
           : t == typeid(gg::graph_error)       ? "graph_error"
                                                : std::string("another exception: ") + t.name();
  }
}
#define EXPECT(want, what, ...)                                                                                        \
  do {                                                                                                                 \
    std::string got_ = outcome_of([&] __VA_ARGS__);                                                                    \
    MC_CHECK(got_ == want, what << ": expected " << want << ", " << got_);                                             \
  } while (0)

template <class G>
std::vector<std::array<int, 3>> snap(G& g) { // the whole graph, in order
  std::vector<std::array<int, 3>> r;
  for (auto&& u : gg::vertices(g)) {
    r.push_back({(int)gg::vertex_id(g, u), -1, -1});
    for (auto&& uv : gg::edges(g, u))
      r.push_back({(int)gg::vertex_id(g, u), (int)gg::target_id(g, uv), (int)gg::edge_value(g, uv)});
  }
  return r;
}
// small weighted graphs: every edge sequence of length <=k, every weight from ws
template <class F>
void weighted(int nmax, int k, std::vector<int> ws, F&& f) {
  for (int n = 0; n <= nmax; ++n)
    for (int m = 0; m <= k; ++m) {
      if (m && !n) continue;
      gen::edge_sequences(n, m, [&](const EL& g) { gen::weightings(g, ws, f); });
    }
}
constexpr long BIG = 1000000;
struct Slots { // an output array of a given length, in storage of exactly that size; what it held can be told from what is written
  template <class T>
  static std::vector<T> make(int n, T v) {
    std::vector<T> r((size_t)n, v);
    r.shrink_to_fit();
    return r;
  }
};
#if WHAT == 31 && (PART == 1 || PART == 2)
#  if PART == 1
constexpr bool DIJ = true;
#    define PATHS gg::dijkstra_shortest_paths
#    define DISTS gg::dijkstra_shortest_distances
#  else
constexpr bool DIJ = false;
#    define PATHS gg::bellman_ford_shortest_paths
#    define DISTS gg::bellman_ford_shortest_distances
#  endif
// distances by exhaustive relaxation; nothing when the call must throw
std::vector<long> distances(const Model& m, const std::vector<int64_t>& src) {
  std::vector<long> d((size_t)m.n, BIG);
  for (auto s : src)
    d[(size_t)s] = 0;
  for (int it = 0; it < m.n; ++it)
    for (int u = 0; u < m.n; ++u)
      if (d[(size_t)u] < BIG)
        for (auto& [v, w] : m.rows[(size_t)u])
          d[(size_t)v] = std::min(d[(size_t)v], d[(size_t)u] + w);
  return d;
}
bool neg_cycle(const Model& m, const std::vector<int64_t>& src) {
  auto d = distances(m, src);
  for (int u = 0; u < m.n; ++u)
    if (d[(size_t)u] < BIG)
      for (auto& [v, w] : m.rows[(size_t)u])
        if (d[(size_t)u] + w < d[(size_t)v]) return true;
  return false;
}
bool reach_negative(const Model& m, const std::vector<int64_t>& src) {
  Model z = m;
  for (auto& r : z.rows)
    for (auto& x : r)
      x.second = 0;
  auto d = distances(z, src);
  for (int u = 0; u < m.n; ++u)
    if (d[(size_t)u] < BIG)
      for (auto& x : m.rows[(size_t)u])
        if (x.second < 0) return true;
  return false;
}
// D: distance type; W: weight type; Src: element type of the source list
template <class R, class D, class W, class Src>
void one(typename R::G& g, const Model& m, const std::vector<int64_t>& src, int dl, int pl, bool weighted_call) {
  using Id   = gg::vertex_id_t<typename R::G>;
  auto before = snap(g);
  auto wf     = [](const auto& gr, const auto& uv) -> W {
    if constexpr (std::is_reference_v<W>)
      return gg::edge_value(gr, uv);
    else
      return (W)gg::edge_value(gr, uv);
  };
  bool bad    = dl < m.n;
  for (auto s : src)
    bad |= s < 0 || s >= m.n;
  bool       badp = bad || pl < m.n;
  const bool neg  = DIJ && weighted_call && !badp && reach_negative(m, src);
  const bool cyc  = weighted_call && !badp && neg_cycle(m, src);
  Model      unit = m;
  for (auto& r : unit.rows)
    for (auto& x : r)
      x.second = 1;
  std::vector<Src> sources;
  for (auto s : src)
    sources.push_back((Src)s);
  const D inf = gg::shortest_path_infinite_distance<D>();
  auto    run = [&](int form) {
    auto d = Slots::make<D>(dl, inf);
    auto p = Slots::make<Id>(pl, (Id)77);
    const bool usep = form == 0 || form == 1;
    bool       want_bad = (usep ? badp : bad);
    const bool single   = form == 1 || form == 3;
    if (single && (src.size() != 1 || src[0] < (int64_t)std::numeric_limits<Id>::min() || src[0] > (int64_t)std::numeric_limits<Id>::max())) return;
    if (single && (int64_t)(Id)src[0] != src[0]) return;
    bool want_neg = DIJ && weighted_call && !want_bad && (usep ? neg : reach_negative(m, src));
    std::string want = want_bad || want_neg ? "out_of_range" : "returns";
    std::string got  = outcome_of([&] {
      if (weighted_call) {
        switch (form) {
        case 0: PATHS(g, sources, d, p, wf); break;
        case 1: PATHS(g, (Id)src[0], d, p, wf); break;
        case 2: DISTS(g, sources, d, wf); break;
        default: DISTS(g, (Id)src[0], d, wf);
        }
      } else {
        switch (form) {
        case 0: PATHS(g, sources, d, p); break;
        case 1: PATHS(g, (Id)src[0], d, p); break;
        case 2: DISTS(g, sources, d); break;
        default: DISTS(g, (Id)src[0], d);
        }
      }
    });
    MC_CHECK(got == want, (single ? "single source" : "source list") << (usep ? " paths" : " distances") << (weighted_call ? " weighted" : "") << ", distances " << dl << " predecessors " << pl << ": expected " << want << ", " << got);
    MC_CHECK(snap(g) == before, "the graph changed");
    if (want == "returns" && !(weighted_call && (usep ? cyc : neg_cycle(m, src)))) {
      auto e = distances(weighted_call ? m : unit, src);
      for (int i = 0; i < m.n; ++i)
        MC_CHECK(e[(size_t)i] == BIG ? d[(size_t)i] == inf : d[(size_t)i] == (D)e[(size_t)i], "accepted call: distance of " << i);
    }
    for (int i = m.n; i < dl; ++i)
      MC_CHECK(d[(size_t)i] == inf, "distance slot " << i << " beyond the vertices was written");
    for (int i = m.n; usep && i < pl; ++i)
      MC_CHECK(p[(size_t)i] == (Id)77, "predecessor slot " << i << " beyond the vertices was written");
    mc::transition();
    if (want != "returns") mc::count("rejected");
    else
      mc::count("accepted");
  };
  for (int form = 0; form < 4; ++form)
    run(form);
}
template <class R, class D = int, class W = int, class Src = gg::vertex_id_t<typename R::G>>
void sources(Suite& S) {
  weighted(mc::tier(2, 3), 2, {0, 1, -1}, [&](const EL& el) {
    if (S.stop()) return;
    S.run_case(
          el.key(), [&] { return S.name + " " + el.str(); },
          [&] {
            auto                 g = R::make(el);
            const Model          m = R::model(el);
            std::vector<int64_t> vals;
            for (int64_t v = 0; v <= m.n + 1; ++v)
              vals.push_back(v);
            if (std::is_signed_v<Src>) {
              vals.push_back(-1);
              vals.push_back((int64_t)std::numeric_limits<Src>::min());
            }
            vals.push_back((int64_t)(std::numeric_limits<Src>::max() / 2 + 1) * (sizeof(Src) < 8)); // wraps to small ids when truncated
            if (sizeof(Src) == 8) vals.push_back(int64_t(1) << 32);
            std::vector<std::vector<int64_t>> lists{{}};
            for (auto a : vals) {
              lists.push_back({a});
              for (auto b : vals)
                lists.push_back({a, b});
            }
            for (auto& l : lists) {
              one<R, D, W, Src>(g, m, l, m.n, m.n, true);
              if (l.size() < 2 || mc::thorough()) one<R, D, W, Src>(g, m, l, m.n, m.n, false);
            }
            for (int dl = 0; dl <= m.n + 1; ++dl)
              for (int pl = 0; pl <= m.n + 1; ++pl)
                for (auto& l : lists)
                  if (l.size() < 2) one<R, D, W, Src>(g, m, l, dl, pl, true);
            S.nontrivial();
            mc::trace();
            mc::state(mc::Hash().add(S.name_hash).add(el.key()).h);
            mc::outcome(mc::Hash().add(S.name_hash).add(el.key()).h);
          });
  });
}
MC_SUITE(vov) { sources<Lib<vov_z<>>>(S); }
MC_SUITE(vol_int64_sources) { sources<Lib<vol_z<>>, long, int, int64_t>(S); }
MC_SUITE(std_pairs) { sources<Indexed<vector<vector<pair<int, int>>>>, double, int>(S); }
MC_SUITE(csr_signed_sources) { sources<Lib<csr_z<>>, int, long, int>(S); }
MC_SUITE(ual) { sources<Lib<ual_z<>>, int, double>(S); }
MC_SUITE(int_ids) { sources<Lib<dov_z<int>>, float, float>(S); }
#  if PART == 1
// the distances cannot be negative, so the weights must not be
MC_SUITE(unsigned_distances) { sources<Lib<vov_z<>>, unsigned, int>(S); }
MC_SUITE(unsigned_long_distances) { sources<Lib<csr_z<>>, uint64_t, long>(S); }
MC_SUITE(weight_references) { sources<Lib<vov_z<>>, int, const int&>(S); }
MC_SUITE(small_weights) { sources<Lib<vov_z<>>, uint8_t, signed char>(S); }
#  endif
#elif WHAT == 31 && PART == 3
template <class R, class W>
void prim(Suite& S) {
  using Id = gg::vertex_id_t<typename R::G>;
  weighted(mc::tier(3, 3), 2, {1, 2}, [&](const EL& el) {
    if (S.stop()) return;
    S.run_case(
          el.key(), [&] { return S.name + " " + el.str(); },
          [&] {
            auto              g      = R::make(el);
            const Model       m      = R::model(el);
            auto              before = snap(g);
            std::vector<Id>   seeds;
            for (int i = 0; i <= m.n + 1; ++i)
              seeds.push_back((Id)i);
            seeds.push_back(std::numeric_limits<Id>::max());
            if (std::is_signed_v<Id>) {
              seeds.push_back((Id)-1);
              seeds.push_back(std::numeric_limits<Id>::min());
            }
            auto wf = [](const auto& gr, const auto& uv) { return (W)gg::edge_value(gr, uv); };
            for (Id s : seeds)
              for (int pl = 0; pl <= m.n + 1; ++pl)
                for (int wl = 0; wl <= m.n + 1; ++wl)
                  for (int form = 0; form < 3; ++form) {
                    if (form == 2 && s != 0) continue;
                    auto        p    = Slots::make<Id>(pl, (Id)77);
                    auto        w    = Slots::make<W>(wl, (W)66);
                    const bool  bad  = (std::is_signed_v<Id> && s < 0) || (uint64_t)s >= (uint64_t)m.n || pl < m.n || wl < m.n;
                    std::string want = bad ? "out_of_range" : "returns";
                    std::string got  = outcome_of([&] {
                      if (form == 0)
                        gg::prim(g, p, w, s);
                      else if (form == 1)
                        gg::prim(g, p, w, std::less<W>{}, std::numeric_limits<W>::max(), wf, s);
                      else
                        gg::prim(g, p, w);
                    });
                    MC_CHECK(got == want, "prim form " << form << " seed " << (long long)s << " predecessors " << pl << " weights " << wl << ": expected " << want << ", " << got);
                    MC_CHECK(snap(g) == before, "the graph changed");
                    for (int i = m.n; i < pl; ++i)
                      MC_CHECK(p[(size_t)i] == (Id)77, "predecessor slot " << i << " beyond the vertices was written");
                    for (int i = m.n; i < wl; ++i)
                      MC_CHECK(w[(size_t)i] == (W)66, "weight slot " << i << " beyond the vertices was written");
                    if (bad) // rejected before anything is written
                      for (auto x : p)
                        MC_CHECK(x == (Id)77, "a rejected call wrote to the predecessors");
                    else
                      MC_CHECK(p[(size_t)s] == s, "the seed is not its own predecessor");
                    mc::transition();
                    mc::count(bad ? "rejected" : "accepted");
                  }
            S.nontrivial();
            mc::trace();
            mc::state(mc::Hash().add(S.name_hash).add(el.key()).h);
            mc::outcome(mc::Hash().add(S.name_hash).add(el.key()).h);
          });
  });
}
MC_SUITE(prim_vov) { prim<Lib<vov_z<>>, int>(S); }
MC_SUITE(prim_vol_int) { prim<Lib<vol_z<int>>, long>(S); }
MC_SUITE(prim_std) { prim<Indexed<vector<vector<pair<int, int>>>>, int>(S); }
MC_SUITE(prim_csr_u8) { prim<Lib<csr_z<uint8_t>>, int>(S); }
MC_SUITE(prim_ual) { prim<Lib<ual_z<>>, double>(S); }
#endif
#if WHAT == 31 && PART >= 4
// ---- containers
using da::Tok;
template <class G>
std::vector<std::array<int, 3>> content(const G& g) {
  std::vector<std::array<int, 3>> r;
  for (auto&& u : gg::vertices(g)) {
    r.push_back({(int)gg::vertex_id(g, u), -1, gg::vertex_value(g, u).get()});
    for (auto&& uv : gg::edges(g, u))
      r.push_back({(int)gg::vertex_id(g, u), (int)gg::target_id(g, uv), gg::edge_value(g, uv).get()});
  }
  return r;
}
template <class G>
std::vector<std::array<int, 3>> vertex_values(const G& g) {
  std::vector<std::array<int, 3>> r;
  for (auto&& u : gg::vertices(g))
    r.push_back({(int)gg::vertex_id(g, u), -1, gg::vertex_value(g, u).get()});
  return r;
}
template <class Id>
std::vector<gg::copyable_edge_t<Id, Tok>> edge_list(const EL& el) {
  std::vector<gg::copyable_edge_t<Id, Tok>> r;
  for (auto& x : el.e)
    r.push_back({(Id)x.u, (Id)x.v, Tok(x.w)});
  return r;
}
template <class Id>
std::vector<gg::copyable_vertex_t<Id, Tok>> vertex_list(const std::vector<int>& ids) {
  std::vector<gg::copyable_vertex_t<Id, Tok>> r;
  for (size_t i = 0; i < ids.size(); ++i)
    r.push_back({(Id)ids[i], Tok(500 + (int)i)});
  return r;
}
// all sequences of length <=k over 0..hi
template <class F>
void sequences(int k, int hi, F&& f) {
  std::vector<int> s;
  auto rec = [&](auto&& self) -> void {
    f(s);
    if ((int)s.size() == k) return;
    for (int i = 0; i <= hi; ++i) {
      s.push_back(i);
      self(self);
      s.pop_back();
    }
  };
  rec(rec);
}
template <class T>
struct OnePass { // a range that can be read once
  const std::vector<T>* v;
  struct It {
    using value_type = T; using difference_type = std::ptrdiff_t; using iterator_concept = std::input_iterator_tag;
    const T* p = nullptr;
    const T& operator*() const { return *p; }
    It& operator++() { ++p; return *this; }
    void operator++(int) { ++p; }
    bool operator==(const It&) const = default;
  };
  It begin() const { return {v->data()}; }
  It end() const { return {v->data() + v->size()}; }
};
// after a call was rejected the graph must still be usable
template <class G>
void usable(G& g) {
  auto c = content(g);
  {
    G copy(g);
    MC_CHECK(content(copy) == c, "a copy of the graph differs after a rejected call");
    copy.clear();
    MC_CHECK(content(copy).empty(), "clear after a rejected call");
    copy = g;
    MC_CHECK(content(copy) == c, "assignment after a rejected call");
  }
  MC_CHECK(content(g) == c, "copying a graph changed it");
}
void done(Suite& S, uint64_t k) {
  S.nontrivial();
  mc::trace();
  mc::state(mc::Hash().add(S.name_hash).add(k).h);
  mc::outcome(mc::Hash().add(S.name_hash).add(k).h);
}
#endif
#if WHAT == 31 && PART == 4
template <class G>
void dynamic(Suite& S) {
  using Id = typename G::vertex_id_type;
  // loading edges into a graph of a stated size
  for (int n = 1; n <= 3; ++n)
    gen::edge_sequences(4, 2, [&](EL el) {
      if (S.stop()) return;
      el.e[0].w = 100;
      el.e[1].w = 101;
      S.run_case(
            el.key() + (uint64_t)n * 7919, [&] { return S.name + " load_edges into " + std::to_string(n) + " vertices: " + el.str(); },
            [&] {
              const auto es  = edge_list<Id>(el);
              bool       bad = false;
              size_t     ok  = 0; // edges before the bad one
              for (auto& x : el.e) {
                bad |= x.u >= n || x.v >= n;
                if (!bad) ++ok;
              }
              std::vector<int> ids;
              for (int i = 0; i < n; ++i)
                ids.push_back(i);
              for (int form = 0; form < 3; ++form) {
                G g;
                g.load_vertices(vertex_list<Id>(ids), std::identity{}, (size_t)n);
                auto        vs   = vertex_values(g);
                std::string want = bad ? "runtime_error" : "returns", got;
                auto        copy = es;
                if (form == 0)
                  got = outcome_of([&] { g.load_edges(copy, std::identity{}, (size_t)n); });
                else if (form == 1)
                  got = outcome_of([&] { g.load_edges(std::move(copy), std::identity{}, (size_t)n); });
                else
                  got = outcome_of([&] { g.load_edges(OnePass<gg::copyable_edge_t<Id, Tok>>{&es}, std::identity{}); });
                MC_CHECK(got == want, "load form " << form << ": expected " << want << ", " << got);
                MC_CHECK(vertex_values(g) == vs, "the vertices changed");
                // whatever was loaded before the bad edge is part of the list, in order, at its own vertex
                size_t total = 0;
                for (auto&& u : gg::vertices(g)) {
                  std::vector<std::pair<int, int>> got_row, want_row;
                  for (auto&& uv : gg::edges(g, u))
                    got_row.push_back({(int)gg::target_id(g, uv), gg::edge_value(g, uv).get()});
                  for (size_t i = 0; i < ok; ++i)
                    if (el.e[i].u == (int)gg::vertex_id(g, u)) want_row.push_back({el.e[i].v, el.e[i].w});
                  std::sort(got_row.begin(), got_row.end());
                  std::sort(want_row.begin(), want_row.end());
                  if (!bad)
                    MC_CHECK(got_row == want_row, "edges of an accepted load");
                  else
                    for (auto& x : got_row)
                      MC_CHECK(std::find(want_row.begin(), want_row.end(), x) != want_row.end(), "an edge that was not in the list before the bad one");
                  total += got_row.size();
                }
                MC_CHECK((size_t)gg::num_edges(g) == total, "num_edges is " << gg::num_edges(g) << ", " << total << " edges are there");
                usable(g);
                mc::count(bad ? "rejected" : "accepted");
                mc::transition();
              }
              done(S, el.key() + n);
            });
    });
  // loading vertices with ids the graph does not have
  for (int n = 0; n <= 2; ++n)
    sequences(3, 4, [&](const std::vector<int>& ids) {
      if (S.stop()) return;
      uint64_t k = 17 + (uint64_t)n;
      for (int i : ids)
        k = k * 31 + (uint64_t)i + 1;
      S.run_case(
            k, [&] { return S.name + " load_vertices " + mc::str(ids) + " into " + std::to_string(n); },
            [&] {
              const auto vs    = vertex_list<Id>(ids);
              for (int cnt = 0; cnt <= 3; ++cnt)
                for (int form = 0; form < 2; ++form) {
                  G g;
                  if (n) g.resize_vertices((size_t)n);
                  const size_t N   = std::max({(size_t)n, (size_t)cnt, ids.size()});
                  bool         bad = false;
                  for (int i : ids)
                    bad |= (size_t)i >= N;
                  auto        copy = vs;
                  std::string want = bad ? "out_of_range" : "returns";
                  std::string got  = form == 0 ? outcome_of([&] { g.load_vertices(vs, std::identity{}, (size_t)cnt); }) : outcome_of([&] { g.load_vertices(std::move(copy), std::identity{}, (size_t)cnt); });
                  MC_CHECK(got == want, "count " << cnt << " form " << form << ": expected " << want << ", " << got);
                  MC_CHECK(gg::num_vertices(g) == N && gg::num_edges(g) == 0, "graph size");
                  if (!bad)
                    for (int i = 0; i < (int)N; ++i) {
                      int want_v = 0;
                      for (size_t j = 0; j < ids.size(); ++j)
                        if (ids[j] == i) want_v = 500 + (int)j;
                      MC_CHECK(gg::vertex_value(g, *gg::find_vertex(g, (Id)i)).get() == want_v, "value of vertex " << i);
                    }
                  usable(g);
                  mc::count(bad ? "rejected" : "accepted");
                  mc::transition();
                }
              done(S, k);
            });
    });
}
template <class G>
void access(Suite& S, std::vector<int> present) { // reading a vertex by id
  using Id = typename G::vertex_id_type;
  S.run_case(
        present.size(), [&] { return S.name + " element access"; },
        [&] {
          G g;
          if constexpr (requires { g.resize_vertices(size_t(1)); }) g.resize_vertices(present.size());
          g.load_vertices(vertex_list<Id>(present), std::identity{});
          auto     before = content(g);
          const G& cg     = g;
          auto     ask    = [&](long long i, bool id) {
            bool in = false;
            int  v  = 0;
            for (size_t j = 0; j < present.size(); ++j)
              if (present[j] == i) in = true, v = 500 + (int)j;
            std::string want = in ? "returns" : "out_of_range";
            int         a = v, b = v;
            EXPECT(want, "operator[] of " << i, { a = g[(size_t)i].value().get(); });
            EXPECT(want, "operator[] const of " << i, { b = cg[(size_t)i].value().get(); });
            MC_CHECK(a == v && b == v, "operator[] of " << i << " is another vertex");
            if (id) {
              EXPECT(want, "vertex_at of " << i, { a = g.vertex_at((Id)i).value().get(); });
              EXPECT(want, "vertex_at const of " << i, { b = cg.vertex_at((Id)i).value().get(); });
              MC_CHECK(a == v && b == v, "vertex_at of " << i << " is another vertex");
              // queries that answer instead of throwing
              MC_CHECK(cg.contains_vertex((Id)i) == in, "contains_vertex of " << i);
              auto f  = g.try_find_vertex((Id)i);
              auto cf = cg.try_find_vertex((Id)i);
              MC_CHECK((f != g.end()) == in && (cf != cg.end()) == in, "try_find_vertex of " << i);
              auto d  = gg::find_vertex(g, (Id)i);
              auto cd = gg::find_vertex(cg, (Id)i);
              MC_CHECK((d != gg::vertices(g).end()) == in && (cd != gg::vertices(cg).end()) == in, "find_vertex of " << i);
              if (in) {
                auto at = [](auto&& x) -> const auto* {
                  if constexpr (requires { x.second.value(); })
                    return &x.second;
                  else
                    return &x;
                };
                MC_CHECK(at(*f) == &g.vertex_at((Id)i) && at(*cf) == at(*f), "try_find_vertex of " << i << " is another vertex");
                MC_CHECK((long long)gg::vertex_id(g, *d) == i && (long long)gg::vertex_id(cg, *cd) == i, "find_vertex of " << i << " is another vertex");
              }
            }
            mc::transition();
            mc::count(in ? "accepted" : "rejected");
          };
          for (long long i = 0; i <= 20; ++i)
            ask(i, true);
          ask((long long)std::numeric_limits<Id>::max(), true);
          if (std::is_signed_v<Id>) {
            ask(-1, true);
            ask((long long)std::numeric_limits<Id>::min(), true);
          }
          if constexpr (sizeof(Id) < 8)
            for (long long i = 0; i <= 20; ++i)
              ask(i + (1ll << (8 * sizeof(Id))), false); // out of the id type's range
          ask(-1, std::is_signed_v<Id>);
          MC_CHECK(content(g) == before, "reading changed the graph");
          done(S, present.size());
        });
}
template <template <class, class, class, class, bool> class Tr, class Id>
using DG = gg::container::dynamic_graph<Tok, Tok, void, Id, false, Tr<Tok, Tok, void, Id, false>>;
MC_SUITE(vov) { dynamic<DG<gg::container::vov_graph_traits, uint32_t>>(S); }
MC_SUITE(vol) { dynamic<DG<gg::container::vol_graph_traits, uint32_t>>(S); }
MC_SUITE(dov) { dynamic<DG<gg::container::dov_graph_traits, int>>(S); }
MC_SUITE(dofl) { dynamic<DG<gg::container::dofl_graph_traits, uint8_t>>(S); }
MC_SUITE(vov_bi) { dynamic<gg::container::dynamic_graph<Tok, Tok, void, uint32_t, true, gg::container::vov_graph_traits<Tok, Tok, void, uint32_t, true>>>(S); }
MC_SUITE(access_vov) { for (auto& p : std::vector<std::vector<int>>{{}, {0}, {0, 1, 2}}) access<DG<gg::container::vov_graph_traits, uint32_t>>(S, p); }
MC_SUITE(access_dov_int) { for (auto& p : std::vector<std::vector<int>>{{}, {0}, {0, 1, 2}}) access<DG<gg::container::dov_graph_traits, int>>(S, p); }
MC_SUITE(access_vol_u8) { for (auto& p : std::vector<std::vector<int>>{{}, {0}, {0, 1, 2}}) access<DG<gg::container::vol_graph_traits, uint8_t>>(S, p); }
MC_SUITE(access_mov) { for (auto& p : std::vector<std::vector<int>>{{}, {3}, {3, 0, 17}}) access<DG<gg::container::mov_graph_traits, uint32_t>>(S, p); }
MC_SUITE(access_mol_int) { for (auto& p : std::vector<std::vector<int>>{{}, {3}, {3, 0, 17}}) access<DG<gg::container::mol_graph_traits, int>>(S, p); }
MC_SUITE(access_uov_u8) { for (auto& p : std::vector<std::vector<int>>{{}, {3}, {3, 0, 17}}) access<DG<gg::container::uov_graph_traits, uint8_t>>(S, p); }
// partition lists
template <class G>
void partitions(Suite& S) {
  using Id = typename G::vertex_id_type;
  sequences(mc::tier(3, 4), 4, [&](const std::vector<int>& ps) {
    if (S.stop()) return;
    uint64_t k = 5;
    for (int i : ps)
      k = k * 31 + (uint64_t)i + 1;
    S.run_case(
          k, [&] { return S.name + " partitions starting at " + mc::str(ps); },
          [&] {
            for (int n = 1; n <= 3; ++n) {
              EL el{n, {}};
              el.e.push_back({0, n - 1, 9});
              auto            es = edge_list<Id>(el);
              std::vector<Id> starts(ps.begin(), ps.end());
              bool            bad = !ps.empty() && ps[0] != 0;
              for (size_t i = 1; i < ps.size(); ++i)
                bad |= ps[i] <= ps[i - 1];
              bad |= !ps.empty() && ps.back() > n;
              EXPECT((bad ? "invalid_argument" : "returns"), "partitions of " << n << " vertices", {
                G g(es, vertex_list<Id>(n == 1 ? std::vector<int>{0} : n == 2 ? std::vector<int>{0, 1} : std::vector<int>{0, 1, 2}), std::identity{}, std::identity{}, starts);
                MC_CHECK(gg::num_vertices(g) == (size_t)n, "vertices of an accepted graph");
                usable(g);
              });
              mc::count(bad ? "rejected" : "accepted");
              mc::transition();
            }
            done(S, k);
          });
  });
}
template <class G>
void max_ids(Suite& S) {
  using Id = typename G::vertex_id_type;
  S.run_case(1, [] { return std::string("the largest vertex id as a graph size"); }, [&] {
    std::vector<gg::copyable_edge_t<Id, Tok>> es{{(Id)0, (Id)1, Tok(5)}};
    for (int m = 1; m <= (int)std::numeric_limits<Id>::max(); ++m) {
      const bool bad = m == (int)std::numeric_limits<Id>::max();
      EXPECT((bad ? "invalid_argument" : "returns"), "maximum id " << m, {
        G g((Id)m, es, std::identity{}, std::vector<Id>{});
        MC_CHECK(gg::num_vertices(g) == (size_t)m + 1 && gg::num_edges(g) == 1, "the accepted graph has " << gg::num_vertices(g) << " vertices");
      });
      mc::transition();
    }
    done(S, 1);
  });
}
MC_SUITE(partitions_vov) { partitions<DG<gg::container::vov_graph_traits, uint32_t>>(S); }
MC_SUITE(partitions_dol) { partitions<DG<gg::container::dol_graph_traits, int>>(S); }
MC_SUITE(max_id_u8) { max_ids<DG<gg::container::vov_graph_traits, uint8_t>>(S); }
MC_SUITE(max_id_i8) { max_ids<DG<gg::container::vol_graph_traits, int8_t>>(S); }
#elif WHAT == 31 && PART == 5
template <class G>
void csr(Suite& S) {
  using Id = typename G::vertex_id_type;
  // edges out of order
  for (int k = 1; k <= 3; ++k)
    gen::edge_sequences(3, k, [&](EL el) {
      if (S.stop()) return;
      for (int i = 0; i < k; ++i)
        el.e[(size_t)i].w = 100 + i;
      S.run_case(
            el.key(), [&] { return S.name + " edges " + el.str(); },
            [&] {
              const auto  es  = edge_list<Id>(el);
              const bool  bad = !std::is_sorted(el.e.begin(), el.e.end(), [](auto& a, auto& b) { return a.u < b.u; });
              std::string want = bad ? "graph_error" : "returns";
              int         hi   = 0;
              for (auto& x : el.e)
                hi = std::max({hi, x.u, x.v});
              EXPECT(want, "constructor from edges", {
                G g(es, std::identity{}, std::vector<Id>{});
                MC_CHECK(gg::num_vertices(g) == (size_t)hi + 1 && gg::num_edges(g) == el.e.size(), "accepted graph");
              });
              for (int pre = 0; pre <= 2; ++pre)
                for (int form = 0; form < 2; ++form) {
                  G g;
                  std::vector<int> ids;
                  for (int i = 0; i < pre; ++i)
                    ids.push_back(i);
                  g.load_vertices(vertex_list<Id>(ids), std::identity{});
                  auto vs   = vertex_values(g);
                  auto copy = es;
                  auto got  = form == 0 ? outcome_of([&] { g.load_edges(es, std::identity{}); }) : outcome_of([&] { g.load_edges(std::move(copy), std::identity{}); });
                  MC_CHECK(got == want, "load_edges form " << form << " after " << pre << " vertices: expected " << want << ", " << got);
                  auto after = vertex_values(g);
                  MC_CHECK(after.size() >= vs.size() && std::equal(vs.begin(), vs.end(), after.begin()), "vertices loaded before changed");
                  if (bad) { // usable: it can be loaded again
                    usable(g);
                    EL         so = gen::by_source(el);
                    const auto s2 = edge_list<Id>(so);
                    g.clear();
                    g.load_edges(s2, std::identity{});
                    G fresh;
                    fresh.load_edges(s2, std::identity{});
                    MC_CHECK(content(g) == content(fresh), "a load after a rejected one gives another graph");
                  } else
                    MC_CHECK((size_t)gg::num_edges(g) == el.e.size(), "edges of an accepted load");
                  usable(g);
                  mc::transition();
                  mc::count(bad ? "rejected" : "accepted");
                }
              done(S, el.key());
            });
    });
  // vertex ids beyond the vertices are accepted
  for (int pre = 0; pre <= 2; ++pre)
    sequences(3, 4, [&](const std::vector<int>& ids) {
      if (S.stop() || ids.empty()) return;
      uint64_t k = 17 + (uint64_t)pre;
      for (int i : ids)
        k = k * 31 + (uint64_t)i + 1;
      S.run_case(
            k, [&] { return S.name + " load_vertices " + mc::str(ids) + " into " + std::to_string(pre); },
            [&] {
              const auto vs = vertex_list<Id>(ids);
              for (int cnt = 0; cnt <= 3; ++cnt)
                for (int form = 0; form < 2; ++form) {
                  G                g;
                  std::vector<int> first;
                  for (int i = 0; i < pre; ++i)
                    first.push_back(i);
                  g.load_vertices(vertex_list<Id>(first), std::identity{});
                  size_t N = std::max((size_t)pre, (size_t)cnt); // the graph grows to the largest id given
                  for (int i : ids)
                    N = std::max(N, (size_t)i + 1);
                  const bool  bad  = false;
                  auto        copy = vs;
                  std::string want = "returns";
                  std::string got  = form == 0 ? outcome_of([&] { g.load_vertices(vs, std::identity{}, (size_t)cnt); }) : outcome_of([&] { g.load_vertices(std::move(copy), std::identity{}, (size_t)cnt); });
                  MC_CHECK(got == want, "count " << cnt << " form " << form << ": expected " << want << ", " << got);
                  MC_CHECK(gg::num_edges(g) == 0, "edges appeared");
                  if (!bad) {
                    MC_CHECK(gg::num_vertices(g) == N, "graph size " << gg::num_vertices(g));
                    for (int i = 0; i < (int)N; ++i) {
                      int want_v = i < pre ? 500 + i : 0;
                      for (size_t j = 0; j < ids.size(); ++j)
                        if (ids[j] == i) want_v = 500 + (int)j;
                      MC_CHECK(gg::vertex_value(g, *gg::find_vertex(g, (Id)i)).get() == want_v, "value of vertex " << i);
                    }
                  }
                  usable(g);
                  mc::count(bad ? "rejected" : "accepted");
                  mc::transition();
                }
              done(S, k);
            });
    });
  // partition lists
  sequences(mc::tier(3, 4), 4, [&](const std::vector<int>& ps) {
    if (S.stop()) return;
    uint64_t k = 777;
    for (int i : ps)
      k = k * 31 + (uint64_t)i + 1;
    S.run_case(
          k, [&] { return S.name + " partitions starting at " + mc::str(ps); },
          [&] {
            for (int n = 1; n <= 3; ++n) {
              EL el{n, {}};
              el.e.push_back({0, n - 1, 9});
              auto            es = edge_list<Id>(el);
              std::vector<Id> starts(ps.begin(), ps.end());
              bool            bad = !ps.empty() && ps[0] != 0;
              for (size_t i = 1; i < ps.size(); ++i)
                bad |= ps[i] <= ps[i - 1];
              bad |= !ps.empty() && ps.back() > n;
              EXPECT((bad ? "graph_error" : "returns"), "partitions of " << n << " vertices", {
                G g(es, std::identity{}, starts);
                MC_CHECK(gg::num_vertices(g) == (size_t)n, "vertices of an accepted graph");
                usable(g);
              });
              mc::count(bad ? "rejected" : "accepted");
              mc::transition();
            }
            done(S, k);
          });
  });
}
template <class G>
void csr_ids(Suite& S) { // edges of a vertex id, inside and outside the graph
  using Id = typename G::vertex_id_type;
  for (int n = 0; n <= 3; ++n)
    for (int k = 0; k <= (n ? 3 : 0); ++k)
      gen::edge_sequences(std::max(n, 1), k, [&](EL el0) {
        if (S.stop() || !std::is_sorted(el0.e.begin(), el0.e.end(), [](auto& a, auto& b) { return a.u < b.u; })) return;
        S.run_case(
              mc::Hash().add(el0.key()).add(n).h, [&] { return S.name + " edge ids of " + el0.str(); },
              [&] {
                const auto       es = edge_list<Id>(el0);
                std::vector<int> ids;
                for (int i = 0; i < n; ++i)
                  ids.push_back(i);
                G g;
                g.load_vertices(vertex_list<Id>(ids), std::identity{});
                if (n) g.load_edges(es, std::identity{});
                const G&        cg = g;
                size_t          at = 0;
                std::set<long long> asked;
                auto            ask = [&](long long i) {
                  if (!asked.insert(i).second) return;
                  size_t want = 0;
                  for (auto& x : el0.e)
                    want += n && x.u == i;
                  auto r = cg.edge_ids((Id)i);
                  MC_CHECK((size_t)std::ranges::distance(r) == want, "edge_ids of " << i << " has " << (size_t)std::ranges::distance(r) << " ids, the vertex " << want << " edges");
                  if (want) MC_CHECK((size_t)*r.begin() == at, "edge_ids of " << i << " starts at " << (size_t)*r.begin());
                  at += want;
                  mc::transition();
                  mc::count(i >= 0 && i < n ? "inside" : "outside");
                };
                for (int i = 0; i <= n + 2; ++i)
                  ask(i);
                if (std::is_signed_v<Id>) ask(-1), ask((long long)std::numeric_limits<Id>::min());
                ask((long long)std::numeric_limits<Id>::max());
                done(S, el0.key());
              });
      });
}
MC_SUITE(csr_ids_u32) { csr_ids<gg::container::compressed_graph<Tok, Tok, void, uint32_t>>(S); }
MC_SUITE(csr_ids_u8) { csr_ids<gg::container::compressed_graph<Tok, Tok, void, uint8_t, uint16_t>>(S); }
MC_SUITE(csr_ids_int) { csr_ids<gg::container::compressed_graph<Tok, Tok, Tok, int, size_t>>(S); }
MC_SUITE(csr_u32) { csr<gg::container::compressed_graph<Tok, Tok, void, uint32_t>>(S); }
MC_SUITE(csr_u8) { csr<gg::container::compressed_graph<Tok, Tok, void, uint8_t, uint16_t>>(S); }
MC_SUITE(csr_int) { csr<gg::container::compressed_graph<Tok, Tok, Tok, int, size_t>>(S); }
#elif WHAT == 31 && PART == 6
template <class G, class GV>
void ual(Suite& S) {
  using Id = typename G::vertex_id_type;
  for (int k = 1; k <= 3; ++k)
    gen::edge_sequences(3, k, [&](EL el) {
      if (S.stop()) return;
      for (int i = 0; i < k; ++i)
        el.e[(size_t)i].w = 100 + i;
      S.run_case(
            el.key(), [&] { return S.name + " edges " + el.str(); },
            [&] {
              const auto  es   = edge_list<Id>(el);
              const bool  bad  = !std::is_sorted(el.e.begin(), el.e.end(), [](auto& a, auto& b) { return a.u < b.u; });
              std::string want = bad ? "invalid_argument" : "returns";
              const auto  vs   = vertex_list<Id>({0, 1, 2});
              EXPECT(want, "constructor from edges", {
                auto mk = [&] {
                  if constexpr (std::is_void_v<GV>)
                    return G(es, std::identity{});
                  else
                    return G(es, std::identity{}, GV(7));
                };
                G g = mk();
                MC_CHECK((size_t)gg::num_edges(g) == el.e.size(), "accepted graph");
                usable(g);
              });
              EXPECT(want, "constructor from edges and vertices", {
                auto mk = [&] {
                  if constexpr (std::is_void_v<GV>)
                    return G(es, vs);
                  else
                    return G(es, vs, std::identity{}, std::identity{}, GV(7));
                };
                G g = mk();
                MC_CHECK((size_t)gg::num_edges(g) == el.e.size() && gg::num_vertices(g) == 3, "accepted graph");
                usable(g);
              });
              using IL = std::initializer_list<std::tuple<Id, Id, Tok>>;
              auto t = [&](size_t i) { return std::tuple<Id, Id, Tok>((Id)el.e[i].u, (Id)el.e[i].v, Tok(el.e[i].w)); };
              if constexpr (std::is_void_v<GV>)
                EXPECT("returns", "constructor from a list of edges, in any order", {
                  if (k == 1)
                    G g(IL{t(0)});
                  else if (k == 2)
                    G g(IL{t(0), t(1)});
                  else
                    G g(IL{t(0), t(1), t(2)});
                });
              mc::transition(3);
              mc::count(bad ? "rejected" : "accepted");
              done(S, el.key());
            });
    });
}
template <class G>
void ual_ids(Suite& S) { // vertices by id, inside and outside the graph
  using Id = typename G::vertex_id_type;
  for (int n = 0; n <= 4; ++n)
    S.run_case(
          (uint64_t)n, [&] { return S.name + " vertices by id of " + std::to_string(n); },
          [&] {
            G g;
            for (int i = 0; i < n; ++i)
              g.create_vertex(Tok(500 + i));
            if (n) g.create_edge((Id)0, (Id)(n - 1), Tok(9));
            const G& cg  = g;
            auto     ask = [&](long long i) {
              const bool in = i >= 0 && i < n;
              auto       f  = g.try_find_vertex((Id)i);
              auto       cf = cg.try_find_vertex((Id)i);
              MC_CHECK((f != g.end()) == in && (cf != cg.end()) == in, "try_find_vertex of " << i << " among " << n);
              auto d  = gg::find_vertex(g, (Id)i);
              auto cd = gg::find_vertex(cg, (Id)i);
              MC_CHECK((d != gg::vertices(g).end()) == in && (cd != gg::vertices(cg).end()) == in, "find_vertex of " << i << " among " << n);
              if (in) {
                MC_CHECK(f->value().get() == 500 + i && cf->value().get() == 500 + i, "try_find_vertex of " << i << " is another vertex");
                MC_CHECK((long long)gg::vertex_id(g, *d) == i && (long long)gg::vertex_id(cg, *cd) == i, "find_vertex of " << i << " is another vertex");
              }
              mc::transition();
              mc::count(in ? "accepted" : "rejected");
            };
            for (int i = 0; i <= n + 2; ++i)
              ask(i);
            if (std::is_signed_v<Id>) ask(-1), ask((long long)std::numeric_limits<Id>::min());
            ask((long long)std::numeric_limits<Id>::max());
            done(S, (uint64_t)n);
          });
}
MC_SUITE(ual_ids_u32) { ual_ids<gg::container::undirected_adjacency_list<Tok, Tok, Tok, uint32_t>>(S); }
MC_SUITE(ual_ids_u8) { ual_ids<gg::container::undirected_adjacency_list<Tok, Tok, int, uint8_t>>(S); }
MC_SUITE(ual_ids_int) { ual_ids<gg::container::undirected_adjacency_list<Tok, Tok, void, int>>(S); }
MC_SUITE(ual_u32) { ual<gg::container::undirected_adjacency_list<Tok, Tok, Tok, uint32_t>, Tok>(S); }
MC_SUITE(ual_u8) { ual<gg::container::undirected_adjacency_list<Tok, Tok, int, uint8_t>, int>(S); }
MC_SUITE(ual_int) { ual<gg::container::undirected_adjacency_list<Tok, Tok, void, int>, void>(S); }
#endif
} // namespace

// C32 (containers): a failing allocation or a throwing projection during a load, edit, copy or assignment neither leaks nor
// corrupts.
#include "dynall.hpp"
#include "fault.hpp"
#include <graph/container/compressed_graph.hpp>
#include <graph/container/undirected_adjacency_list.hpp>
#include <list>
using namespace da;
using mc::Suite;
using flt::Result;

namespace {
#if PART <= 6
// ------------------------------------------------------------------------------------------------ dynamic_graph
template <class G>
void load0(G& g, int k) {
  using A = gargs<G>;
  if (k == 0)
    g.load_edges(ces<G>({{0, 1, 11}, {1, 2, 12}, {2, 0, 13}, {0, 2, 14}}));
  else if (k == 1)
    g.load_edges(ces<G>({{1, 1, 21}, {4, 0, 22}, {3, 4, 23}, {4, 3, 24}, {0, 3, 25}}));
  else if (k == 3)
    g.load_edges(ces<G>({{0, 0, 11}, {0, 1, 12}, {0, 1, 13}, {1, 0, 14}, {1, 1, 15}}));
  if constexpr (!Void<typename A::GV>) g.graph_value() = typename A::GV(50 + k);
}
template <class G>
Model model0(int k) {
  using A = gargs<G>;
  Model m;
  EL    l;
  if (k == 0) l = {{0, 1, 11}, {1, 2, 12}, {2, 0, 13}, {0, 2, 14}};
  if (k == 1) l = {{1, 1, 21}, {4, 0, 22}, {3, 4, 23}, {4, 3, 24}, {0, 3, 25}};
  if (k == 3) l = {{0, 0, 11}, {0, 1, 12}, {0, 1, 13}, {1, 0, 14}, {1, 1, 15}};
  if (!A::MAP)
    for (auto& e : l)
      for (int i = 0; i <= std::max(e.u, e.v); ++i)
        m.v[i];
  for (auto& e : l)
    model_edge<G>(m, e.u, e.v, e.w);
  if (!Void<typename A::GV>) m.gv = 50 + k;
  return m;
}
// Everything a user may do with a graph an operation on which has failed.
template <class G>
void usable(G& g, const Model* keeps) {
  using A   = gargs<G>;
  using VId = typename A::VId;
  {
    const char* fault = nullptr;
    // read() reports every inconsistency between the listings, the counts and the lookups
    Model got = read(g, fault);
    MC_CHECK(!fault, "the graph contradicts itself: " << fault << "; holds " << got.str());
    std::multiset<std::pair<int, int>> out, in;
    for (auto& [i, x] : got.v) {
      for (auto& e : x.out) {
        MC_CHECK(got.v.count(e.id), "an edge leads to vertex " << e.id << ", which does not exist; holds " << got.str());
        out.insert({i, e.id});
      }
      for (auto& e : x.in) {
        MC_CHECK(got.v.count(e.id), "an edge comes from vertex " << e.id << ", which does not exist; holds " << got.str());
        in.insert({e.id, i});
      }
    }
    if (A::Bi) MC_CHECK(out == in, "incoming and outgoing edges differ; holds " << got.str());
    if (keeps)
      for (auto& [i, x] : keeps->v) {
        MC_CHECK(got.v.count(i), "vertex " << i << " is lost; holds " << got.str());
        MC_CHECK(got.v[i].val == x.val || x.val == 0, "the value of vertex " << i << " is lost; holds " << got.str());
        auto rest = got.v[i].out;
        for (auto& e : x.out) {
          auto f = std::find(rest.begin(), rest.end(), e);
          MC_CHECK(f != rest.end(), "edge " << i << ">" << e.id << "/" << e.val << " is lost; holds " << got.str());
          rest.erase(f);
        }
      }
    G copy(g);
    agree(copy, got, "a copy of it");
    G moved(std::move(copy));
    if constexpr (!Void<typename A::GV>) got.gv = val_of(moved.graph_value());
    agree(moved, got, "moved");
  }
  const Model m1 = model0<G>(1);
  {
    G other;
    load0(other, 1);
    G mine(g);
    mine = other; // assignable
    agree(mine, m1, "assigned over");
    std::swap(mine, other);
    agree(other, m1, "swapped");
  }
  g.clear();
  load0(g, 1);
  agree(g, m1, "cleared and loaded again");
  g = G();
}
template <class G>
struct St {
  G                    a, b;
  std::unique_ptr<G>   res;
  std::vector<CE<G>>   src, keep;
  std::vector<CV<G>>   vs;
  std::vector<typename gargs<G>::VId> none;
  EL                   raw;
  std::list<E3>        lst;
  std::vector<std::pair<int, int>> vraw;
};
template <class G>
struct CeFn {
  CE<G> operator()(const E3& e) const {
    flt::tick();
    return ce<G>(e);
  }
};
template <class G>
struct CvFn {
  CV<G> operator()(const std::pair<int, int>& p) const {
    flt::tick();
    return cv<G>(p.first, p.second);
  }
};
template <class G>
bool eq(const std::vector<CE<G>>& a, const std::vector<CE<G>>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) {
    if (a[i].source_id != b[i].source_id || a[i].target_id != b[i].target_id) return false;
    if constexpr (!Void<typename gargs<G>::EV>)
      if (!(a[i].value == b[i].value)) return false;
  }
  return true;
}
// what an operation does to slot a (-1 gone/moved), to its sources, and what it makes
template <class G>
void dyn(Suite& S) {
  using A   = gargs<G>;
  using VId = typename A::VId;
  constexpr bool STR = std::is_same_v<VId, std::string>;
  static const char* names[] = {"construct from an initializer list", "construct from a value and an initializer list", "construct from edges and vertices", "construct from the largest id and edges",
                                "copy-construct", "move-construct", "copy-assign", "move-assign", "swap", "load_edges(const&)", "load_edges(&&)", "load_edges(projection)", "load_edges(single pass, projection)",
                                "load_edges(known count)", "load_vertices(const&)", "load_vertices(&&)", "load_vertices(projection)", "resize_vertices up", "reserve", "clear", "load into an empty graph",
                                "construct from edges and vertices, projections", "construct from a graph value", "assign to a vertex and an edge value", "load_edges(projection, known count)"};
  const EL addl[] = {{{0, 1, 31}}, {{2, 1, 31}, {1, 0, 32}, {0, 1, 33}}, {{5, 1, 31}, {1, 5, 32}, {3, 3, 33}}, {}};
  uint64_t key = 0;
  for (int start : {0, 2, 3})
  for (int op = 0; op < 25; ++op)
    for (int li = 0; li < 4; ++li) {
      if (start && (mc::tier(1, 0) || op <= 3 || op >= 21 && op <= 23)) continue; // nothing depends on the start state
      if ((op >= 4 && op <= 8 || op == 17 || op == 18 || op == 19 || op == 22 || op == 23) && li) continue;
      if (STR && op == 3) continue;
      if (Void<typename A::GV> && (op == 1 || op == 22)) continue;
      if (!A::MAP && op == 13 && li == 2) continue; // ids beyond the known count are rejected: C31
      S.run_case(
            ++key, [&] { return std::string(names[op]) + " " + show(addl[li]) + (start ? " from state " + std::to_string(start) : ""); },
            [&] {
              const EL& l = addl[li];
              S.nontrivial();
              Model want = model0<G>(start), fresh;
              const Model m0 = want, m1 = model0<G>(1);
              auto  grow = [&](Model& m, size_t n) {
                if (!A::MAP)
                  for (size_t i = 0; i < n; ++i)
                    m.v[(int)i];
              };
              auto loaded = [&](Model& m, bool infer) {
                if (infer)
                  for (auto& e : l)
                    grow(m, (size_t)std::max(e.u, e.v) + 1);
                for (auto& e : l)
                  model_edge<G>(m, e.u, e.v, e.w);
              };
              const std::vector<std::pair<int, int>> vraw = {{2, 42}, {0, 40}, {1, 41}, {4, 44}, {3, 43}, {5, 45}};
              auto vals = [&](Model& m) {
                for (auto& [i, x] : vraw)
                  m.v[i].val = Void<typename A::VV> ? 0 : x;
              };
              auto mk = [&] {
                auto st = std::make_unique<St<G>>();
                load0(st->a, start), load0(st->b, 1);
                st->src = st->keep = ces<G>(l);
                st->raw = l, st->vraw = vraw, st->lst.assign(l.begin(), l.end());
                for (auto& p : vraw)
                  st->vs.push_back(cv<G>(p.first, p.second));
                st->res = nullptr;
                return st;
              };
              auto run = [&](St<G>& s) {
                const CeFn<G> pe{};
                const CvFn<G> pv{};
                auto          il = [&](auto&& f) {
                  if (l.size() == 0) f(std::initializer_list<CE<G>>{});
                  else if (l.size() == 1) f({s.keep[0]});
                  else f({s.keep[0], s.keep[1], s.keep[2]});
                };
                switch (op) {
                case 0: il([&](std::initializer_list<CE<G>> i) { s.res = std::make_unique<G>(i); }); break;
                case 1:
                  if constexpr (!Void<typename A::GV>) {
                    const typename A::GV gv(5);
                    il([&](std::initializer_list<CE<G>> i) { s.res = std::make_unique<G>(gv, i); });
                  }
                  break;
                case 2: s.res = std::make_unique<G>(s.src, s.vs, std::identity{}, std::identity{}, s.none); break;
                case 21: s.res = std::make_unique<G>(s.raw, s.vraw, pe, pv, s.none); break;
                case 3:
                  if constexpr (!STR) s.res = std::make_unique<G>((VId)5, s.src, std::identity{}, s.none);
                  break;
                case 4: s.res = std::make_unique<G>(std::as_const(s.a)); break;
                case 5: s.res = std::make_unique<G>(std::move(s.a)); break;
                case 6: s.a = s.b; break;
                case 7: s.a = std::move(s.b); break;
                case 8: std::swap(s.a, s.b); break;
                case 9: s.a.load_edges(std::as_const(s.src)); break;
                case 10: s.a.load_edges(std::move(s.src)); break;
                case 11: s.a.load_edges(s.lst, pe); break;
                case 12: s.a.load_edges(OnePass<E3>{&s.raw}, pe, (size_t)6); break;
                case 13: s.a.load_edges(std::as_const(s.src), std::identity{}, (size_t)4, s.src.size()); break;
                case 24: s.a.load_edges(s.raw, pe, (size_t)6, s.raw.size()); break;
                case 14: s.a.load_vertices(std::as_const(s.vs)); break;
                case 15: s.a.load_vertices(std::move(s.vs)); break;
                case 16: s.a.load_vertices(s.vraw, pv, (size_t)(li ? 6 : 0)); break;
                case 17: s.a.resize_vertices(9); break;
                case 18: s.a.reserve_vertices(20), s.a.reserve_edges(20); break;
                case 19: s.a.clear(); break;
                case 20:
                  s.a.clear();
                  s.a.load_edges(s.src);
                  break;
                case 22:
                  if constexpr (!Void<typename A::GV>) {
                    const typename A::GV gv(5);
                    s.res = std::make_unique<G>(gv);
                  }
                  break;
                case 23:
                  if constexpr (!Void<typename A::VV>) {
                    const typename A::VV v(77);
                    graph::vertex_value(s.a, *graph::find_vertex(s.a, mkid<VId>(1))) = v;
                  }
                  if constexpr (!Void<typename A::EV> && !A::Bi && !A::KEYED) {
                    const typename A::EV v(88);
                    for (auto&& uv : graph::edges(s.a, *graph::find_vertex(s.a, mkid<VId>(1))))
                      graph::edge_value(s.a, uv) = v;
                  }
                  break;
                }
              };
              const bool makes = op <= 5 || op == 21 || op == 22;
              switch (op) {
              case 0: case 1: loaded(fresh, true); if (op && !Void<typename A::GV>) fresh.gv = 5; break;
              case 2: case 21: grow(fresh, 6), vals(fresh), loaded(fresh, false); break;
              case 3: grow(fresh, 6), loaded(fresh, false); break;
              case 4: case 5: fresh = m0; break;
              case 6: case 7: case 8: want = m1; break;
              case 9: case 10: case 11: loaded(want, true); break;
              case 12: case 24: grow(want, 6), loaded(want, false); break;
              case 13: grow(want, 4), loaded(want, false); break;
              case 14: case 15: case 16: grow(want, 6), vals(want); break;
              case 17: grow(want, 9); break;
              case 19: case 20: {
                const int gv = want.gv;
                want = {}, want.gv = gv;
                if (op == 20) loaded(want, true);
                break;
              }
              case 22: fresh.gv = 5; break;
              case 23:
                if (!Void<typename A::VV>) want.v[1].val = 77;
                if (!Void<typename A::EV> && !A::Bi && !A::KEYED)
                  for (auto& e : want.v[1].out) e.val = 88;
                break;
              }
              auto after = [&](St<G>& s, Result r) {
                if (op != 10 && op != 3) MC_CHECK(eq<G>(s.src, s.keep), "the caller's edges were changed");
                if (r == flt::Done) {
                  if (makes) {
                    if (op <= 1 && l.empty() && !A::MAP && s.res->size() == 1) fresh.v[0]; // documented: an empty list may create vertex 0
                    agree(*s.res, fresh, "the new graph");
                    usable(*s.res, nullptr);
                    s.res = nullptr;
                  }
                  if (op != 5) agree(s.a, want, "the graph");
                  if (op == 8) agree(s.b, m0, "the other graph");
                  else if (op != 7) agree(s.b, m1, "the other graph");
                } else {
                  MC_CHECK(!s.res, "a graph came from a failed construction");
                  if (op != 7 && op != 8) agree(s.b, m1, "the other graph"); // only read, or not involved
                  if (makes && op != 5) agree(s.a, m0, "the graph"); // only read
                }
                usable(s.a, r == flt::Failed && (op >= 9 && op != 19 && op != 20) ? &m0 : nullptr);
                usable(s.b, nullptr);
              };
              flt::sweep(mk, run, after);
            });
    }
}
template <class VId, template <class, class, class, class, bool> class T, class EV, class VV, class GV, bool Bi>
using DG = dynamic_graph<EV, VV, GV, VId, Bi, T<EV, VV, GV, VId, Bi>>;
#define SU(t, name, ID, EV, VV, GV, BI)                                                                                      \
  MC_SUITE(t##_##name) { dyn<DG<ID, t##_graph_traits, EV, VV, GV, BI>>(S); }
#define FULL(t) SU(t, tok, uint32_t, Tok, Tok, Tok, false)
#define BIDI(t) SU(t, bi, uint32_t, Tok, Tok, void, true)
#define STR(t) SU(t, str, std::string, Tok, Tok, void, false)
#define BOTH(t) FULL(t) BIDI(t)
#if PART == 1
BOTH(vov) BOTH(vod) BOTH(vofl) BOTH(vol) FULL(dov)
#elif PART == 2
BOTH(vos) BOTH(vous) BOTH(vom) BOTH(voum) FULL(dod)
#elif PART == 3
BOTH(mov) BOTH(mod) BOTH(mofl) BOTH(mol) FULL(dofl)
#elif PART == 4
BOTH(mos) BOTH(mous) BOTH(mom) STR(mous) FULL(dol)
#elif PART == 5
BOTH(uov) BOTH(uod) BOTH(uofl) STR(mov) FULL(dos)
#elif PART == 6
BOTH(uol) BOTH(uos) BOTH(uous) STR(uofl) FULL(dous)
#endif
#endif
} // namespace

// C32 (compressed graphs): a failing allocation or a throwing projection during a load, edit, copy or assignment neither leaks
// nor corrupts.
#include "comp.hpp"
#include "fault.hpp"
using mc::Suite;
using flt::Result;

namespace {
// What g holds according to g itself; agree() then shows whether g is consistent with that.
template <class G>
CM read_of(const G& g) {
  using A = cargs<G>;
  CM m;
  if constexpr (!Void<typename A::GV>) m.gv = val_of(g.graph_value());
  for (auto&& u : graph::vertices(g)) {
    const int i = (int)graph::vertex_id(g, u);
    if constexpr (!Void<typename A::VV>)
      m.vv.push_back(val_of(graph::vertex_value(g, u)));
    else
      m.vv.push_back(0);
    for (auto&& uv : graph::edges(g, u)) {
      E3 e{i, (int)graph::target_id(g, uv), 0};
      if constexpr (!Void<typename A::EV>) e.w = val_of(graph::edge_value(g, uv));
      MC_CHECK((size_t)e.v < g.size(), "edge " << e.u << ">" << e.v << " leads to a vertex that does not exist; there are " << g.size());
      m.e.push_back(e);
    }
  }
  const int np = (int)graph::num_partitions(g);
  if (np > 1)
    for (int p = 0; p < np; ++p) {
      auto r = graph::vertices(g, p);
      m.parts.push_back(std::ranges::empty(r) ? (int)m.vv.size() : (int)graph::vertex_id(g, *std::ranges::begin(r)));
    }
  return m;
}
const EL L0 = {{0, 1, 11}, {0, 2, 12}, {2, 0, 13}, {3, 3, 14}}, L1 = {{1, 0, 21}, {1, 4, 22}, {4, 4, 23}};
const VL V0 = {{1, 51}, {0, 50}, {2, 52}};
// kinds: 0 empty, 1 vertices only, 2 edges and vertex values, 3 partitioned
template <class G>
G base(int kind) {
  using VId = typename cargs<G>::VId;
  G g;
  if (kind == 1) g.load_vertices(vxs<G>(V0));
  if (kind == 2) g.load_edges(eds<std::vector, G>(L0)), g.load_vertices(vxs<G>(V0));
  if (kind == 3) g = G(eds<std::vector, G>(L0), std::identity{}, std::vector<VId>{0, 2});
  if constexpr (!Void<typename cargs<G>::GV>) g.graph_value() = typename cargs<G>::GV(60 + kind);
  return g;
}
template <class G>
CM cbase(int kind) {
  using A = cargs<G>;
  CM m;
  auto edges = [&](const EL& l) {
    for (auto e : l) {
      m.grow((size_t)std::max(e.u, e.v) + 1);
      if (Void<typename A::EV>) e.w = 0;
      m.e.push_back(e);
    }
  };
  if (kind >= 2) edges(L0);
  if (kind == 1 || kind == 2)
    for (auto& [i, x] : V0)
      m.grow((size_t)i + 1), m.vv[i] = Void<typename A::VV> ? 0 : x;
  if (kind == 3) m.parts = {0, 2};
  if (!Void<typename A::GV>) m.gv = 60 + kind;
  return m;
}
template <class G>
void usable(G& g, const CM* keeps, bool edges) {
  using A = cargs<G>;
  CM got  = read_of(g);
  both(g, got, "the graph contradicts itself");
  if (keeps) {
    MC_CHECK(got.vv.size() >= keeps->vv.size(), "vertices are lost; holds " << got.str() << " of " << keeps->str());
    MC_CHECK(got.gv == keeps->gv, "the graph's value is lost");
    if (edges)
      MC_CHECK(std::ranges::equal(got.e, keeps->e, [](auto& x, auto& y) { return x.u == y.u && x.v == y.v && x.w == y.w; }), "the edges changed; holds " << got.str() << " of " << keeps->str());
  }
  {
    G copy(g);
    both(copy, got, "a copy of it");
    G moved(std::move(copy));
    both(moved, got, "moved");
  }
  {
    G  other = base<G>(3), mine(g);
    mine     = other;
    both(mine, cbase<G>(3), "assigned over");
    std::swap(mine, other);
    both(mine, cbase<G>(3), "swapped");
  }
  // it can be given more vertices, and, once it has no edges, edges
  CM m = got;
  {
    VL more = {{(int)m.vv.size() + 1, 77}, {0, 78}};
    g.load_vertices(vxs<G>(more));
    for (auto& [i, x] : more)
      m.grow((size_t)i + 1), m.vv[i] = Void<typename A::VV> ? 0 : x;
    both(g, m, "given more vertices");
  }
  if (!m.e.empty()) g.clear(), m.vv.clear(), m.parts.clear(), m.e.clear();
  g.load_edges(eds<std::vector, G>(L1));
  for (auto e : L1) {
    m.grow((size_t)std::max(e.u, e.v) + 1);
    if (Void<typename A::EV>) e.w = 0;
    m.e.push_back(e);
  }
  both(g, m, "loaded again");
}
template <class G>
struct PeFn {
  Ed<G> operator()(const E3& e) const {
    flt::tick();
    return ed<G>(e);
  }
};
template <class G>
struct PvFn {
  Vx<G> operator()(const std::pair<int, int>& p) const {
    flt::tick();
    return vx<G>(p);
  }
};
template <class G>
struct St {
  G                             a, b;
  std::unique_ptr<G>            res;
  std::vector<Ed<G>>            ev, ekeep;
  std::list<Ed<G>>              elist;
  std::forward_list<Ed<G>>      efwd;
  std::vector<Vx<G>>            vv;
  EL                            raw;
  VL                            vraw;
  std::list<E3>                 rawlist;
  std::vector<typename cargs<G>::VId> parts, none;
};
template <class G>
bool same(const std::vector<Ed<G>>& a, const std::vector<Ed<G>>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) {
    if (a[i].source_id != b[i].source_id || a[i].target_id != b[i].target_id) return false;
    if constexpr (!Void<typename cargs<G>::EV>)
      if (!(a[i].value == b[i].value)) return false;
  }
  return true;
}
enum O { IL, Ctor, CtorProj, CtorV, CtorPart, CtorGv, CtorGvE, CopyC, MoveC, CopyA, MoveA, Swap, Le, LeRef, LeMove, LeList, LeFwd, LeProj, LeListProj, LeOnce, LeView, LeCount, LvC, LvRef, LvMove, LvProj, LvCount, Load, Clear, Reserve, SetVal, LoadClear, NO };
const char* names[] = {"construct from a list", "construct from edges", "construct from edges, projection", "construct from edges and vertices, projections", "construct with partitions", "construct from a graph value", "construct from a graph value and edges",
                       "copy-construct", "move-construct", "copy-assign", "move-assign", "swap", "load_edges(const&)", "load_edges(&)", "load_edges(&&)", "load_edges(list)", "load_edges(forward list)", "load_edges(projection)", "load_edges(list, projection)",
                       "load_edges(single pass)", "load_edges(view)", "load_edges(counts)", "load_vertices(const&)", "load_vertices(&)", "load_vertices(&&)", "load_vertices(projection)", "load_vertices(count)", "load", "clear", "reserve", "assign values", "clear, load"};
template <class G>
void comp(Suite& S) {
  using A   = cargs<G>;
  using VId = typename A::VId;
  const EL   els[] = {{{0, 1, 31}}, {{0, 5, 31}, {1, 0, 32}, {1, 1, 33}, {4, 2, 34}}, {}, {{6, 0, 31}, {6, 6, 32}}};
  const VL   vls[] = {{{0, 41}, {2, 42}}, {{6, 41}, {1, 42}}, {}, {{0, 41}, {1, 42}, {2, 43}, {3, 44}, {4, 45}, {5, 46}, {7, 47}, {6, 48}}};
  const bool gv    = !Void<typename A::GV>;
  uint64_t   key   = 0;
  for (int op = 0; op < NO; ++op)
    for (int kind = 0; kind < 4; ++kind)
      for (int li = 0; li < 4; ++li)
        for (int lj = 0; lj < 4; ++lj) {
          const bool makes = op <= MoveC;
          const bool loads = op >= Le && op <= LeCount;
          if (!gv && (op == CtorGv || op == CtorGvE)) continue;
          if (makes && op < CopyC && kind) continue;
          if ((loads || op == Load) && kind >= 2) continue; // edges are loaded once
          const bool ue = op == IL || op == Ctor || op == CtorProj || op == CtorV || op == CtorPart || op == CtorGvE || loads || op == Load || op == LoadClear;
          const bool uv = op == CtorV || (op >= LvC && op <= Load);
          if ((!ue && li) || (!uv && lj)) continue;
          if (uv && ue && (li + lj) % 2) continue;
          if (op == CtorPart && li == 2) continue; // a partition must start at a vertex: C31
          S.run_case(
                ++key, [&] { return std::string(names[op]) + " kind " + std::to_string(kind) + " " + da::show(els[li]) + " " + ::show(vls[lj]); },
                [&] {
                  const EL& l = els[li];
                  const VL& v = vls[lj];
                  S.nontrivial();
                  CM       want = cbase<G>(kind), fresh;
                  const CM m0 = want, mb = cbase<G>((kind + 2) % 4);
                  auto addE = [&](CM& m) {
                    for (auto e : l) {
                      m.grow((size_t)std::max(e.u, e.v) + 1);
                      if (Void<typename A::EV>) e.w = 0;
                      m.e.push_back(e);
                    }
                  };
                  auto addV = [&](CM& m) {
                    for (auto& [i, x] : v)
                      m.grow((size_t)i + 1), m.vv[i] = Void<typename A::VV> ? 0 : x;
                  };
                  auto mk = [&] {
                    auto s = std::make_unique<St<G>>();
                    s->a = base<G>(kind), s->b = base<G>((kind + 2) % 4);
                    s->ev = s->ekeep = eds<std::vector, G>(l);
                    s->elist = eds<std::list, G>(l), s->efwd = feds<G>(l), s->vv = vxs<G>(v);
                    s->raw = l, s->vraw = v, s->rawlist.assign(l.begin(), l.end());
                    s->parts = {0, 1};
                    return s;
                  };
                  auto run = [&](St<G>& s) {
                    const PeFn<G> pe{};
                    const PvFn<G> pv{};
                    switch (op) {
                    case IL:
                      if (l.empty()) s.res = std::make_unique<G>(std::initializer_list<Ed<G>>{});
                      else if (l.size() == 1) s.res.reset(new G({s.ekeep[0]}));
                      else if (l.size() == 2) s.res.reset(new G({s.ekeep[0], s.ekeep[1]}));
                      else s.res.reset(new G({s.ekeep[0], s.ekeep[1], s.ekeep[2], s.ekeep[3]}));
                      break;
                    case Ctor: s.res = std::make_unique<G>(s.ev, std::identity{}, s.none); break;
                    case CtorProj: s.res = std::make_unique<G>(s.raw, pe, s.none); break;
                    case CtorV: s.res = std::make_unique<G>(s.raw, s.vraw, pe, pv, s.none); break;
                    case CtorPart: s.res = std::make_unique<G>(s.raw, pe, s.parts); break;
                    case CtorGv:
                      if constexpr (!Void<typename A::GV>) {
                        const typename A::GV x(9);
                        s.res = std::make_unique<G>(x);
                      }
                      break;
                    case CtorGvE:
                      if constexpr (!Void<typename A::GV>) {
                        const typename A::GV x(9);
                        s.res = std::make_unique<G>(x, s.raw, pe, s.none);
                      }
                      break;
                    case CopyC: s.res = std::make_unique<G>(std::as_const(s.a)); break;
                    case MoveC: s.res = std::make_unique<G>(std::move(s.a)); break;
                    case CopyA: s.a = s.b; break;
                    case MoveA: s.a = std::move(s.b); break;
                    case Swap: std::swap(s.a, s.b); break;
                    case Le: s.a.load_edges(std::as_const(s.ev)); break;
                    case LeRef: s.a.load_edges(s.ev); break;
                    case LeMove: s.a.load_edges(std::move(s.ev)); break;
                    case LeList: s.a.load_edges(std::as_const(s.elist)); break;
                    case LeFwd: s.a.load_edges(s.efwd); break;
                    case LeProj: s.a.load_edges(s.raw, pe); break;
                    case LeListProj: s.a.load_edges(std::as_const(s.rawlist), pe); break;
                    case LeOnce: {
                      OnePass<Ed<G>> r{&s.ev};
                      s.a.load_edges(r);
                      break;
                    }
                    case LeView: s.a.load_edges(s.raw | std::views::transform(pe)); break;
                    case LeCount: s.a.load_edges(s.raw, pe, 8, 9); break;
                    case LvC: s.a.load_vertices(std::as_const(s.vv)); break;
                    case LvRef: s.a.load_vertices(s.vv); break;
                    case LvMove: s.a.load_vertices(std::move(s.vv)); break;
                    case LvProj: s.a.load_vertices(s.vraw, pv); break;
                    case LvCount: s.a.load_vertices(s.vraw, pv, 9); break;
                    case Load: s.a.load(s.raw, s.vraw, pe, pv); break;
                    case Clear: s.a.clear(); break;
                    case Reserve: s.a.reserve(20, 20); break;
                    case SetVal:
                      if constexpr (!Void<typename A::VV>) {
                        const typename A::VV x(91);
                        for (auto&& u : graph::vertices(s.a))
                          graph::vertex_value(s.a, u) = x;
                      }
                      if constexpr (!Void<typename A::EV>) {
                        const typename A::EV x(92);
                        for (auto&& u : graph::vertices(s.a))
                          for (auto&& uv : graph::edges(s.a, u))
                            graph::edge_value(s.a, uv) = x;
                      }
                      break;
                    case LoadClear: s.a.clear(), s.a.load_edges(s.raw, pe); break;
                    }
                    (void)sizeof(VId);
                  };
                  switch (op) {
                  case IL: case Ctor: case CtorProj: addE(fresh); break;
                  case CtorV: addE(fresh), addV(fresh); break;
                  case CtorPart: addE(fresh), fresh.parts = {0, 1}; break;
                  case CtorGv: fresh.gv = 9; break;
                  case CtorGvE: fresh.gv = 9, addE(fresh); break;
                  case CopyC: case MoveC: fresh = m0; break;
                  case CopyA: case MoveA: case Swap: want = mb; break;
                  case LeCount: want.grow(8), addE(want); break;
                  case LvC: case LvRef: case LvMove: case LvProj: addV(want); break;
                  case LvCount: want.grow(9), addV(want); break;
                  case Load: addE(want), addV(want); break;
                  case Clear: case LoadClear: want.vv.clear(), want.e.clear(), want.parts.clear(); if (op == LoadClear) addE(want); break;
                  case Reserve: break;
                  case SetVal:
                    for (auto& x : want.vv) x = Void<typename A::VV> ? 0 : 91;
                    for (auto& e : want.e) e.w = Void<typename A::EV> ? 0 : 92;
                    break;
                  default: addE(want);
                  }
                  auto after = [&](St<G>& s, Result r) {
                    if (op != LeMove) MC_CHECK(same<G>(s.ev, s.ekeep), "the caller's edges were changed");
                    if (r == flt::Done) {
                      if (makes) {
                        both(*s.res, fresh, "the new graph");
                        usable(*s.res, nullptr, false);
                        s.res = nullptr;
                      }
                      if (op != MoveC) both(s.a, want, "the graph");
                      if (op == Swap) both(s.b, m0, "the other graph");
                      else if (op != MoveA) both(s.b, mb, "the other graph");
                    } else {
                      MC_CHECK(!s.res, "a graph came from a failed construction");
                      if (op != MoveA && op != Swap) both(s.b, mb, "the other graph");
                      if (makes && op != MoveC) both(s.a, m0, "the graph that was only read");
                      if (op == CopyA) both(s.a, m0, "the graph whose assignment failed");
                      if (loads) { // the edges are not loaded, and what was there remains
                        CM got = read_of(s.a);
                        MC_CHECK(got.e.empty(), "a failed load left edges; holds " << got.str());
                        for (size_t i = 0; i < m0.vv.size(); ++i)
                          MC_CHECK(i < got.vv.size() && got.vv[i] == m0.vv[i], "vertex " << i << " is lost or has another value; holds " << got.str());
                      }
                    }
                    const bool keeps = r == flt::Failed && (loads || (op >= LvC && op <= Load) || op == Reserve || op == SetVal);
                    if (!(r == flt::Failed && (op == MoveC || op == MoveA || op == Swap))) {
                      usable(s.a, keeps ? &m0 : nullptr, keeps && op != Load && op != SetVal);
                      usable(s.b, nullptr, false);
                    }
                  };
                  flt::sweep(mk, run, after);
                });
        }
}
template <class EV, class VV, class GV, class VId = uint32_t, class EI = uint32_t>
using CG = graph::container::compressed_graph<EV, VV, GV, VId, EI>;
#if PART == 1
MC_SUITE(owned_values) { comp<CG<Tok, Tok, Tok>>(S); }
#elif PART == 2
MC_SUITE(edge_values) { comp<CG<Tok, void, void, int, uint64_t>>(S); }
MC_SUITE(numbers) { comp<CG<int, int, int, uint8_t, uint8_t>>(S); }
#elif PART == 3
MC_SUITE(vertex_values) { comp<CG<void, Tok, Tok>>(S); }
MC_SUITE(bare) { comp<CG<void, void, void, uint64_t>>(S); }
#endif
} // namespace

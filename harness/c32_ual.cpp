// C32 (undirected adjacency lists): a failing allocation or a throwing projection during a construction, edit, copy or
// assignment neither leaks nor corrupts: the graph is what it was.
#include "ualmodel.hpp"
#include "fault.hpp"
using namespace da;
using namespace um;
using mc::Suite;
using flt::Result;

namespace {
enum O { ILv, ILn, CtorE, CtorEV, CtorProj, CtorList, CtorGv, CopyC, MoveC, CopyA, MoveA, SwapM, SwapF, AddV, AddVc, AddVm, AddE, AddEc, AddEm, AddEi, AddEic, AddEim, EraseV, EraseR, EraseG, ClearV, ClearG, Grow, GrowV, Shrink, Reserve, SetVal, NO };
const char* names[] = {"construct from a list with values", "construct from a list", "construct from edges", "construct from edges and vertices", "construct from edges and vertices, projections", "construct from a list container", "construct from a graph value",
                       "copy-construct", "move-construct", "copy-assign", "move-assign", "swap member", "swap", "create_vertex", "create_vertex(const&)", "create_vertex(&&)", "create_edge(ids)", "create_edge(ids, const&)", "create_edge(ids, &&)",
                       "create_edge(iterators)", "create_edge(iterators, const&)", "create_edge(iterators, &&)", "erase an edge of a vertex", "erase the edges of a vertex", "erase an edge of the graph", "clear a vertex", "clear", "resize up", "resize up with a value", "resize down", "reserve", "assign values"};
struct Rec {
  int u, v, w;
};
template <class G>
using CE = graph::copyable_edge_t<typename uargs<G>::VId, typename uargs<G>::EV>;
template <class G>
using CV = graph::copyable_vertex_t<typename uargs<G>::VId, typename uargs<G>::VV>;
template <class G>
CE<G> mkce(const Rec& r) {
  using VId = typename uargs<G>::VId;
  if constexpr (!Void<typename uargs<G>::EV>)
    return CE<G>{(VId)r.u, (VId)r.v, typename uargs<G>::EV(r.w)};
  else
    return CE<G>{(VId)r.u, (VId)r.v};
}
template <class G>
CV<G> mkcv(int x) {
  if constexpr (!Void<typename uargs<G>::VV>)
    return CV<G>{(typename uargs<G>::VId)0, typename uargs<G>::VV(x)};
  else
    return CV<G>{(typename uargs<G>::VId)x};
}
template <class G>
struct Pe {
  CE<G> operator()(const Rec& r) const {
    flt::tick();
    return mkce<G>(r);
  }
};
template <class G>
struct Pv {
  CV<G> operator()(const int& x) const {
    flt::tick();
    return mkcv<G>(x);
  }
};
template <class G>
G base(int kind, Model& m) {
  using A   = uargs<G>;
  using VId = typename A::VId;
  G g;
  m = Model();
  if constexpr (!Void<typename A::GV>) g.graph_value() = typename A::GV(40 + kind), m.gv = 40 + kind;
  const int n = kind == 0 ? 0 : kind == 1 ? 2 : 3;
  for (int i = 0; i < n; ++i) {
    if constexpr (!Void<typename A::VV>)
      g.create_vertex(typename A::VV(60 + i)), m.add_v(60 + i);
    else
      g.create_vertex(), m.add_v(0);
  }
  std::vector<Rec> es;
  if (kind == 1) es = {{0, 1, 71}};
  if (kind == 2) es = {{1, 0, 71}, {0, 1, 72}, {2, 2, 73}, {2, 0, 74}, {1, 0, 75}};
  for (auto& r : es) {
    if constexpr (!Void<typename A::EV>)
      g.create_edge((VId)r.u, (VId)r.v, typename A::EV(r.w)), m.add_e(r.u, r.v, r.w);
    else
      g.create_edge((VId)r.u, (VId)r.v), m.add_e(r.u, r.v, 0);
  }
  return g;
}
template <class G>
struct St {
  G                  a, b;
  Model              ma, mb;
  std::unique_ptr<G> res;
  std::vector<CE<G>> es;
  std::list<CE<G>>   le;
  std::vector<CV<G>> vs;
  std::vector<Rec>   recs;
  std::vector<int>   vals;
};
template <class G>
void usable(G& g, Model m) {
  using A   = uargs<G>;
  using VId = typename A::VId;
  {
    G copy(g);
    check(copy, m, "a copy of it");
    G moved(std::move(copy));
    check(moved, m, "moved");
    Model mo;
    G     other = base<G>(2, mo), mine(g);
    mine        = other;
    check(mine, mo, "assigned over", false);
    mine.swap(moved);
    check(mine, m, "swapped", false);
  }
  // it takes more vertices and edges
  if constexpr (!Void<typename A::VV>)
    g.create_vertex(typename A::VV(99)), m.add_v(99);
  else
    g.create_vertex(), m.add_v(0);
  for (int u : {0, m.n() - 1})
    if constexpr (!Void<typename A::EV>)
      g.create_edge((VId)u, (VId)(m.n() - 1), typename A::EV(98)), m.add_e(u, m.n() - 1, 98);
    else
      g.create_edge((VId)u, (VId)(m.n() - 1)), m.add_e(u, m.n() - 1, 0);
  check(g, m, "edited afterwards");
  g.clear(), m.clear();
  check(g, m, "cleared afterwards");
}
template <class G>
void check_cpo_shape(G& g, const Model& m) {
  MC_CHECK(g.num_vertices() == m.vv.size() && g.num_edges() == m.e.size(), "the shape changed");
}
template <class G>
void ual(Suite& S) {
  using A           = uargs<G>;
  using VId         = typename A::VId;
  constexpr bool EV = !Void<typename A::EV>, VV = !Void<typename A::VV>, GV = !Void<typename A::GV>;
  const std::vector<Rec> lists[] = {{}, {{0, 1, 31}}, {{0, 0, 31}, {0, 2, 32}, {1, 0, 33}}};
  uint64_t               key     = 0;
  for (int op = 0; op < NO; ++op)
    for (int kind = 0; kind < 3; ++kind)
      for (int li = 0; li < 3; ++li)
        for (int lv = 0; lv < 3; ++lv) {
          const bool ctor = op <= CtorGv, makes = op <= MoveC;
          const bool two  = op >= AddE && op <= AddEim;
          if (ctor && kind) continue;
          if (op == CtorGv && (!GV || li)) continue;
          if ((op == ILv || op == AddEc || op == AddEm || op == AddEic || op == AddEim) && !EV) continue;
          if ((op == AddVc || op == AddVm || op == GrowV) && !VV) continue;
          if (two && kind == 0) continue;
          if (!ctor && !two && (li || lv)) continue;
          if (ctor && op != CtorEV && op != CtorProj && lv) continue;
          if (op >= EraseV && op <= ClearV && kind == 0) continue;
          S.run_case(
                ++key, [&] { return std::string(names[op]) + " kind " + std::to_string(kind) + " edges " + std::to_string(li) + " vertices " + std::to_string(lv); },
                [&] {
                  S.nontrivial();
                  const auto&            l = lists[li];
                  const std::vector<int> vals = lv == 0 ? std::vector<int>{} : lv == 1 ? std::vector<int>{81} : std::vector<int>{81, 82, 83, 84};
                  auto                   mk   = [&] {
                    auto s = std::make_unique<St<G>>();
                    s->a = base<G>(kind, s->ma), s->b = base<G>(2 - kind, s->mb);
                    s->recs = l, s->vals = vals;
                    for (auto& r : l)
                      s->es.push_back(mkce<G>(r)), s->le.push_back(mkce<G>(r));
                    for (int x : vals)
                      s->vs.push_back(mkcv<G>(x));
                    return s;
                  };
                  const int eu = two ? li % std::max(1, kind + 1) : 0, ev = two ? lv % (kind + 1) : 0;
                  auto      run = [&](St<G>& s) {
                    const Pe<G> pe{};
                    const Pv<G> pv{};
                    auto        id = std::identity{};
                    using T2       = std::tuple<VId, VId>;
                    using T3       = std::tuple<VId, VId, typename std::conditional_t<EV, typename A::EV, int>>;
                    auto t2        = [&](int i) { return T2{(VId)l[i].u, (VId)l[i].v}; };
                    auto u = [&] { return s.a.begin() + eu; };
                    auto v = [&] { return s.a.begin() + ev; };
                    auto& g = s.a;
                    switch (op) {
                    case ILv:
                      if constexpr (EV) {
                        auto t3 = [&](int i) { return T3{(VId)l[i].u, (VId)l[i].v, s.es[i].value}; };
                        if (l.empty()) s.res.reset(new G(std::initializer_list<T3>{}));
                        else if (l.size() == 1) s.res.reset(new G({t3(0)}));
                        else s.res.reset(new G({t3(0), t3(1), t3(2)}));
                      }
                      break;
                    case ILn:
                      if (l.empty()) s.res.reset(new G(std::initializer_list<T2>{}));
                      else if (l.size() == 1) s.res.reset(new G({t2(0)}));
                      else s.res.reset(new G({t2(0), t2(1), t2(2)}));
                      break;
                    case CtorE:
                      if constexpr (GV) {
                        const typename A::GV gv(9);
                        s.res.reset(new G(s.es, id, gv));
                      } else
                        s.res.reset(new G(s.es));
                      break;
                    case CtorEV:
                      if constexpr (GV) {
                        const typename A::GV gv(9);
                        s.res.reset(new G(s.es, s.vs, id, id, gv));
                      } else
                        s.res.reset(new G(s.es, s.vs));
                      break;
                    case CtorProj:
                      if constexpr (GV) {
                        const typename A::GV gv(9);
                        s.res.reset(new G(s.recs, s.vals, pe, pv, gv));
                      } else
                        s.res.reset(new G(s.recs, s.vals, pe, pv));
                      break;
                    case CtorList:
                      if constexpr (GV) {
                        const typename A::GV gv(9);
                        s.res.reset(new G(s.le, id, gv));
                      } else
                        s.res.reset(new G(s.le));
                      break;
                    case CtorGv:
                      if constexpr (GV) {
                        const typename A::GV gv(9);
                        s.res.reset(new G(gv));
                      }
                      break;
                    case CopyC: s.res = std::make_unique<G>(std::as_const(s.a)); break;
                    case MoveC: s.res = std::make_unique<G>(std::move(s.a)); break;
                    case CopyA: s.a = s.b; break;
                    case MoveA: s.a = std::move(s.b); break;
                    case SwapM: s.a.swap(s.b); break;
                    case SwapF: {
                      using std::swap;
                      swap(s.a, s.b);
                      break;
                    }
                    case AddV: g.create_vertex(); break;
                    case AddVc:
                      if constexpr (VV) {
                        const typename A::VV x(55);
                        g.create_vertex(x);
                      }
                      break;
                    case AddVm:
                      if constexpr (VV) g.create_vertex(typename A::VV(55));
                      break;
                    case AddE: g.create_edge((VId)eu, (VId)ev); break;
                    case AddEi: g.create_edge(u(), v()); break;
                    case AddEc:
                    case AddEic:
                      if constexpr (EV) {
                        const typename A::EV x(56);
                        if (op == AddEc) g.create_edge((VId)eu, (VId)ev, x);
                        else g.create_edge(u(), v(), x);
                      }
                      break;
                    case AddEm:
                    case AddEim:
                      if constexpr (EV) {
                        if (op == AddEm) g.create_edge((VId)eu, (VId)ev, typename A::EV(56));
                        else g.create_edge(u(), v(), typename A::EV(56));
                      }
                      break;
                    case EraseV: g.vertices()[0].erase_edge(g, g.vertices()[0].edges_begin(g, 0)); break;
                    case EraseR: g.vertices()[0].erase_edge(g, g.vertices()[0].edges_begin(g, 0), g.vertices()[0].edges_end(g, 0)); break;
                    case EraseG: g.erase_edge(g.edges().begin()); break;
                    case ClearV: g.vertices()[0].clear_edges(g); break;
                    case ClearG: g.clear(); break;
                    case Grow: g.resize_vertices(7); break;
                    case GrowV:
                      if constexpr (VV) {
                        const typename A::VV x(55);
                        g.resize_vertices(7, x);
                      }
                      break;
                    case Shrink: g.resize_vertices(1); break;
                    case Reserve: g.reserve_vertices(50); break;
                    case SetVal:
                      for (VId i = 0; (size_t)i < g.num_vertices(); ++i) {
                        if constexpr (VV) {
                          const typename A::VV x(57);
                          g.vertices()[i].value() = x;
                        }
                        if constexpr (EV) {
                          const typename A::EV x(58);
                          for (auto& e : g.vertices()[i].edges(g, i))
                            e.value() = x;
                        }
                      }
                      if constexpr (GV) {
                        const typename A::GV x(59);
                        g.graph_value() = x;
                      }
                      break;
                    }
                  };
                  Model want, fresh, m0, mb;
                  {
                    auto s = mk();
                    want = m0 = s->ma, mb = s->mb;
                  }
                  if (ctor) {
                    if (op == CtorEV || op == CtorProj)
                      for (int x : vals)
                        fresh.add_v(VV ? x : 0);
                    if (op != CtorGv)
                      for (auto& r : l)
                        while (fresh.n() <= std::max(r.u, r.v))
                          fresh.add_v(0);
                    if (op != CtorGv)
                      for (auto& r : l)
                        fresh.add_e(r.u, r.v, EV && op != ILn ? r.w : 0);
                    if (GV && op != ILv && op != ILn) fresh.gv = 9;
                  }
                  switch (op) {
                  case CopyC: case MoveC: fresh = m0; break;
                  case CopyA: case MoveA: case SwapM: case SwapF: want = mb; break;
                  case AddV: want.add_v(0); break;
                  case AddVc: case AddVm: want.add_v(55); break;
                  case AddE: case AddEi: want.add_e(eu, ev, 0); break;
                  case AddEc: case AddEic: case AddEm: case AddEim: want.add_e(eu, ev, 56); break;
                  case EraseV: want.erase(want.adj[0].front()); break;
                  case EraseG: want.erase(want.whole().front()); break;
                  case EraseR: case ClearV: want.clear_v(0); break;
                  case ClearG: want.clear(); break;
                  case Grow: want.resize(7, 0); break;
                  case GrowV: want.resize(7, 55); break;
                  case Shrink: want.resize(1, 0); break;
                  case SetVal:
                    if (VV) for (auto& x : want.vv) x = 57;
                    if (EV) for (auto& [k, e] : want.e) e.w = 58;
                    if (GV) want.gv = 59;
                    break;
                  }
                  auto after = [&](St<G>& s, Result r) {
                    if (r == flt::Done) {
                      if (makes) {
                        check(*s.res, fresh, "the new graph");
                        usable(*s.res, fresh);
                        s.res = nullptr;
                      }
                      if (op != MoveC) check(s.a, want, "the graph");
                      if (op == SwapM || op == SwapF) check(s.b, m0, "the other graph");
                      else if (op != MoveA) check(s.b, mb, "the other graph");
                      if (op != MoveC) usable(s.a, want);
                    } else {
                      MC_CHECK(!s.res, "a graph came from a failed construction");
                      MC_CHECK(op < EraseV || op > ClearG, "removing something failed");
                      // whatever fails, the graphs are what they were
                      if (op == SetVal) { // except that some of the values may have been assigned already
                        check_cpo_shape(s.a, m0);
                      } else if (op != MoveC && op != MoveA && op != SwapM && op != SwapF) {
                        check(s.a, m0, "the graph after a failure");
                        usable(s.a, m0);
                      }
                      if (op != MoveA && op != SwapM && op != SwapF) check(s.b, mb, "the other graph");
                    }
                  };
                  flt::sweep(mk, run, after);
                });
        }
}
#if PART == 1
MC_SUITE(owned_values) { ual<undirected_adjacency_list<Tok, Tok, Tok>>(S); }
#elif PART == 2
MC_SUITE(deque) { ual<undirected_adjacency_list<Tok, Tok, void, int8_t, std::deque>>(S); }
MC_SUITE(edge_values) { ual<undirected_adjacency_list<Tok, void, void, uint64_t>>(S); }
#elif PART == 3
MC_SUITE(vertex_values) { ual<undirected_adjacency_list<void, Tok, Tok>>(S); }
MC_SUITE(bare) { ual<undirected_adjacency_list<>>(S); }
#endif
} // namespace

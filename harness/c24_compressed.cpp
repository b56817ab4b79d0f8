// C24: a compressed graph holds exactly what was loaded and behaves like a value.  C25: its partitions split the vertices.
#include "comp.hpp"
#include <graph/container/undirected_adjacency_list.hpp>
#include <list>
using namespace da;
using mc::Suite;

namespace {
struct Op {
  enum K { Edges, Verts, Both, Clear, Reserve, SetV, SetE, Copy, Move, AssignC, AssignM, Self, Swap } k;
  int         form = 0, vc = 0, ec = 0;
  EL          el;
  VL          vl;
  std::string show() const {
    static const char* nm[] = {"load_edges", "load_vertices", "load", "clear", "reserve", "set-vertex", "set-edge", "copy", "move", "copy-assign", "move-assign", "self-assign", "swap"};
    std::string        s    = nm[k];
    if (k == Edges || k == Both) s += da::show(el);
    if (k == Verts || k == Both) s += ::show(vl);
    return s + " form" + std::to_string(form) + " vc" + std::to_string(vc);
  }
};
bool sorted(const EL& l) {
  for (size_t i = 1; i < l.size(); ++i)
    if (l[i].u < l[i - 1].u) return false;
  return true;
}
struct PE { // a caller's own record
  int a, b, c;
};
template <class G>
void intact(const std::vector<Ed<G>>& v, const EL& el) {
  for (size_t i = 0; i < el.size(); ++i) {
    MC_CHECK((int)v[i].source_id == el[i].u && (int)v[i].target_id == el[i].v, "the caller's edge list was changed");
    if constexpr (!Void<typename cargs<G>::EV>) MC_CHECK(val_of(v[i].value) == el[i].w, "the values of the caller's edge list were moved away");
  }
}
template <class G>
void intact(const std::vector<Vx<G>>& v, const VL& vl) {
  for (size_t i = 0; i < vl.size(); ++i) {
    MC_CHECK((int)v[i].id == vl[i].first, "the caller's vertex list was changed");
    if constexpr (!Void<typename cargs<G>::VV>) MC_CHECK(val_of(v[i].value) == vl[i].second, "the values of the caller's vertex list were moved away");
  }
}
constexpr int NEF = 11, NVF = 6;
template <class G>
void load_e(G& g, const Op& o) {
  auto call = [&](auto&& r) {
    if (o.ec)
      g.load_edges(std::forward<decltype(r)>(r), std::identity{}, (size_t)o.vc, (size_t)o.ec);
    else if (o.vc)
      g.load_edges(std::forward<decltype(r)>(r), std::identity{}, (size_t)o.vc);
    else
      g.load_edges(std::forward<decltype(r)>(r));
  };
  auto proj = [](const E3& e) { return ed<G>(e); };
  switch (o.form) {
  case 0: {
    const auto v = eds<std::vector, G>(o.el);
    call(v), intact<G>(v, o.el);
    break;
  }
  case 1: {
    auto v = eds<std::vector, G>(o.el);
    call(v), intact<G>(v, o.el);
    break;
  }
  case 2: call(eds<std::vector, G>(o.el)); break;
  case 3: {
    const auto v = eds<std::list, G>(o.el);
    call(v);
    break;
  }
  case 4: call(feds<G>(o.el)); break;
  case 5: g.load_edges(o.el, proj, (size_t)o.vc, (size_t)o.ec); break;
  case 6: {
    auto v = o.el;
    g.load_edges(v, proj, (size_t)o.vc, (size_t)o.ec);
    break;
  }
  case 7: {
    auto                v = eds<std::vector, G>(o.el);
    OnePass<Ed<G>> r{&v};
    call(r), intact<G>(v, o.el);
    break;
  }
  case 8: { // a projection that refers to the caller's records
    auto v = eds<std::vector, G>(o.el);
    g.load_edges(v, [](auto& e) -> auto& { return e; }, (size_t)o.vc, (size_t)o.ec);
    intact<G>(v, o.el);
    break;
  }
  case 9: { // a view of the caller's records
    auto v = eds<std::deque, G>(o.el);
    call(std::views::all(v));
    for (size_t i = 0; i < v.size(); ++i)
      if constexpr (!Void<typename cargs<G>::EV>) MC_CHECK(val_of(v[i].value) == o.el[i].w, "the values behind the caller's view were moved away");
    break;
  }
  case 10: call(o.el | std::views::transform(proj)); break; // a view that makes its edges as they are read
  }
}
template <class G>
void load_v(G& g, const Op& o) {
  auto call = [&](auto&& r) {
    if (o.vc)
      g.load_vertices(std::forward<decltype(r)>(r), std::identity{}, (size_t)o.vc);
    else
      g.load_vertices(std::forward<decltype(r)>(r));
  };
  switch (o.form) {
  case 0: {
    const auto v = vxs<G>(o.vl);
    call(v), intact<G>(v, o.vl);
    break;
  }
  case 1: {
    auto v = vxs<G>(o.vl);
    call(v), intact<G>(v, o.vl);
    break;
  }
  case 2: call(vxs<G>(o.vl)); break;
  case 3: {
    std::forward_list<Vx<G>> l;
    for (auto it = o.vl.rbegin(); it != o.vl.rend(); ++it)
      l.push_front(vx<G>(*it));
    call(l);
    break;
  }
  case 5: call(o.vl | std::views::transform([](const std::pair<int, int>& p) { return vx<G>(p); })); break;
  case 4: g.load_vertices(o.vl, [](const std::pair<int, int>& p) { return vx<G>(p); }, (size_t)o.vc); break;
  }
}
template <class G>
void m_edges(CM& m, const EL& el, int vc) {
  using A = cargs<G>;
  m.grow((size_t)vc);
  for (auto& e : el) {
    m.grow((size_t)std::max(e.u, e.v) + 1);
    m.e.push_back({e.u, e.v, Void<typename A::EV> ? 0 : e.w});
  }
}
template <class G>
void m_verts(CM& m, const VL& vl, int vc) {
  using A = cargs<G>;
  m.grow((size_t)vc);
  for (auto& [i, x] : vl) {
    m.grow((size_t)i + 1);
    if (!Void<typename A::VV>) m.vv[i] = x;
  }
}
template <class G>
void set_gv(G& g, CM& m, int v) {
  using A = cargs<G>;
  if constexpr (!Void<typename A::GV>) g.graph_value() = typename A::GV(v), m.gv = v;
}

// run one operation; false if it does not apply here
template <class G>
bool step(std::unique_ptr<G>& g, CM& m, const Op& o) {
  using A = cargs<G>;
  mc::transition();
  switch (o.k) {
  case Op::Edges:
    if (!m.e.empty()) return false; // edges are loaded once
    if (sorted(o.el))
      load_e(*g, o), m_edges<G>(m, o.el, o.vc);
    else {
      bool thrown = false;
      try {
        load_e(*g, o);
      } catch (const graph::graph_error&) {
        thrown = true;
      }
      MC_CHECK(thrown, "edges that are not ordered by source were accepted");
    }
    break;
  case Op::Verts: load_v(*g, o), m_verts<G>(m, o.vl, o.vc); break;
  case Op::Both:
    if (!m.e.empty()) return false;
    g->load(o.el, o.vl, [](const E3& e) { return ed<G>(e); }, [](const std::pair<int, int>& p) { return vx<G>(p); });
    m_edges<G>(m, o.el, 0), m_verts<G>(m, o.vl, 0);
    break;
  case Op::Clear: g->clear(), m.vv.clear(), m.e.clear(), m.parts.clear(); break;
  case Op::Reserve: g->reserve((size_t)o.ec, (size_t)o.vc); break;
  case Op::SetV:
    if constexpr (Void<typename A::VV>)
      return false;
    else {
      if ((size_t)o.vc >= m.vv.size()) return false;
      if (o.form)
        g->vertex_value((typename A::VId)o.vc) = typename A::VV(71);
      else
        graph::vertex_value(*g, *graph::find_vertex(*g, (typename A::VId)o.vc)) = typename A::VV(71);
      m.vv[o.vc] = 71;
    }
    break;
  case Op::SetE:
    if constexpr (Void<typename A::EV>)
      return false;
    else {
      if ((size_t)o.vc >= m.e.size()) return false;
      if (o.form)
        g->edge_value((typename A::EI)o.vc) = typename A::EV(72);
      else {
        int k = 0;
        for (auto&& u : graph::vertices(*g))
          for (auto&& uv : graph::edges(*g, u))
            if (k++ == o.vc) graph::edge_value(*g, uv) = typename A::EV(72);
      }
      m.e[o.vc].w = 72;
    }
    break;
  case Op::Copy: { // continue with the copy; the source changes first, so anything shared shows
    auto h = std::make_unique<G>(std::as_const(*g));
    both(*g, m, "source of a copy");
    g->clear();
    auto lo = Op{Op::Edges, 0, 0, 0, {{0, 1, 99}, {1, 1, 98}}, {}};
    load_e(*g, lo);
    both(*h, m, "copy after its source changed");
    g = std::move(h);
    break;
  }
  case Op::Move: {
    auto h = std::make_unique<G>(std::move(*g));
    CM   z;
    if constexpr (!Void<typename A::GV>) z.gv = val_of(g->graph_value());
    both(*g, z, "moved-from graph");
    auto lo = Op{Op::Edges, 0, 0, 0, {{0, 1, 99}, {1, 1, 98}}, {}};
    load_e(*g, lo), m_edges<G>(z, lo.el, 0);
    both(*g, z, "moved-from graph after loading");
    g = std::move(h);
    break;
  }
  case Op::AssignC:
  case Op::AssignM: {
    auto h = std::make_unique<G>();
    if (o.form) {
      auto lo = Op{Op::Both, 0, 0, 0, {{1, 0, 99}, {2, 1, 98}, {4, 4, 97}}, {{5, 3}}};
      h->load(lo.el, lo.vl, [](const E3& e) { return ed<G>(e); }, [](const std::pair<int, int>& p) { return vx<G>(p); });
    }
    if (o.k == Op::AssignC) {
      *h = std::as_const(*g);
      both(*g, m, "source of an assignment");
    } else
      *h = std::move(*g);
    g = std::move(h);
    break;
  }
  case Op::Self: {
    auto& r = *g;
    *g      = r;
    break;
  }
  case Op::Swap: {
    auto h = std::make_unique<G>();
    CM   z;
    load_e(*h, Op{Op::Edges, 0, 0, 0, {{0, 2, 99}}, {}}), m_edges<G>(z, {{0, 2, 99}}, 0);
    set_gv(*h, z, 33);
    using std::swap;
    swap(*g, *h);
    both(*g, z, "swapped graph");
    both(*h, m, "swapped graph");
    swap(*g, *h);
    break;
  }
  }
  return true;
}
template <class G>
void run_hist(Suite& S, uint64_t key, std::vector<const Op*> ops) {
  S.run_case(
        key,
        [&] {
          std::string s;
          for (auto* o : ops)
            s += o->show() + "; ";
          return s;
        },
        [&] {
          auto g = std::make_unique<G>();
          CM   m;
          set_gv(*g, m, 7);
          for (auto* o : ops)
            if (!step(g, m, *o)) return;
          S.nontrivial();
          both(*g, m, "afterwards");
          mc::outcome(m.hash());
          mc::trace();
        });
}
void all_lists(int n, int len, const std::function<void(const EL&)>& f) {
  EL                       l;
  std::function<void()>    rec = [&] {
    if ((int)l.size() == len) return f(l);
    for (int u = 0; u < n; ++u)
      for (int v = 0; v < n; ++v) {
        l.push_back({u, v, 10 + (int)l.size()});
        rec();
        l.pop_back();
      }
  };
  rec();
}

#if WHAT == 24
template <class G>
void loads(Suite& S) {
  uint64_t key = 0;
  for (int len = 0; len <= mc::tier(3, 4); ++len)
    all_lists(len < 3 ? 4 : 3, len, [&](const EL& el) {
      const bool s = sorted(el);
      for (int form = 0; form < NEF; ++form)
        for (int vc : {0, 2, 6}) {
          ++key;
          if (len >= 3 && !mc::thorough() && (vc == 6 || (form % 3 != (int)(key / 7 % 3)))) continue;
          if (!s && vc) continue;
          Op o{Op::Edges, form, vc, vc == 2 ? 1 : 0, el, {}};
          run_hist<G>(S, key, {&o});
        }
    });
}
template <class G>
void verts(Suite& S) { // vertex lists in every form before, after and without edges
  uint64_t        key = 0;
  std::vector<VL> vls{{}};
  for (int a = 0; a < 4; ++a) {
    vls.push_back({{a, 21}});
    for (int b = 0; b < 4; ++b) {
      vls.push_back({{a, 21}, {b, 22}});
      for (int c = 0; c < 3; ++c)
        vls.push_back({{a, 21}, {b, 22}, {c, 23}});
    }
  }
  std::vector<EL> els{{}, {{0, 0, 11}}, {{0, 2, 11}, {1, 0, 12}}, {{2, 0, 11}, {2, 0, 12}, {2, 5, 13}}, {{1, 0, 11}, {3, 2, 12}, {3, 3, 13}}};
  for (auto& vl : vls)
    for (int form = 0; form < NVF; ++form)
      for (int vc : {0, 3, 7}) {
        Op v{Op::Verts, form, vc, 0, {}, vl};
        run_hist<G>(S, ++key, {&v});
        for (auto& el : els)
          for (int ef : {0, 1, 2, 7})
            for (int evc : {0, 5}) {
              Op e{Op::Edges, ef, evc, 0, el, {}};
              ++key;
              if (!mc::thorough() && (ef + evc + form) % 2) continue;
              run_hist<G>(S, 2 * key, {&v, &e});
              run_hist<G>(S, 2 * key + 1, {&e, &v});
            }
      }
  for (auto& vl : vls)
    for (auto& el : els) {
      Op b{Op::Both, 0, 0, 0, el, vl};
      run_hist<G>(S, ++key * 2 + 1000000, {&b});
    }
}
template <class G>
void hist(Suite& S) {
  std::vector<Op> ops;
  for (int f : {0, 1, 2})
    for (auto& el : std::vector<EL>{{}, {{0, 1, 11}}, {{0, 0, 11}, {0, 2, 12}, {2, 1, 13}}, {{1, 0, 11}, {0, 1, 12}}})
      ops.push_back({Op::Edges, f, 0, 0, el, {}});
  ops.push_back({Op::Edges, 0, 4, 9, {{1, 1, 11}}, {}});
  for (int f : {0, 2})
    for (auto& vl : std::vector<VL>{{}, {{0, 21}}, {{3, 22}, {1, 23}}})
      ops.push_back({Op::Verts, f, 0, 0, {}, vl});
  ops.push_back({Op::Verts, 0, 5, 0, {}, {}});
  ops.push_back({Op::Verts, 0, 5, 0, {}, {{1, 24}}});
  ops.push_back({Op::Both, 0, 0, 0, {{0, 1, 11}, {1, 1, 12}}, {{2, 25}}});
  ops.push_back({Op::Both, 0, 0, 0, {}, {{1, 26}}});
  ops.push_back({Op::Clear}), ops.push_back({Op::Reserve, 0, 3, 5});
  for (int f : {0, 1})
    ops.push_back({Op::SetV, f, 0}), ops.push_back({Op::SetV, f, 2}), ops.push_back({Op::SetE, f, 0}), ops.push_back({Op::SetE, f, 2});
  ops.push_back({Op::Copy}), ops.push_back({Op::Move}), ops.push_back({Op::Self}), ops.push_back({Op::Swap});
  for (int f : {0, 1})
    ops.push_back({Op::AssignC, f}), ops.push_back({Op::AssignM, f});
  uint64_t key = 0;
  for (auto& a : ops) {
    run_hist<G>(S, ++key, {&a});
    for (auto& b : ops) {
      run_hist<G>(S, ++key, {&a, &b});
      for (auto& c : ops) {
        run_hist<G>(S, ++key, {&a, &b, &c});
        if (mc::thorough())
          for (auto& d : ops)
            run_hist<G>(S, ++key, {&a, &b, &c, &d});
      }
    }
  }
}
template <class G, class... A>
void ctor(Suite& S, uint64_t key, const char* what, const CM& m, const A&... a) {
  S.run_case(
        key, [&] { return std::string(what) + " " + m.str(); },
        [&] {
          S.nontrivial();
          G g(a...);
          both(g, m, "constructed");
          mc::outcome(m.hash());
          mc::trace();
        });
}
template <class G>
void ctors(Suite& S) {
  using A     = cargs<G>;
  using VId   = typename A::VId;
  uint64_t key = 0;
  {
    CM m;
    ctor<G>(S, ++key, "default", m);
    ctor<G>(S, ++key, "allocator", m, std::allocator<VId>());
    if constexpr (!Void<typename A::GV>) {
      m.gv = 5;
      ctor<G>(S, ++key, "value", m, typename A::GV(5));
      ctor<G>(S, ++key, "value, allocator", m, typename A::GV(5), std::allocator<VId>());
      S.run_case(++key, [] { return std::string("moved value"); }, [&] {
        typename A::GV v(5);
        G              g(std::move(v));
        both(g, m, "constructed");
        S.nontrivial();
      });
    }
  }
  std::vector<VL> vls{{}, {{0, 21}}, {{1, 21}, {0, 22}}, {{4, 21}}};
  auto            ep = [](const E3& e) { return ed<G>(e); };
  auto            vp = [](const std::pair<int, int>& p) { return vx<G>(p); };
  for (int len = 0; len <= 3; ++len)
    all_lists(3, len, [&](const EL& el) {
      const bool s = sorted(el);
      CM         m;
      m_edges<G>(m, el, 0);
      // initializer lists
      auto il = [&](std::initializer_list<Ed<G>> l) {
        S.run_case(++key, [&] { return "initializer list " + da::show(el); }, [&] {
          bool thrown = false;
          S.nontrivial();
          try {
            G g(l);
            if (s) both(g, m, "constructed");
          } catch (const graph::graph_error&) {
            thrown = true;
          }
          MC_CHECK(thrown == !s, "unsorted input must be rejected, sorted input accepted");
          mc::trace();
        });
      };
      if (len == 0) il({});
      if (len == 1) il({ed<G>(el[0])});
      if (len == 2) il({ed<G>(el[0]), ed<G>(el[1])});
      if (len == 3) il({ed<G>(el[0]), ed<G>(el[1]), ed<G>(el[2])});
      const std::vector<VId> none;
      if (!s) {
        S.run_case(++key, [&] { return "range " + da::show(el); }, [&] {
          bool thrown = false;
          S.nontrivial();
          try {
            G g(el, ep, none);
          } catch (const graph::graph_error&) {
            thrown = true;
          }
          MC_CHECK(thrown, "unsorted input must be rejected");
        });
        return;
      }
      ctor<G>(S, ++key, "range, projection, partitions", m, el, ep, none);
      if constexpr (Void<typename A::GV>) {
        ctor<G>(S, ++key, "range, projection", m, el, ep);
        ctor<G>(S, ++key, "range", m, eds<std::vector, G>(el));
      } else {
        CM m2 = m;
        m2.gv = 5;
        ctor<G>(S, ++key, "value, range, projection, partitions", m2, typename A::GV(5), el, ep, none);
        S.run_case(++key, [] { return std::string("moved value, range"); }, [&] {
          typename A::GV v(5);
          G              g(std::move(v), el, ep, none);
          both(g, m2, "constructed");
          S.nontrivial();
        });
      }
      for (auto& vl : vls) {
        CM m3 = m;
        m_verts<G>(m3, vl, 0);
        ctor<G>(S, ++key, "edges, vertices", m3, el, vl, ep, vp, none);
        if constexpr (Void<typename A::GV>) {
          ctor<G>(S, ++key, "edges, vertices", m3, el, vl, ep, vp);
          ctor<G>(S, ++key, "edges, vertices", m3, eds<std::list, G>(el), vxs<G>(vl));
        } else {
          m3.gv = 5;
          ctor<G>(S, ++key, "value, edges, vertices", m3, typename A::GV(5), el, vl, ep, vp, none);
          S.run_case(++key, [] { return std::string("moved value, edges, vertices"); }, [&] {
            typename A::GV v(5);
            G              g(std::move(v), el, vl, ep, vp, none);
            both(g, m3, "constructed");
            S.nontrivial();
          });
        }
      }
    });
}
// graphs that fill their id or index type
template <class G>
void limits(Suite& S) {
  using A       = cargs<G>;
  uint64_t key  = 0;
  const size_t mxv = std::min<size_t>(300, (size_t)std::numeric_limits<typename A::VId>::max() - 1);
  const size_t mxe = std::min<size_t>(700, (size_t)std::numeric_limits<typename A::EI>::max() - 1);
  for (size_t n : {mxv, mxv - 1, mxv / 2, (size_t)3})
    for (size_t k : {mxe, mxe - 1, mxe / 2, (size_t)2})
      for (int pat = 0; pat < 4; ++pat) {
        EL el;
        for (size_t i = 0; i < k; ++i) {
          const int u = pat == 0 ? (int)(i * n / k) : pat == 1 ? (int)n - 1 : pat == 2 ? (i < k / 2 ? 0 : (int)n - 1) : (int)(n / 2);
          el.push_back({u, (int)((i * 7 + pat) % n), (int)i});
        }
        if (pat == 3) el.push_back({(int)n - 1, (int)n - 1, 5}), el.erase(el.begin());
        VL vl;
        for (size_t i = 0; i < n; i += 1 + pat)
          vl.push_back({(int)i, (int)i + 1000});
        for (int f = 0; f < NEF; ++f) {
          Op e{Op::Edges, f, pat == 2 ? (int)n : 0, 0, el, {}};
          Op v{Op::Verts, f % NVF, 0, 0, {}, vl};
          Op c{Op::Copy};
          run_hist<G>(S, ++key, {&e, &v, &c});
          run_hist<G>(S, ++key, {&v, &e});
        }
      }
}
#define SU(name, ...)                                                                                                  \
  MC_SUITE(loads_##name) { loads<compressed_graph<__VA_ARGS__>>(S); }                                                  \
  MC_SUITE(verts_##name) { verts<compressed_graph<__VA_ARGS__>>(S); }                                                  \
  MC_SUITE(hist_##name) { hist<compressed_graph<__VA_ARGS__>>(S); }                                                    \
  MC_SUITE(ctors_##name) { ctors<compressed_graph<__VA_ARGS__>>(S); }                                                  \
  MC_SUITE(limits_##name) { limits<compressed_graph<__VA_ARGS__>>(S); }
#if PART == 1
SU(tok, Tok, Tok, Tok, uint32_t, uint32_t)
#elif PART == 2
SU(none, void, void, void, uint32_t, uint32_t)
#elif PART == 3
SU(u8, int, Tok, void, uint8_t, uint32_t)
#elif PART == 4
SU(i8, Tok, void, int, int8_t, uint64_t)
#elif PART == 5
SU(e8, Tok, int, void, uint16_t, uint8_t)
#elif PART == 6
SU(i64, int, int, int, int64_t, int16_t)
#endif
#endif

#if WHAT == 25
template <class G>
void after(G& g, CM m, int what) { // the partitions also hold after further operations on the graph
  switch (what) {
  case 1: {
    G h(g);
    both(h, m, "copy");
    break;
  }
  case 2: {
    G h(std::move(g));
    both(h, m, "moved-to graph");
    CM z;
    if constexpr (!Void<typename cargs<G>::GV>) z.gv = val_of(g.graph_value());
    both(g, z, "moved-from graph");
    break;
  }
  case 3: {
    G h;
    h = g;
    both(h, m, "assigned graph");
    h.clear();
    CM z;
    z.gv = m.gv;
    both(h, z, "cleared graph");
    load_e(h, Op{Op::Edges, 0, 0, 0, {{0, 3, 9}, {2, 1, 8}}, {}}), m_edges<G>(z, {{0, 3, 9}, {2, 1, 8}}, 0);
    both(h, z, "cleared and reloaded graph");
    break;
  }
  case 4: {
    VL vl{{(int)m.vv.size() + 2, 55}};
    load_v(g, Op{Op::Verts, 0, 0, 0, {}, vl}), m_verts<G>(m, vl, 0);
    both(g, m, "graph with vertices added");
    break;
  }
  case 5:
    g.clear();
    m.vv.clear(), m.e.clear(), m.parts.clear();
    both(g, m, "cleared graph");
    break;
  case 6: {
    G h;
    load_e(h, Op{Op::Edges, 0, 0, 0, {{0, 1, 9}}, {}});
    h = std::move(g);
    both(h, m, "move-assigned graph");
    break;
  }
  }
}
template <class G>
void parts(Suite& S) {
  using A   = cargs<G>;
  using VId = typename A::VId;
  uint64_t                key = 0;
  std::vector<int>        p;
  auto                    ep = [](const E3& e) { return ed<G>(e); };
  auto                    vp = [](const std::pair<int, int>& q) { return vx<G>(q); };
  auto one = [&](const EL& el, const VL& vl, int ctor, int n) {
    CM m;
    m_edges<G>(m, el, 0);
    if (ctor == 1 || ctor == 3) m_verts<G>(m, vl, 0);
    if (ctor >= 2 && !Void<typename A::GV>) m.gv = 5;
    m.parts = p;
    bool valid = true;
    if (!p.empty()) {
      valid = p[0] == 0 && p.back() <= (int)m.vv.size();
      for (size_t i = 1; i < p.size(); ++i)
        valid = valid && p[i] > p[i - 1];
    }
    const std::vector<VId> ps(p.begin(), p.end());
    for (int aft = 0; aft <= 6; ++aft) {
      ++key;
      if (aft && (!valid || p.empty())) break;
      S.run_case(
            key, [&] { return "ctor" + std::to_string(ctor) + " then" + std::to_string(aft) + " " + m.str() + (valid ? "" : " (invalid)"); },
            [&] {
              bool thrown = false;
              S.nontrivial();
              try {
                auto go = [&](G g) {
                  both(g, m, "constructed");
                  after(g, m, aft);
                };
                if (ctor == 0) go(G(el, ep, ps));
                if (ctor == 1) go(G(el, vl, ep, vp, std::list<int>(p.begin(), p.end())));
                if constexpr (!Void<typename A::GV>) {
                  if (ctor == 2) go(G(typename A::GV(5), el, ep, ps));
                  const typename A::GV v(5);
                  if (ctor == 3) go(G(v, el, vl, ep, vp, std::deque<int>(p.begin(), p.end())));
                }
              } catch (const graph::graph_error& x) {
                MC_CHECK(!valid, "valid partition starts were rejected: " << x.what());
                thrown = true;
              }
              MC_CHECK(thrown == !valid, "invalid partition starts were accepted");
              mc::outcome(m.hash() * 2 + valid);
              mc::trace();
            });
    }
    (void)n;
  };
  for (int n = 0; n <= mc::tier(4, 6); ++n) {
    std::vector<EL> els;
    if (n == 0)
      els.push_back({});
    else {
      els.push_back({{n - 1, 0, 11}});
      els.push_back({{0, n - 1, 11}, {n / 2, 0, 12}, {n / 2, n / 2, 13}});
    }
    std::function<void()> rec = [&] {
      for (auto& el : els)
        for (int ctor = 0; ctor < (Void<typename A::GV> ? 2 : 4); ++ctor) {
          one(el, {}, ctor, n);
          if (ctor % 2) one(el, {{n, 21}, {0, 22}}, ctor, n);
        }
      if ((int)p.size() >= 3 && !(p[0] == 0 && std::ranges::is_sorted(p) && (int)p.size() <= n + 1)) return;
      for (int x = 0; x <= n + 3; ++x) {
        if ((int)p.size() >= 3 && x <= p.back()) continue;
        p.push_back(x);
        rec();
        p.pop_back();
      }
    };
    rec();
  }
}
template <class G>
void limits(Suite& S) {
  using A          = cargs<G>;
  using VId        = typename A::VId;
  uint64_t     key = 0;
  const int    mx  = (int)std::min<size_t>(300, (size_t)std::numeric_limits<VId>::max() - 1);
  auto         ep  = [](const E3& e) { return ed<G>(e); };
  for (int n = std::max(1, mx - 3); n <= mx; ++n)
    for (int stride : {1, 2, 3, 50, n / 2, n - 1, n})
      for (int aft : {0, 1, 2, 3}) {
        if (stride < 1) continue;
        EL el{{0, n - 1, 3}, {n / 2, 0, 4}, {n - 1, n - 1, 5}};
        CM m;
        m_edges<G>(m, el, 0);
        for (int x = 0; x <= n; x += stride)
          m.parts.push_back(x);
        if ((int)m.parts.size() > mx) m.parts.pop_back();
        S.run_case(++key, [&] { return "n=" + std::to_string(n) + " stride " + std::to_string(stride) + " then" + std::to_string(aft); },
                   [&] {
                     S.nontrivial();
                     G g(el, ep, std::vector<VId>(m.parts.begin(), m.parts.end()));
                     both(g, m, "constructed");
                     after(g, m, aft);
                     mc::outcome(m.hash());
                     mc::trace();
                   });
      }
}
// graphs without partitions of their own, in every container
template <class G>
void single(Suite& S, uint64_t key, G g, int n) {
  S.run_case(key, [&] { return "single partition n=" + std::to_string(n); },
             [&] {
               S.nontrivial();
               const G& c = g;
               MC_CHECK((int)graph::num_partitions(g) == 1 && (int)graph::num_partitions(c) == 1, "num_partitions of a graph without partitions");
               int k = 0;
               for (auto&& u : graph::vertices(g)) {
                 MC_CHECK((int)graph::partition_id(g, u) == 0, "partition_id in a graph without partitions");
                 ++k;
               }
               for (auto&& u : graph::vertices(c))
                 MC_CHECK((int)graph::partition_id(c, u) == 0, "partition_id in a graph without partitions");
               MC_CHECK(k == n, "vertices listed");
               mc::trace();
             });
}
#if PART == 1
MC_SUITE(tok) { parts<compressed_graph<Tok, Tok, Tok, uint32_t, uint32_t>>(S); }
MC_SUITE(limits_u8) { limits<compressed_graph<int, void, void, uint8_t, uint32_t>>(S); }
MC_SUITE(limits_i8) { limits<compressed_graph<int, void, void, int8_t, uint32_t>>(S); }
MC_SUITE(limits_i64) { limits<compressed_graph<int, void, void, int64_t, uint16_t>>(S); }
MC_SUITE(others) {
  uint64_t key = 0;
  for (int n = 0; n < 4; ++n) {
    single(S, ++key, std::vector<std::vector<int>>((size_t)n), n);
    single(S, ++key, std::deque<std::vector<std::pair<int, int>>>((size_t)n), n);
    {
      std::map<int, std::vector<int>> g;
      for (int i = 0; i < n; ++i)
        g[3 * i];
      single(S, ++key, g, n);
    }
    {
      dynamic_graph<int, int, int, uint32_t, false, vov_graph_traits<int, int, int, uint32_t, false>> g;
      g.resize_vertices((size_t)n);
      single(S, ++key, g, n);
    }
    {
      dynamic_graph<int, int, int, uint32_t, false, mov_graph_traits<int, int, int, uint32_t, false>> g;
      std::vector<graph::copyable_vertex_t<uint32_t, int>> v;
      for (int i = 0; i < n; ++i)
        v.push_back({(uint32_t)i * 2, i});
      g.load_vertices(v);
      single(S, ++key, g, n);
    }
    {
      undirected_adjacency_list<int, int, int> g;
      for (int i = 0; i < n; ++i)
        g.create_vertex(i);
      single(S, ++key, g, n);
    }
  }
}
#elif PART == 2
MC_SUITE(none) { parts<compressed_graph<void, void, void, uint16_t, uint32_t>>(S); }
MC_SUITE(i8) { parts<compressed_graph<int, Tok, void, int8_t, uint8_t>>(S); }
#endif
#endif
} // namespace

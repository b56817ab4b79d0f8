// C22: a dynamic graph holds exactly what was loaded.  C23: dynamic graphs behave like values.
#include "dynall.hpp"
using namespace da;
using mc::Suite;

namespace {
#if WHAT == 22
struct Op {
  int kind; // 0 load_edges, 1 load_vertices, 2 resize, 3 clear, 4 set vertex value, 5 set first edge value, 6 reserve
  int form = 0, vc = 0;
  EL  el;                             // edges
  std::vector<std::pair<int, int>> vl; // vertices
  std::string show() const {
    std::ostringstream os;
    switch (kind) {
    case 0: os << "load_edges" << da::show(el) << " form" << form << " vc" << vc; break;
    case 1:
      os << "load_vertices[";
      for (auto& [i, x] : vl)
        os << " " << i << "/" << x;
      os << " ] form" << form << " vc" << vc;
      break;
    case 2: os << "resize_vertices(" << vc << ")"; break;
    case 3: os << "clear"; break;
    case 4: os << "vertex_value(" << vc << ")="; break;
    case 5: os << "edge_value(first of " << vc << ")="; break;
    default: os << "reserve_vertices";
    }
    return os.str();
  }
};

template <class G>
bool valid(const Op& o, const Model& m) {
  using A = gargs<G>;
  if constexpr (A::MAP) {
    return o.kind != 2 || true;
  } else {
    const size_t n = m.v.size();
    if (o.kind == 0) {
      const bool infer = o.vc == 0 && o.form != 4;
      if (infer) return true;
      const size_t lim = std::max(n, (size_t)o.vc);
      for (auto& e : o.el)
        if ((size_t)std::max(e.u, e.v) >= lim) return false;
      return true;
    }
    if (o.kind == 1) {
      const size_t lim = std::max({n, (size_t)o.vc, o.form == 3 ? 0 : o.vl.size()});
      for (auto& [i, x] : o.vl)
        if ((size_t)i >= lim) return false;
      return true;
    }
    if (o.kind == 2) { // shrinking is only asked for when no remaining edge refers to a removed vertex
      for (auto& [i, x] : m.v) {
        if (i >= o.vc && (!x.out.empty() || !x.in.empty())) return false;
        for (auto& e : x.out)
          if (e.id >= o.vc) return false;
      }
    }
    return true;
  }
}

template <class G>
void model_apply(Model& m, const Op& o) {
  using A = gargs<G>;
  switch (o.kind) {
  case 0: {
    if (!A::MAP) {
      size_t n = std::max(m.v.size(), (size_t)o.vc);
      if (o.vc == 0 && o.form != 4)
        for (auto& e : o.el)
          n = std::max(n, (size_t)std::max(e.u, e.v) + 1);
      for (size_t i = 0; i < n; ++i)
        m.v[(int)i];
    }
    for (auto& e : o.el)
      model_edge<G>(m, e.u, e.v, e.w);
    break;
  }
  case 1:
    if (!A::MAP)
      for (size_t i = 0; i < std::max((size_t)o.vc, o.form == 3 ? 0 : o.vl.size()); ++i)
        m.v[(int)i];
    for (auto& [i, x] : o.vl)
      m.v[i].val = Void<typename A::VV> ? 0 : x;
    break;
  case 2:
    if (!A::MAP) {
      for (int i = 0; i < o.vc; ++i)
        m.v[i];
      while ((int)m.v.size() > o.vc)
        m.v.erase(std::prev(m.v.end()));
    }
    break;
  case 3: m.v.clear(), m.edges = 0; break;
  case 4:
    if (!Void<typename A::VV> && m.v.count(o.vc)) m.v[o.vc].val = 77;
    break;
  case 5: // out of sequence containers of unidirectional graphs only
    if (!Void<typename A::EV> && !A::Bi && !A::KEYED && m.v.count(o.vc) && !m.v[o.vc].out.empty()) m.v[o.vc].out[0].val = 88;
    break;
  }
}

template <class G, class L>
void call_load(G& g, const Op& o, L&& l) {
  if (o.vc)
    g.load_edges(std::forward<L>(l), std::identity{}, (size_t)o.vc, o.form == 1 ? l.size() : 0);
  else
    g.load_edges(std::forward<L>(l));
}
template <class G>
bool same(const std::vector<CE<G>>& a, const std::vector<CE<G>>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) {
    if (a[i].source_id != b[i].source_id || a[i].target_id != b[i].target_id) return false;
    if constexpr (!Void<typename gargs<G>::EV>)
      if (!(a[i].value == b[i].value)) return false;
  }
  return true;
}
template <class G>
bool same_v(const std::vector<CV<G>>& a, const std::vector<CV<G>>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) {
    if (a[i].id != b[i].id) return false;
    if constexpr (!Void<typename gargs<G>::VV>)
      if (!(a[i].value == b[i].value)) return false;
  }
  return true;
}
template <class G>
void do_op(G& g, const Op& o) {
  using A   = gargs<G>;
  using VId = typename A::VId;
  mc::transition();
  switch (o.kind) {
  case 0: {
    auto       src  = ces<G>(o.el);
    const auto keep = src;
    switch (o.form) {
    case 0: call_load(g, o, keep); break;
    case 1:
      call_load(g, o, src);
      MC_CHECK(same<G>(src, keep), "load_edges changed the caller's edges");
      break;
    case 2: call_load(g, o, std::move(src)); break;
    case 3: {
      const std::list<E3> l(o.el.begin(), o.el.end());
      g.load_edges(l, [](const E3& e) { return ce<G>(e); }, (size_t)o.vc);
      break;
    }
    case 4: g.load_edges(OnePass<CE<G>>{&keep}, std::identity{}, (size_t)o.vc); break;
    case 5: call_load(g, o, o.el | std::views::transform([](const E3& e) { return ce<G>(e); })); break; // makes its edges as they are read
    }
    break;
  }
  case 1: {
    std::vector<CV<G>> src;
    for (auto& [i, x] : o.vl)
      src.push_back(cv<G>(i, x));
    const auto keep = src;
    switch (o.form) {
    case 0:
      if (o.vc)
        g.load_vertices(keep, std::identity{}, (size_t)o.vc);
      else
        g.load_vertices(keep);
      break;
    case 1: g.load_vertices(std::move(src), std::identity{}, (size_t)o.vc); break;
    case 2: g.load_vertices(o.vl, [](const std::pair<int, int>& p) { return cv<G>(p.first, p.second); }, (size_t)o.vc); break;
    case 3: g.load_vertices(OnePass<CV<G>>{&keep}, std::identity{}, (size_t)o.vc); break;
    case 4: // the caller's own list
      g.load_vertices(src, std::identity{}, (size_t)o.vc);
      MC_CHECK(same_v<G>(src, keep), "load_vertices changed the caller's vertices");
      break;
    case 5: // a view of it
      g.load_vertices(std::ranges::subrange(src.begin(), src.end()), std::identity{}, (size_t)o.vc);
      MC_CHECK(same_v<G>(src, keep), "load_vertices changed the vertices behind a view");
      break;
    case 6: { // a projection that refers to the caller's records
      std::vector<size_t> at(src.size());
      for (size_t i = 0; i < at.size(); ++i) at[i] = i;
      g.load_vertices(at, [&](size_t i) -> CV<G>& { return src[i]; }, (size_t)o.vc);
      MC_CHECK(same_v<G>(src, keep), "load_vertices changed the vertices behind a projection");
      break;
    }
    }
    break;
  }
  case 2: g.resize_vertices((size_t)o.vc); break;
  case 3: g.clear(); break;
  case 4:
    if constexpr (!Void<typename A::VV>) {
      auto it = graph::find_vertex(g, mkid<VId>(o.vc));
      if (it != graph::vertices(g).end()) graph::vertex_value(g, *it) = typename A::VV(77);
    }
    break;
  case 5:
    if constexpr (!Void<typename A::EV> && !A::Bi && !A::KEYED) {
      auto it = graph::find_vertex(g, mkid<VId>(o.vc));
      if (it != graph::vertices(g).end())
        for (auto&& uv : graph::edges(g, *it)) {
          graph::edge_value(g, uv) = typename A::EV(88);
          break;
        }
    }
    break;
  case 6: g.reserve_vertices(8), g.reserve_edges(8); break;
  }
}

std::vector<EL> lists(int ids, int k) {
  std::vector<EL> r{EL{}};
  size_t          from = 0;
  for (int d = 0; d < k; ++d) {
    const size_t to = r.size();
    for (; from < to; ++from)
      for (int u = 0; u < ids; ++u)
        for (int v = 0; v < ids; ++v) {
          EL l = r[from];
          l.push_back({u, v, 10 * (d + 1) + u * 3 + v});
          r.push_back(l);
        }
  }
  return r;
}

template <class G>
void run_seq(Suite& S, uint64_t key, const std::vector<const Op*>& seq) {
  S.run_case(
        key,
        [&] {
          std::string s;
          for (auto* o : seq)
            s += o->show() + "; ";
          return s;
        },
        [&] {
          Model m;
          G     g;
          for (auto* o : seq) {
            if (!valid<G>(*o, m)) return;
            model_apply<G>(m, *o);
            do_op(g, *o);
          }
          S.nontrivial();
          agree(g, m, "after the last operation");
          mc::outcome(m.hash());
          mc::trace();
        });
}

template <class G>
void suite(Suite& S, bool = false) {
  using A      = gargs<G>;
  using VId    = typename A::VId;
  uint64_t key = 0;
  // one load: every list
  std::vector<Op> one;
  for (auto& l : lists(3, mc::tier(2, 3)))
    for (int f = 0; f < 6; ++f)
      for (int vc : {0, 3})
        one.push_back({0, f, vc, l, {}});
  for (auto& o : one)
    run_seq<G>(S, ++key, {&o});
  // constructors
  const std::vector<VId> none;
  for (auto& l : lists(3, 2))
    for (int f = 0; f < 6; ++f) {
      ++key;
      S.run_case(
            key, [&] { return "constructor form" + std::to_string(f) + " " + show(l); },
            [&] {
              const auto               src = ces<G>(l);
              std::vector<VId>         parts;
              Model                    m;
              Op                       o{0, 0, 0, l, {}};
              auto                     go = [&](auto&& g) { agree(g, m, "after construction"), mc::outcome(m.hash()), mc::trace(); };
              S.nontrivial();
              if (f == 0) { // initializer list
                model_apply<G>(m, o);
                auto il = [&](std::initializer_list<CE<G>> i) {
                  G g(i);
                  if (l.empty() && !A::MAP && g.size() == 1) m.v[0]; // documented: an empty list may create vertex 0
                  go(g);
                };
                if (l.size() == 0) il({});
                else if (l.size() == 1) il({ce<G>(l[0])});
                else il({ce<G>(l[0]), ce<G>(l[1])});
              } else if (f == 1) { // graph value and initializer list
                if constexpr (!Void<typename A::GV>) {
                  model_apply<G>(m, o);
                  m.gv = 5;
                  const typename A::GV gv(5);
                  auto il = [&](std::initializer_list<CE<G>> i) {
                    G g(gv, i), h(typename A::GV(5), i);
                    if (l.empty() && !A::MAP && g.size() == 1) m.v[0];
                    go(g), go(h);
                  };
                  if (l.size() == 0) il({});
                  else if (l.size() == 1) il({ce<G>(l[0])});
                  else il({ce<G>(l[0]), ce<G>(l[1])});
                }
              } else if (f == 2) { // edges and vertices
                std::vector<CV<G>> vs;
                for (int i : {2, 0, 1})
                  vs.push_back(cv<G>(i, 40 + i));
                model_apply<G>(m, Op{1, 0, 0, {}, {{2, 42}, {0, 40}, {1, 41}}});
                model_apply<G>(m, o);
                G g(src, vs, std::identity{}, std::identity{}, parts);
                go(g);
              } else if (f == 3) { // edges and no vertices
                std::vector<CV<G>> vs;
                model_apply<G>(m, o);
                G g(l, vs, [](const E3& e) { return ce<G>(e); }, std::identity{}, parts);
                go(g);
              } else if (f == 4) { // largest id and edges
                if constexpr (!std::is_same_v<VId, std::string>) {
                  o.vc = A::MAP ? 0 : 4;
                  model_apply<G>(m, o);
                  auto copy = src;
                  if constexpr (!A::MAP) parts = {0, 2};
                  G g((VId)3, copy, std::identity{}, parts);
                  MC_CHECK(same<G>(copy, src), "the constructor changed the caller's edges");
                  go(g);
                }
              } else { // graph value only, allocator
                if constexpr (!Void<typename A::GV>) {
                  m.gv = 6;
                  const typename A::GV gv(6);
                  G g(gv), h(typename A::GV(6));
                  go(g), go(h);
                  model_apply<G>(m, o);
                  do_op(g, o), do_op(h, Op{0, 2, 0, l, {}});
                  go(g), go(h);
                }
                Model e;
                G     a{typename G::allocator_type()};
                agree(a, e, "from an allocator");
                model_apply<G>(e, o);
                do_op(a, o);
                agree(a, e, "from an allocator, loaded");
              }
            });
    }
  // histories
  std::vector<Op> ops;
  for (auto& l : lists(3, 1)) {
    ops.push_back({0, 0, 0, l, {}});
    ops.push_back({0, 2, 3, l, {}});
    ops.push_back({0, 4, 0, l, {}});
  }
  ops.push_back({0, 1, 0, {{0, 2, 5}, {0, 1, 6}, {0, 1, 7}, {2, 0, 8}}, {}});
  ops.push_back({0, 3, 0, {{1, 1, 5}, {3, 1, 6}, {1, 0, 7}, {1, 1, 8}}, {}});
  ops.push_back({0, 0, 5, {{1, 2, 9}}, {}});
  for (int f = 0; f < 7; ++f)
    for (auto& vl : std::vector<std::vector<std::pair<int, int>>>{{}, {{0, 21}}, {{1, 22}, {0, 23}}, {{2, 24}, {2, 25}, {0, 26}}})
      for (int vc : {0, 4})
        if (f <= 3 || (vl.size() == 2 && vc == 0)) ops.push_back({1, f, vc, {}, vl});
  for (int n : {0, 1, 2, 3, 5})
    ops.push_back({2, 0, n, {}, {}});
  ops.push_back({3});
  for (int i : {0, 1, 3})
    ops.push_back({4, 0, i, {}, {}}), ops.push_back({5, 0, i, {}, {}});
  ops.push_back({6});
  for (auto& a : ops)
    for (auto& b : ops)
      run_seq<G>(S, ++key, {&a, &b});
  std::vector<const Op*> mini;
  for (size_t i = 0; i < ops.size(); ++i)
    if ((ops[i].kind >= 2 && ops[i].kind != 6 && (mc::thorough() || (ops[i].vc != 2 && ops[i].vc != 3))) ||
        (ops[i].kind == 1 && ops[i].vl.size() >= 2 && ops[i].form < mc::tier(1, 2)) ||
        (ops[i].kind == 0 && (ops[i].el.size() > 1 || (ops[i].el.size() == 1 && ops[i].form == 0 && ops[i].el[0].u <= ops[i].el[0].v && (mc::thorough() || ops[i].el[0].v != 1)))))
      mini.push_back(&ops[i]);
  for (auto* a : mini)
    for (auto* b : mini)
      for (auto* c : mini) {
        run_seq<G>(S, ++key, {a, b, c});
        if (mc::thorough())
          for (auto* d : mini)
            run_seq<G>(S, ++key, {a, b, c, d});
      }
}
#endif

#if WHAT == 23
template <class G>
EL content(int k) {
  switch (k) {
  case 0: return {{0, 1, 11}, {1, 0, 12}, {0, 2, 13}};
  case 1: return {{1, 1, 21}, {1, 3, 22}};
  default: return {};
  }
}
struct Op {
  int         kind, i = 0, k = 0; // slot i, content k
  std::string show() const {
    static const char* n[] = {"load", "clear", "copy-assign", "move-assign", "copy-construct", "move-construct", "swap", "self-assign", "edit", "std::swap"};
    return std::string(n[kind]) + "(" + std::to_string(i) + (kind == 0 ? "," + std::to_string(k) : "") + ")";
  }
};
template <class G>
void load(G& g, int k) {
  using A = gargs<G>;
  if (k == 2) {
    std::vector<CV<G>> vs;
    vs.push_back(cv<G>(0, 31)), vs.push_back(cv<G>(1, 32));
    g.load_vertices(std::as_const(vs));
  } else
    g.load_edges(ces<G>(content<G>(k)));
  if constexpr (!Void<typename A::GV>) g.graph_value() = typename A::GV(50 + k);
}
template <class G>
void mload(Model& m, int k) {
  using A = gargs<G>;
  if (k == 2) {
    m.v[0].val = Void<typename A::VV> ? 0 : 31;
    m.v[1].val = Void<typename A::VV> ? 0 : 32;
  } else {
    auto l = content<G>(k);
    if (!A::MAP)
      for (auto& e : l)
        for (int i = 0; i <= std::max(e.u, e.v); ++i)
          m.v[i];
    for (auto& e : l)
      model_edge<G>(m, e.u, e.v, e.w);
  }
  if (!Void<typename A::GV>) m.gv = 50 + k;
}
template <class G>
void suite(Suite& S, bool deep = false) {
  using A   = gargs<G>;
  using VId = typename A::VId;
  std::vector<Op> ops;
  for (int i : {0, 1}) {
    for (int k : {0, 1, 2})
      ops.push_back({0, i, k});
    for (int k = 1; k <= 8; ++k)
      if (k != 6) ops.push_back({k, i});
  }
  ops.push_back({6}), ops.push_back({9});
  uint64_t                key = 0;
  std::vector<const Op*>  seq;
  auto                    run = [&] {
    S.run_case(
          ++key,
          [&] {
            std::string s = "slot 0 loaded(0); ";
            for (auto* o : seq)
              s += o->show() + " ";
            return s;
          },
          [&] {
            Model              m[2];
            bool               gvk[2] = {true, true}; // is the graph value known (it is not after a move)
            std::unique_ptr<G> g[2]   = {std::make_unique<G>(), std::make_unique<G>()};
            load(*g[0], 0), mload<G>(m[0], 0);
            for (auto* o : seq) {
              mc::transition();
              const int i = o->i, j = 1 - i; // i is the source of an assignment, j the destination
              switch (o->kind) {
              case 0: load(*g[i], o->k), mload<G>(m[i], o->k), gvk[i] = true; break;
              case 1: g[i]->clear(), m[i].v.clear(), m[i].edges = 0; break;
              case 2: *g[j] = *g[i], m[j] = m[i], gvk[j] = gvk[i]; break;
              case 3: *g[j] = std::move(*g[i]), m[j] = m[i], gvk[j] = gvk[i], m[i] = {}, gvk[i] = false; break;
              case 4: g[j] = std::make_unique<G>(std::as_const(*g[i])), m[j] = m[i], gvk[j] = gvk[i]; break;
              case 5: g[j] = std::make_unique<G>(std::move(*g[i])), m[j] = m[i], gvk[j] = gvk[i], m[i] = {}, gvk[i] = false; break;
              case 6: {
                using std::swap;
                swap(*g[0], *g[1]);
                std::swap(m[0], m[1]), std::swap(gvk[0], gvk[1]);
                break;
              }
              case 9: std::ranges::swap(*g[0], *g[1]), std::swap(m[0], m[1]), std::swap(gvk[0], gvk[1]); break;
              case 7: {
                auto& r = *g[i];
                *g[i]   = r;
                break;
              }
              case 8: { // change values in place
                if constexpr (!Void<typename A::VV>) {
                  auto it = graph::find_vertex(*g[i], mkid<VId>(0));
                  if (it != graph::vertices(*g[i]).end()) graph::vertex_value(*g[i], *it) = typename A::VV(77), m[i].v[0].val = 77;
                }
                if constexpr (!Void<typename A::EV> && !A::Bi && !A::KEYED) {
                  for (auto&& u : graph::vertices(*g[i]))
                    for (auto&& uv : graph::edges(*g[i], u)) {
                      const int w                  = val_of(graph::edge_value(*g[i], uv)) + 100;
                      graph::edge_value(*g[i], uv) = typename A::EV(w);
                    }
                  for (auto& [id, x] : m[i].v)
                    for (auto& e : x.out)
                      e.val += 100;
                }
                if constexpr (!Void<typename A::GV>) g[i]->graph_value() = typename A::GV(9), m[i].gv = 9, gvk[i] = true;
                break;
              }
              }
            }
            S.nontrivial();
            for (int i : {0, 1}) {
              if (!gvk[i] && !Void<typename A::GV>) {
                if constexpr (!Void<typename A::GV>) m[i].gv = val_of(g[i]->graph_value());
              }
              agree(*g[i], m[i], i ? "slot 1" : "slot 0");
            }
            mc::outcome(m[0].hash() * 31 + m[1].hash());
            mc::trace();
          });
  };
  const int                        depth = deep ? mc::tier(3, 4) : mc::tier(2, 3);
  std::function<void(int)>         rec   = [&](int d) {
    if (d) run();
    if (d == depth) return;
    for (auto& o : ops) {
      seq.push_back(&o);
      rec(d + 1);
      seq.pop_back();
    }
  };
  rec(0);
}
#endif

template <class VId, template <class, class, class, class, bool> class T, class EV, class VV, class GV, bool Bi>
using DG = dynamic_graph<EV, VV, GV, VId, Bi, T<EV, VV, GV, VId, Bi>>;
#define SU(t, name, ID, EV, VV, GV, BI, DEEP)                                                                                \
  MC_SUITE(t##_##name) { suite<DG<ID, t##_graph_traits, EV, VV, GV, BI>>(S, DEEP); }
#define FULL(t) SU(t, tok, uint32_t, Tok, Tok, Tok, false, true)
#define BARE(t) SU(t, void, uint32_t, void, void, void, false, false)
#define BIDI(t) SU(t, bi, uint32_t, Tok, void, int, true, false)
#define ALL3(t) FULL(t) BARE(t) BIDI(t)
#define STR(t) SU(t, str, std::string, int, Tok, void, false, false)
#define I8(t) SU(t, i8, int8_t, int, int, void, false, false)

#if PART == 1
ALL3(vov) ALL3(vod) I8(vov) FULL(mov) BARE(mov) SU(mov, bi, uint32_t, Tok, void, int, true, true)
#elif PART == 2
ALL3(vofl) ALL3(vol) STR(mous) ALL3(mod)
#elif PART == 3
ALL3(vos) ALL3(vous) I8(vos) ALL3(mofl)
#elif PART == 4
ALL3(vom) ALL3(voum) I8(voum) ALL3(mol)
#elif PART == 5
ALL3(dov) ALL3(dod) STR(mov) ALL3(mos)
#elif PART == 6
ALL3(dofl) ALL3(dol) STR(uov) ALL3(mous)
#elif PART == 7
ALL3(dos) ALL3(dous) ALL3(mom) STR(mom)
#elif PART == 8
ALL3(uov) ALL3(uod) ALL3(uofl)
#elif PART == 9
ALL3(uol) ALL3(uos) ALL3(uous) STR(uofl)
#endif
} // namespace

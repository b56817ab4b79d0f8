// C26: an undirected adjacency list stays consistent under every edit history.
// C27: undirected adjacency lists have value semantics and never leak or dangle.
#include "ualmodel.hpp"
using namespace da;
using namespace um;
using mc::Suite;

namespace {
// ------------------------------------------------------------------------------------------------- operations
enum K { AddV, AddE, EraseV, EraseG, EraseR, ClearV, ClearG, Resize, ResizeV, Reserve, LoopV, LoopG, SetE, SetV };
struct Op {
  K   k;
  int a = 0, b = 0, f = 0;
  std::string str() const {
    static const char* nm[] = {"create_vertex", "create_edge", "erase_edge@vertex", "erase_edge@graph", "erase_range", "clear_edges", "clear",
                               "resize_vertices", "resize_vertices+value", "reserve_vertices", "erase_while_iterating_vertex",
                               "erase_while_iterating_graph", "set_edge_value", "set_vertex_value"};
    return std::string(nm[k]) + "(" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(f) + ")";
  }
};
using Ops = std::vector<Op>;
std::string show(const Ops& p) {
  std::string s;
  for (auto& o : p)
    s += o.str() + " ";
  return s;
}
// Apply op to the model and, if g is given, to the graph; what the operation itself returns is checked as well.
template <class G>
void apply(Model& m, G* g, const Op& o) {
  using A           = uargs<G>;
  using VId         = typename A::VId;
  constexpr bool EV = !Void<typename A::EV>, VV = !Void<typename A::VV>;
  auto w_of         = [&] { return EV ? 10 + m.next : 0; };
  switch (o.k) {
  case AddV: {
    const int at = m.n();
    const int x  = VV && o.f ? 100 + at : 0;
    m.add_v(x);
    if (g) {
      auto it = g->begin();
      if constexpr (VV) {
        using V = typename A::VV;
        if (o.f == 1) {
          const V v(x);
          it = g->create_vertex(v);
          MC_CHECK(val_of(v) == x, "create_vertex changed a value passed as const");
        } else if (o.f == 2)
          it = g->create_vertex(V(x));
        else
          it = g->create_vertex();
      } else
        it = g->create_vertex();
      MC_CHECK(it == g->begin() + at, "create_vertex returned another vertex");
    }
    break;
  }
  case AddE: {
    const int w = o.f % 3 ? w_of() : 0;
    const int k = m.add_e(o.a, o.b, w);
    if (g) {
      const VId u = (VId)o.a, v = (VId)o.b;
      auto      ui = g->begin() + o.a, vi = g->begin() + o.b;
      using It     = typename G::vertex_edge_iterator;
      It it;
      if constexpr (EV) {
        using V = typename A::EV;
        const V x(w);
        switch (o.f) {
        case 0: it = g->create_edge(u, v); break;
        case 1: it = g->create_edge(u, v, x); break;
        case 2: it = g->create_edge(u, v, V(w)); break;
        case 3: it = g->create_edge(ui, vi); break;
        case 4: it = g->create_edge(ui, vi, x); break;
        case 5: it = g->create_edge(ui, vi, V(w)); break;
        }
        MC_CHECK(val_of(x) == w, "create_edge changed a value passed as const");
        MC_CHECK(ev_of(*it) == w, "create_edge returned an edge with another value");
      } else
        it = o.f < 3 ? g->create_edge(u, v) : g->create_edge(ui, vi);
      MC_CHECK((int)it->list_owner_id() == o.a && (int)it->list_target_id() == o.b && (int)it.source_id() == o.a,
               "create_edge returned another edge");
      auto nx = it;
      ++nx;
      MC_CHECK(nx == g->vertices()[(size_t)o.a].edges_end(*g, u), "a new edge is not the last one of its source");
      if (m.adj[o.a].size() > 1) {
        auto pv = it;
        --pv;
        const Edge& x = m.e.at(m.adj[o.a][m.adj[o.a].size() - 2]);
        MC_CHECK((int)pv->list_owner_id() == x.s && (int)pv->list_target_id() == x.t, "edge before a new edge");
      }
    }
    (void)k;
    break;
  }
  case EraseV: { // the edge at position b of vertex a
    const int k = m.adj[o.a][(size_t)o.b];
    m.erase(k);
    if (g) {
      const VId uid = (VId)o.a;
      auto&     u   = g->vertices()[(size_t)o.a];
      auto      it  = u.edges_begin(*g, uid);
      if (o.f == 0)
        std::advance(it, o.b);
      else if (o.f == 1) {
        it = u.edges_end(*g, uid);
        for (int i = (int)u.num_edges(); i > o.b; --i)
          --it;
      } else {
        auto r = graph::edges(*g, uid);
        it     = (*std::next(r.begin(), o.b)).value();
      }
      auto nx = u.erase_edge(*g, it);
      auto ex = u.edges_begin(*g, uid);
      std::advance(ex, o.b);
      MC_CHECK(nx == ex, "erase_edge does not return the next edge");
    }
    break;
  }
  case EraseR: {
    std::vector<int> ks(m.adj[o.a].begin() + o.b, m.adj[o.a].begin() + o.f);
    for (int k : ks)
      m.erase(k);
    if (g) {
      const VId uid = (VId)o.a;
      auto&     u   = g->vertices()[(size_t)o.a];
      auto      nx  = u.erase_edge(*g, std::next(u.edges_begin(*g, uid), o.b), std::next(u.edges_begin(*g, uid), o.f));
      MC_CHECK(nx == std::next(u.edges_begin(*g, uid), o.b), "erase_edge of a range does not return the next edge");
    }
    break;
  }
  case EraseG: { // the a-th edge of the whole-graph iteration
    auto             w = m.whole();
    const int        k = w[(size_t)o.a];
    std::vector<int> rest(w.begin() + o.a + 1, w.end());
    std::erase(rest, k);
    m.erase(k);
    if (g) {
      auto it = g->edges().begin();
      for (int i = 0; i < o.a; ++i)
        ++it;
      it       = g->erase_edge(it);
      size_t i = 0;
      for (; it != g->edges().end(); ++it, ++i) {
        MC_CHECK(i < rest.size(), "erase_edge(edge_iterator): too many edges follow");
        const Edge& x = m.e.at(rest[i]);
        MC_CHECK((int)it->list_owner_id() == x.s && (int)it->list_target_id() == x.t && (!EV || ev_of(*it) == x.w),
                 "erase_edge(edge_iterator): wrong edge follows at " << i);
      }
      MC_CHECK(i == rest.size(), "erase_edge(edge_iterator): too few edges follow");
    }
    break;
  }
  case ClearV:
    m.clear_v(o.a);
    if (g) g->vertices()[(size_t)o.a].clear_edges(*g);
    break;
  case ClearG:
    m.clear();
    if (g) g->clear();
    break;
  case Resize:
    m.resize(o.a, 0);
    if (g) g->resize_vertices((size_t)o.a);
    break;
  case ResizeV:
    m.resize(o.a, VV ? 55 : 0);
    if constexpr (VV) {
      const typename A::VV v(55);
      if (g) g->resize_vertices((size_t)o.a, v);
    } else if (g)
      g->resize_vertices((size_t)o.a);
    break;
  case Reserve:
    if (g) g->reserve_vertices((size_t)o.a);
    break;
  case LoopV: { // erase the edges picked by the mask while iterating over the edges of a vertex
    auto ks = m.adj[o.a];
    if (g) {
      const VId uid = (VId)o.a;
      auto&     u   = g->vertices()[(size_t)o.a];
      size_t    i   = 0;
      for (auto it = u.edges_begin(*g, uid); it != u.edges_end(*g, uid); ++i) {
        MC_CHECK(i < ks.size(), "iteration while erasing goes on too long");
        const Edge& x = m.e.at(ks[i]);
        MC_CHECK((int)it->list_owner_id() == x.s && (int)it->list_target_id() == x.t && (!EV || ev_of(*it) == x.w),
                 "iteration while erasing visits another edge");
        if (o.b >> i & 1)
          it = u.erase_edge(*g, it);
        else
          ++it;
      }
      MC_CHECK(i == ks.size(), "iteration while erasing ends early");
    }
    for (size_t i = 0; i < ks.size(); ++i)
      if (o.b >> i & 1) m.erase(ks[i]);
    break;
  }
  case LoopG: { // erase edges while iterating over all edges; mask over the edges in order of first appearance
    std::vector<int> order;
    for (int k : m.whole())
      if (std::find(order.begin(), order.end(), k) == order.end()) order.push_back(k);
    std::set<int> gone;
    for (size_t i = 0; i < order.size(); ++i)
      if (o.a >> i & 1) gone.insert(order[i]);
    std::vector<int> visit;
    for (int k : m.whole())
      if (!gone.count(k) || std::find(visit.begin(), visit.end(), k) == visit.end()) visit.push_back(k);
    if (g) {
      size_t i = 0;
      for (auto it = g->edges().begin(); it != g->edges().end(); ++i) {
        MC_CHECK(i < visit.size(), "whole-graph iteration while erasing goes on too long");
        const Edge& x = m.e.at(visit[i]);
        MC_CHECK((int)it->list_owner_id() == x.s && (int)it->list_target_id() == x.t && (!EV || ev_of(*it) == x.w),
                 "whole-graph iteration while erasing visits another edge");
        if (gone.count(visit[i]))
          it = g->erase_edge(it);
        else
          ++it;
      }
      MC_CHECK(i == visit.size(), "whole-graph iteration while erasing ends early");
    }
    for (int k : gone)
      m.erase(k);
    break;
  }
  case SetE: {
    const int k = m.adj[o.a][(size_t)o.b];
    if constexpr (EV) {
      m.e.at(k).w = 500 + o.b;
      if (g) {
        auto r = graph::edges(*g, (VId)o.a);
        graph::edge_value(*g, *std::next(r.begin(), o.b)) = typename A::EV(500 + o.b);
      }
    }
    break;
  }
  case SetV:
    if constexpr (VV) {
      m.vv[(size_t)o.a] = 300;
      if (g) g->vertices()[(size_t)o.a].value() = typename A::VV(300);
    }
    break;
  }
}
// every operation that can be applied to m, within the bounds
Ops ops_of(const Model& m, int maxv, int maxe, bool ev) {
  Ops r;
  if (m.n() < maxv)
    for (int f = 0; f < 3; ++f)
      r.push_back({AddV, 0, 0, f});
  if ((int)m.e.size() < maxe)
    for (int u = 0; u < m.n(); ++u)
      for (int v = 0; v < m.n(); ++v)
        for (int f = 0; f < (ev ? 6 : 4); f += ev ? 1 : 3)
          r.push_back({AddE, u, v, f});
  for (int u = 0; u < m.n(); ++u) {
    const int d = (int)m.adj[u].size();
    for (int i = 0; i < d; ++i)
      for (int f = 0; f < 3; ++f)
        r.push_back({EraseV, u, i, f});
    for (int i = 0; i <= d; ++i)
      for (int j = i; j <= d; ++j)
        r.push_back({EraseR, u, i, j});
    if (d) r.push_back({ClearV, u});
    for (int k = 0; k < (1 << d); ++k)
      if (__builtin_popcount((unsigned)k) != 1 || true) r.push_back({LoopV, u, k});
    for (int i = 0; i < d; ++i)
      r.push_back({SetE, u, i});
    r.push_back({SetV, u});
  }
  for (int i = 0; i < (int)m.whole().size(); ++i)
    r.push_back({EraseG, i});
  for (int k = 0; k < (1 << m.e.size()); ++k)
    r.push_back({LoopG, k});
  for (int k = 0; k <= maxv; ++k) {
    r.push_back({Resize, k});
    r.push_back({ResizeV, k});
  }
  r.push_back({Reserve, 16});
  r.push_back({ClearG});
  return r;
}
// The states a graph can get into by editing it, each with a shortest history that leads there.
struct State {
  Model m;
  Ops   path;
};
template <class G>
std::vector<State> states(int maxv, int maxe, int depth) {
  mc::Untracked        un;
  std::vector<State>   all{{}};
  std::set<std::string> seen{Model{}.key()};
  constexpr bool       ev = !Void<typename uargs<G>::EV>;
  for (size_t i = 0; i < all.size(); ++i) {
    if ((int)all[i].path.size() >= depth) continue;
    const State s = all[i];
    for (auto& o : ops_of(s.m, maxv, maxe, ev)) {
      if (o.k == SetV || o.k == ResizeV || (o.k == AddV && o.f == 0 && !Void<typename uargs<G>::VV>)) continue; // values do not matter to what follows
      State t = s;
      apply<G>(t.m, nullptr, o);
      if (!seen.insert(t.m.key()).second) continue;
      t.path.push_back(o);
      all.push_back(std::move(t));
    }
  }
  return all;
}
template <class G>
void replay(G& g, const Ops& p, Model& m) {
  for (auto& o : p)
    apply(m, &g, o);
}
template <class G>
G fresh(Model& m) {
  using GV = typename uargs<G>::GV;
  if constexpr (Void<GV>)
    return G();
  else {
    m.gv = 3;
    return G(GV(3));
  }
}

#if WHAT == 26
// Explore every state; on each, every operation.  The graph is brought into the state by the history, edited, and compared with the
// model; iterators to every edge that survives stay valid and keep pointing at it.
template <class G>
void histories(Suite& S, int maxv, int maxe, int depth) {
  using VId         = typename uargs<G>::VId;
  constexpr bool ev = !Void<typename uargs<G>::EV>;
  auto           all = states<G>(maxv, maxe, depth);
  mc::count("reachable_states", S.name_hash && mc::opt.shard == 0 ? all.size() : 0);
  for (auto& s : all) {
    const uint64_t h = mc::Hash().add(s.m.key()).h;
    for (auto& o : ops_of(s.m, maxv, maxe, ev)) {
      const uint64_t key = mc::Hash().add(h).add(o.k).add(o.a).add(o.b).add(o.f).h;
      if (S.stop()) return;
      S.run_case(
            key, [&] { return show(s.path) + "then " + o.str() + " on " + s.m.str(); },
            [&] {
              Model m;
              G     g = fresh<G>(m);
              replay(g, s.path, m);
              check_const(std::as_const(g), m, "before");
              // handles on every edge, from both ends
              struct H {
                typename G::vertex_edge_iterator it;
                int                              u, k;
                const void*                      p;
              };
              std::vector<H> hs;
              for (int u = 0; u < m.n(); ++u) {
                auto it = g.vertices()[(size_t)u].edges_begin(g, (VId)u);
                for (int k : m.adj[u]) {
                  hs.push_back({it, u, k, &*it});
                  ++it;
                }
              }
              apply(m, &g, o);
              check(g, m, "after");
              for (auto& x : hs) {
                if (!m.e.count(x.k)) continue;
                MC_CHECK((const void*)&*x.it == x.p && (!ev || ev_of(*x.it) == m.e.at(x.k).w), "a surviving edge moved or changed");
                auto&  a  = m.adj[x.u];
                size_t at = (size_t)(std::find(a.begin(), a.end(), x.k) - a.begin());
                auto   nx = x.it;
                ++nx;
                auto ex = std::next(g.vertices()[(size_t)x.u].edges_begin(g, (VId)x.u), (std::ptrdiff_t)at + 1);
                MC_CHECK(nx == ex, "an iterator held over the operation goes on to another edge");
              }
              mc::state(mc::Hash().add(S.name_hash).add(m.key()).h);
              mc::outcome(mc::Hash().add(m.key()).h);
              mc::transition();
              mc::trace();
              if (!m.e.empty() || !s.m.e.empty()) S.nontrivial();
            });
    }
  }
}

// Construction from ranges: vertices in the order given, as many as needed, edges in order, out-of-order edges are refused.
template <class T>
struct OnePassR : std::ranges::view_base { // an input_range that can be walked once
  const std::vector<T>* v;
  mutable size_t        i = 0;
  struct it {
    using value_type       = T;
    using difference_type  = std::ptrdiff_t;
    using iterator_concept = std::input_iterator_tag;
    const OnePassR* r      = nullptr;
    T               operator*() const { return (*r->v)[r->i]; }
    it&             operator++() {
      ++r->i;
      return *this;
    }
    void operator++(int) { ++r->i; }
    bool operator==(std::default_sentinel_t) const { return r->i == r->v->size(); }
  };
  it                      begin() const { return {this}; }
  std::default_sentinel_t end() const { return {}; }
};
template <class G>
void construction(Suite& S, int maxe) {
  using A           = uargs<G>;
  using VId         = typename A::VId;
  constexpr bool EV = !Void<typename A::EV>, VV = !Void<typename A::VV>, GV = !Void<typename A::GV>;
  using CE          = graph::copyable_edge_t<VId, typename A::EV>;
  using CV          = graph::copyable_vertex_t<VId, typename A::VV>;
  struct Rec {
    int u, v, w;
  };
  auto ce = [](const Rec& r) {
    if constexpr (EV)
      return CE{(VId)r.u, (VId)r.v, typename A::EV(r.w)};
    else
      return CE{(VId)r.u, (VId)r.v};
  };
  auto cv = [](const int& x) {
    if constexpr (VV)
      return CV{(VId)0, typename A::VV(x)};
    else
      return CV{(VId)x};
  };
  for (int len = 0; len <= maxe; ++len) {
    uint64_t total = 1;
    for (int i = 0; i < len; ++i)
      total *= 9;
    for (uint64_t code = 0; code < total; ++code)
      for (int nv = 0; nv <= 4; ++nv)
        for (int form = 0; form < 9; ++form) {
          if (form >= 6 && nv) continue;
          if (S.stop()) return;
          std::vector<Rec> recs;
          uint64_t         c = code;
          for (int i = 0; i < len; ++i, c /= 9)
            recs.push_back({(int)(c % 9 / 3), (int)(c % 3), EV ? 10 + i : 0});
          auto desc = [&] {
            std::string d = "form " + std::to_string(form) + " vertices " + std::to_string(nv) + " edges";
            for (auto& r : recs)
              d += " " + std::to_string(r.u) + ">" + std::to_string(r.v);
            return d;
          };
          S.run_case(mc::Hash().add(len).add(code).add(nv).add(form).h, desc, [&] {
            const bool       sorted = std::is_sorted(recs.begin(), recs.end(), [](auto& a, auto& b) { return a.u < b.u; });
            std::vector<int> vals;
            for (int i = 0; i < nv; ++i)
              vals.push_back(VV ? 100 + i : i);
            std::vector<CE> es;
            for (auto& r : recs)
              es.push_back(ce(r));
            std::vector<CV> vs;
            for (int x : vals)
              vs.push_back(cv(x));
            const std::list<CE>         le(es.begin(), es.end());
            const std::forward_list<CV> fv(vs.begin(), vs.end());
            OnePassR<int>               ov{{}, &vals};
            Model                       m;
            for (int x : vals)
              m.add_v(VV ? x : 0);
            for (auto& r : recs)
              while (m.n() <= std::max(r.u, r.v))
                m.add_v(0);
            for (auto& r : recs)
              m.add_e(r.u, r.v, form == 8 ? 0 : r.w);
            if (GV) m.gv = form < 7 ? 9 : 0;
            auto id   = std::identity{};
            auto byv  = recs | std::views::transform(ce); // elements by value
            auto make = [&]() -> G {
              using T3 = std::tuple<VId, VId, typename std::conditional_t<EV, typename A::EV, int>>;
              using T2 = std::tuple<VId, VId>;
              if constexpr (GV) {
                const typename A::GV gv(9);
                switch (form) {
                case 0: return G(es, vs, id, id, gv);
                case 1: return G(le, fv, id, id, gv);
                case 2: return G(recs, vals, ce, cv, gv);
                case 3: return G(recs, ov, ce, cv, gv);
                case 4: return G(byv, vals | std::views::transform(cv), id, id, gv);
                case 5: return G(byv, vs, id, id, gv);
                case 6: return G(le, id, gv);
                }
              } else {
                switch (form) {
                case 0: return G(es, vs);
                case 1: return G(le, fv, id, id);
                case 2: return G(recs, vals, ce, cv);
                case 3: return G(recs, ov, ce, cv);
                case 4: return G(byv, vals | std::views::transform(cv));
                case 5: return G(byv, vs, id);
                case 6: return G(le);
                }
              }
              auto t3 = [&](int i) {
                if constexpr (EV)
                  return T3{(VId)recs[i].u, (VId)recs[i].v, typename A::EV(recs[i].w)};
                else
                  return 0;
              };
              auto t2 = [&](int i) { return T2{(VId)recs[i].u, (VId)recs[i].v}; };
              if constexpr (EV)
                if (form == 7) switch (len) {
                  case 0: return G(std::initializer_list<T3>{});
                  case 1: return G({t3(0)});
                  case 2: return G({t3(0), t3(1)});
                  case 3: return G({t3(0), t3(1), t3(2)});
                  }
              switch (len) {
              case 0: return G(std::initializer_list<T2>{});
              case 1: return G({t2(0)});
              case 2: return G({t2(0), t2(1)});
              default: return G({t2(0), t2(1), t2(2)});
              }
            };
            if (form < 7 && !sorted) { // refused, and nothing is left behind
              bool thrown = false;
              try {
                G g = make();
              } catch (const std::invalid_argument&) {
                thrown = true;
              }
              MC_CHECK(thrown, "edges out of order were accepted");
              mc::count("refused");
              return;
            }
            G g = make();
            check(g, m, "constructed");
            for (size_t i = 0; i < recs.size(); ++i)
              if constexpr (EV) MC_CHECK(val_of(es[i].value) == recs[i].w, "the source range lost a value");
            mc::state(mc::Hash().add(m.key()).h);
            mc::outcome(mc::Hash().add(m.key()).h);
            mc::trace();
            if (len) S.nontrivial();
          });
        }
  }
}
// as many vertices as the id type can tell apart
template <class G>
void full_id_range(Suite& S) {
  using VId = typename uargs<G>::VId;
  for (int shape = 0; shape < 4; ++shape)
    for (int extra = 0; extra < 3; ++extra)
      S.run_case(
            (uint64_t)(shape * 10 + extra), [&] { return "shape " + std::to_string(shape) + " form " + std::to_string(extra); },
            [&] {
              const int N = 1 << (8 * sizeof(VId) - std::is_signed_v<VId>);
              Model     m;
              G         g = fresh<G>(m);
              for (int i = 0; i < N; ++i)
                apply(m, &g, {AddV, 0, 0, i % 3});
              std::vector<std::pair<int, int>> es;
              if (shape == 0)
                es = {{N - 1, 0}, {0, N - 1}, {N - 1, N - 1}, {N - 2, N - 1}};
              else if (shape == 1)
                for (int i = 0; i < N; ++i)
                  es.push_back({i, (i + 1) % N});
              else if (shape == 2)
                for (int i = 0; i < N; ++i)
                  es.push_back({N - 1, i});
              else
                for (int i = N - 1; i >= 0; --i)
                  es.push_back({i, i / 2});
              for (auto [u, v] : es)
                apply(m, &g, {AddE, u, v, (u + v) % 6});
              check(g, m, "built", false);
              if (extra == 1) {
                G h(g);
                check(h, m, "copy", false);
              } else if (extra == 2) {
                apply(m, &g, {ClearV, N - 1});
                check(g, m, "cleared", false);
                apply(m, &g, {Resize, N / 2});
                check(g, m, "shrunk", false);
              }
              mc::outcome(mc::Hash().add(m.key()).h);
              mc::trace();
              S.nontrivial();
            });
}
#if PART == 1
MC_SUITE(histories_values) { histories<undirected_adjacency_list<Tok, Tok, Tok>>(S, 3, mc::tier(2, 4), 9); }
#elif PART == 2
MC_SUITE(histories_void) { histories<undirected_adjacency_list<>>(S, 3, mc::tier(3, 4), 9); }
MC_SUITE(histories_deque) { histories<undirected_adjacency_list<int, void, int, uint8_t, std::deque>>(S, 2, mc::tier(3, 4), 9); }
#elif PART == 3
MC_SUITE(histories_deep) { histories<undirected_adjacency_list<int, int, int, uint64_t>>(S, 2, mc::tier(3, 5), 12); }
MC_SUITE(histories_one_vertex) { histories<undirected_adjacency_list<Tok, void, void, int>>(S, 1, mc::tier(5, 6), 12); }
MC_SUITE(histories_four_vertices) { histories<undirected_adjacency_list<int, int, void, uint16_t>>(S, 4, mc::tier(2, 3), 9); }
#elif PART == 4
MC_SUITE(construct_values) { construction<undirected_adjacency_list<Tok, Tok, Tok>>(S, mc::tier(2, 3)); }
MC_SUITE(construct_no_graph_value) { construction<undirected_adjacency_list<int, int, void>>(S, 2); }
MC_SUITE(construct_void) { construction<undirected_adjacency_list<>>(S, mc::tier(2, 3)); }
MC_SUITE(construct_deque) { construction<undirected_adjacency_list<Tok, void, int, int8_t, std::deque>>(S, mc::tier(2, 3)); }
MC_SUITE(full_u8) { full_id_range<undirected_adjacency_list<int, int, int, uint8_t>>(S); }
MC_SUITE(full_i8) { full_id_range<undirected_adjacency_list<int, void, void, int8_t, std::deque>>(S); }
#endif
#endif

#if WHAT == 27
// Two graphs, every sequence of value operations on them.
enum VK { CopyCtor, MoveCtor, CopyAsg, MoveAsg, SwapM, SwapF, SelfAsg, SelfMove, Clear, AddEdge, EraseFirst, EraseLast, SetVal, AddVert, NK };
struct VOp {
  VK          k;
  int         r; // the register written (0: a, 1: b); the other one is read
  std::string str() const {
    static const char* nm[] = {"copy-construct", "move-construct", "copy-assign", "move-assign", "swap member", "swap", "self-assign", "self-move-assign",
                               "clear", "create_edge", "erase first edge", "erase last edge", "set value", "create_vertex"};
    return std::string(nm[k]) + (r ? " b" : " a");
  }
};
template <class G>
struct Two {
  std::optional<G> g[2];
  Model            m[2];
};
template <class G>
void moved_from(Model& m) {
  m.clear();
  m.gv = -1; // unspecified
}
template <class G>
bool enabled(const Two<G>& w, VOp o) {
  const Model& m = w.m[o.r];
  switch (o.k) {
  case AddEdge: return m.n() > 0;
  case EraseFirst:
  case EraseLast:
  case SetVal: return !m.e.empty();
  default: return true;
  }
}
template <class G>
void step(Two<G>& w, VOp o) {
  using VId       = typename uargs<G>::VId;
  constexpr bool EV = !Void<typename uargs<G>::EV>;
  G &            x = *w.g[o.r], &y = *w.g[1 - o.r];
  Model &        m = w.m[o.r], &k = w.m[1 - o.r];
  switch (o.k) {
  case CopyCtor:
    w.g[o.r].reset();
    w.g[o.r].emplace(std::as_const(y));
    m = k;
    break;
  case MoveCtor:
    w.g[o.r].reset();
    w.g[o.r].emplace(std::move(y));
    m = k;
    moved_from<G>(k);
    break;
  case CopyAsg: {
    G& r = (x = std::as_const(y));
    MC_CHECK(&r == &x, "assignment does not return the graph assigned to");
    m = k;
    break;
  }
  case MoveAsg: {
    G& r = (x = std::move(y));
    MC_CHECK(&r == &x, "assignment does not return the graph assigned to");
    m = k;
    moved_from<G>(k);
    break;
  }
  case SwapM:
    x.swap(y);
    std::swap(m, k);
    break;
  case SwapF: {
    using std::swap;
    swap(x, y);
    std::swap(m, k);
    break;
  }
  case SelfAsg: {
    const G& self = x;
    x             = self;
    break;
  }
  case SelfMove: {
    G& self = x;
    x       = std::move(self);
    if constexpr (!Void<typename uargs<G>::GV>)
      if (val_of(std::as_const(x).graph_value()) != m.gv) m.gv = -1; // the value's own self-move
    break;
  }
  case Clear:
    x.clear();
    m.clear();
    break;
  case AddEdge:
    apply(m, &x, {AddE, m.n() - 1, 0, EV ? 1 : 0});
    break;
  case EraseFirst: {
    int u = 0;
    while (m.adj[(size_t)u].empty())
      ++u;
    apply(m, &x, {EraseV, u, 0, 0});
    break;
  }
  case EraseLast: {
    int u = m.n() - 1;
    while (m.adj[(size_t)u].empty())
      --u;
    apply(m, &x, {EraseV, u, (int)m.adj[(size_t)u].size() - 1, 1});
    break;
  }
  case SetVal: {
    int u = 0;
    while (m.adj[(size_t)u].empty())
      ++u;
    apply(m, &x, {SetE, u, 0});
    apply(m, &x, {SetV, u});
    if constexpr (!Void<typename uargs<G>::GV>) {
      x.graph_value() = typename uargs<G>::GV(8);
      m.gv            = 8;
    }
    break;
  }
  case AddVert:
    apply(m, &x, {AddV, 0, 0, 1});
    break;
  case NK: break;
  }
  (void)sizeof(VId);
}
template <class G>
void check_two(Two<G>& w) {
  for (int r = 0; r < 2; ++r) {
    if constexpr (!Void<typename uargs<G>::GV>)
      if (w.m[r].gv == -1) { // after a move the value is whatever the value type leaves; any value can be given again
        w.g[r]->graph_value() = typename uargs<G>::GV(4);
        w.m[r].gv             = 4;
      }
    check_const(std::as_const(*w.g[r]), w.m[r], r ? "b" : "a");
  }
}
template <class G>
void values(Suite& S, int maxv, int maxe, int len) {
  auto              all = states<G>(maxv, maxe, 9);
  std::vector<Ops>  bs{{}, {{AddV, 0, 0, 2}, {AddV, 0, 0, 1}, {AddE, 1, 0, 1}, {AddE, 1, 1, 2}}};
  std::vector<VOp>  ops;
  for (int k = 0; k < NK; ++k)
    for (int r = 0; r < 2; ++r)
      ops.push_back({(VK)k, r});
  uint64_t total = 1;
  for (int i = 0; i < len; ++i)
    total *= ops.size();
  for (auto& s : all) {
    const uint64_t h = mc::Hash().add(s.m.key()).h;
    for (size_t bi = 0; bi < bs.size(); ++bi)
      for (uint64_t code = 0; code < total; ++code) {
        if (S.stop()) return;
        std::vector<VOp> seq;
        uint64_t         c = code;
        for (int i = 0; i < len; ++i, c /= ops.size())
          seq.push_back(ops[c % ops.size()]);
        S.run_case(
              mc::Hash().add(h).add(bi).add(code).h,
              [&] {
                std::string d = "a=" + s.m.str() + " (" + show(s.path) + ") b=" + show(bs[bi]) + ":";
                for (auto& o : seq)
                  d += " " + o.str() + ";";
                return d;
              },
              [&] {
                Two<G> w;
                for (int r = 0; r < 2; ++r) {
                  w.g[r].emplace(fresh<G>(w.m[r]));
                  replay(*w.g[r], r ? bs[bi] : s.path, w.m[r]);
                }
                if constexpr (!Void<typename uargs<G>::GV>) {
                  w.g[1]->graph_value() = typename uargs<G>::GV(6);
                  w.m[1].gv             = 6;
                }
                int done = 0;
                for (auto& o : seq) {
                  if (!enabled(w, o)) return; // a shorter sequence, checked as the prefix of another case
                  step(w, o);
                  check_two(w);
                  mc::transition();
                  ++done;
                }
                for (int r = 0; r < 2; ++r)
                  check(*w.g[r], w.m[r], r ? "b at the end" : "a at the end", true);
                mc::state(mc::Hash().add(S.name_hash).add(w.m[0].key()).add(w.m[1].key()).h);
                mc::outcome(mc::Hash().add(w.m[0].key()).add(w.m[1].key()).h);
                mc::trace();
                if (!s.m.e.empty()) S.nontrivial();
              });
      }
  }
}
#if PART == 1
MC_SUITE(values_owned) { values<undirected_adjacency_list<Tok, Tok, Tok>>(S, mc::tier(2, 3), 2, 2); }
#elif PART == 2
MC_SUITE(values_void) { values<undirected_adjacency_list<>>(S, 3, 3, mc::tier(1, 2)); }
MC_SUITE(values_deque) { values<undirected_adjacency_list<int, void, int, uint8_t, std::deque>>(S, 2, 3, 2); }
#elif PART == 3
MC_SUITE(values_more_edges) { values<undirected_adjacency_list<int, int, int, int>>(S, 3, mc::tier(2, 4), 1); }
MC_SUITE(values_long) { values<undirected_adjacency_list<Tok, void, void, uint16_t>>(S, 2, 1, mc::tier(2, 4)); }
#endif
#endif
} // namespace

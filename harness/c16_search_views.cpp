// C16/C17/C18/C19: search views.  A view is a lazily driven state machine: every enumerated graph, seed, direction,
// overload and cancel script is stepped through the real view in lockstep with an explicit reference machine
// (queue/stack/visited set), comparing element, edge identity, value, depth and count after every step.
#include "algo_common.hpp"
#include <graph/views.hpp>
using namespace ac;
using namespace cont;
namespace gv = graph::views;
namespace ad = graph::views::adaptors;
using gv::cancel_search;

struct Out {
  using acc                 = gv::out_edge_accessor;
  static constexpr bool rev = false;
  static constexpr auto tag = "out";
  static auto           edges(auto& g, auto u) { return graph::edges(g, u); }
  static int            nb(auto& g, auto&& e) { return (int)graph::target_id(g, e); }
  static int            src(auto& g, auto&& e) { return (int)graph::source_id(g, e); }
};
struct In {
  using acc                 = gv::in_edge_accessor;
  static constexpr bool rev = true;
  static constexpr auto tag = "in";
  static auto           edges(auto& g, auto u) { return graph::in_edges(g, u); }
  static int            nb(auto& g, auto&& e) { return (int)graph::source_id(g, e); }
  static int            src(auto& g, auto&& e) { return (int)graph::target_id(g, e); }
};
using Adj = std::vector<std::vector<std::pair<int, long>>>;
template <class D, class G>
Adj read_dir(G& g) {
  Adj a(graph::num_vertices(g));
  for (auto u : graph::vertices(g))
    for (auto&& e : D::edges(g, u))
      a[(size_t)graph::vertex_id(g, u)].push_back({D::nb(g, e), ew(g, e)});
  return a;
}
struct Step { // one produced element
  int    u = -1, v = -1; // edge u->v in walking direction (u = -1 for a vertex element)
  long   w     = 0;
  long   val   = 0;
  size_t depth = 0, count = 0;
  bool   operator==(const Step&) const = default;
};
std::ostream& operator<<(std::ostream& o, const Step& s) {
  return o << "(" << s.u << ">" << s.v << " w" << s.w << " val" << s.val << " d" << s.depth << " n" << s.count << ")";
}
enum Kind { VB, EB, VD, ED };
using Script = std::vector<int>; // 0 continue, 1 cancel branch, 2 cancel all; past the end: continue

// ---- the reference machines
struct Model {
  const Adj&                       a;
  Kind                             kind;
  std::vector<char>                seen;
  std::vector<std::pair<int, int>> q;   // BFS: (vertex, depth)
  size_t                           head = 0;
  std::vector<size_t>              pos; // BFS edges: position inside the front vertex / DFS: per stack entry
  std::vector<int>                 st;  // DFS stack
  size_t                           maxd = 0, cnt = 0;
  std::set<int>                    pruned;
  int                              last = -1;
  Model(const Adj& a, Kind k, int seed) : a(a), kind(k), seen(a.size(), 0) {
    seen[seed] = 1;
    last       = seed;
    if (k == VB || k == EB) {
      q.push_back({seed, 0});
      pos.push_back(0);
    } else {
      st.push_back(seed);
      pos.push_back(0);
    }
  }
  void snap() {
    mc::transition();
    mc::Hash h;
    h.add(kind).range(seen).add(head);
    for (auto& [v, d] : q)
      h.add(v);
    h.range(st).range(pos);
    mc::state(h.h);
  }
  Step vertex(int v) { return Step{-1, v, 0, 0, depth(), cnt}; }
  size_t depth() const { return kind == VB || kind == EB ? maxd : st.size(); }
  // first == true: the element available at begin()
  std::optional<Step> next(bool first) {
    snap();
    auto row = [&](int v) -> const std::vector<std::pair<int, long>>& {
      static const std::vector<std::pair<int, long>> none;
      return pruned.count(v) ? none : a[v];
    };
    auto push = [&](int v, int d) {
      seen[v] = 1;
      ++cnt;
      q.push_back({v, d});
      maxd = std::max(maxd, (size_t)d);
    };
    switch (kind) {
    case VB:
      if (!first) {
        auto [u, d] = q[head++];
        for (auto& [v, w] : row(u))
          if (!seen[v])
            push(v, d + 1);
      }
      if (head == q.size())
        return {};
      last = q[head].first;
      return vertex(last);
    case EB:
      for (; head < q.size(); ++head, pos[0] = 0) {
        auto [u, d] = q[head];
        while (pos[0] < row(u).size()) {
          auto [v, w] = row(u)[pos[0]++];
          if (!seen[v]) {
            push(v, d + 1);
            last = v;
            return Step{u, v, w, 0, depth(), cnt};
          }
        }
      }
      return {};
    default:
      if (kind == VD && first)
        return vertex(last);
      while (!st.empty()) {
        int  u  = st.back();
        bool go = false;
        while (pos.back() < row(u).size()) {
          auto [v, w] = row(u)[pos.back()++];
          if (!seen[v]) {
            seen[v] = 1;
            ++cnt;
            st.push_back(v);
            pos.push_back(0);
            last = v;
            if (kind == VD)
              return vertex(v);
            return Step{u, v, w, 0, depth(), cnt};
          }
        }
        if (!go) {
          st.pop_back();
          pos.pop_back();
        }
      }
      return {};
    }
  }
};
// step the real view in lockstep with the model
template <class D, class G, class V>
size_t lockstep(G& g, V& view, Kind kind, const Adj& a, int seed, int valmode, const Script& sc, bool post) {
  Model  m(a, kind, seed);
  auto   it = view.begin();
  size_t i  = 0;
  auto   e  = m.next(true);
  mc::Hash oh;
  for (;; ++i) {
    MC_CHECK((it == view.end()) == !e, "after " << i << " elements the view is " << (e ? "exhausted" : "not exhausted") << ", reference expects "
                                                << (e ? "another element" : "the end"));
    MC_CHECK((view.end() == it) == !e && it.at_end() == !e, "end comparisons disagree");
    if (kind == VB || kind == EB || e)
      MC_CHECK(view.depth() == m.depth() && view.num_visited() == m.cnt,
               "after " << i << " elements depth/visited " << view.depth() << "/" << view.num_visited() << " expected " << m.depth() << "/" << m.cnt);
    if (!e)
      break;
    Step want = *e;
    auto x    = *it;
    Step got;
    got.depth = want.depth;
    got.count = want.count;
    if constexpr (requires { x.vertex; }) {
      got.v = (int)graph::vertex_id(g, x.vertex);
      if constexpr (requires { x.value; }) {
        got.val  = (long)x.value;
        want.val = 1000 + want.v;
      }
    } else {
      got.u = D::src(g, x.edge);
      got.v = D::nb(g, x.edge);
      got.w = ew(g, x.edge);
      if constexpr (requires { x.value; }) {
        got.val  = (long)x.value;
        want.val = 1000 * (want.u + 1) + 50 * want.v + want.w;
      }
    }
    oh.add(got.v + 1).add(got.u + 1).add(i);
    MC_CHECK(got == want, "element " << i << " is " << got << " expected " << want);
    int c = i < sc.size() ? sc[i] : 0;
    if (c == 1) {
      view.cancel(cancel_search::cancel_branch);
      m.pruned.insert(m.last);
    } else if (c == 2) {
      view.cancel(cancel_search::cancel_all);
      ++it;
      MC_CHECK(it == view.end() && it.at_end(), "iteration goes on after cancelling everything");
      ++i;
      break;
    }
    MC_CHECK(i <= a.size(), "more elements than vertices");
    if (post)
      it++;
    else
      ++it;
    e = m.next(false);
  }
  (void)valmode;
  mc::outcome(oh.h);
  mc::trace();
  return i;
}
// a stateless value function and an allocator that is not std::allocator
struct VVF {
  long operator()(const auto& g, const auto& v) const { return 1000 + (long)graph::vertex_id(g, v); }
};
template <class D>
struct EVF {
  long operator()(const auto& g, const auto& e) const { return 1000 * (D::src(g, e) + 1) + 50 * D::nb(g, e) + ew(g, e); }
};
template <class T>
struct Al {
  using value_type = T;
  int id           = 7;
  Al() = default;
  explicit Al(int i) : id(i) {}
  template <class U>
  Al(const Al<U>& o) : id(o.id) {}
  T*   allocate(size_t n) { return std::allocator<T>{}.allocate(n); }
  void deallocate(T* p, size_t n) { std::allocator<T>{}.deallocate(p, n); }
  template <class U>
  bool operator==(const Al<U>& o) const { return id == o.id; }
};
// value function with state (owned by the view)
struct SVVF {
  std::vector<long> off{1000, 5};
  long              operator()(const auto& g, const auto& v) const { return off[0] + (long)graph::vertex_id(g, v); }
};

#define EACH(KIND, EXPR)                                                                                               \
  {                                                                                                                    \
    auto view = EXPR;                                                                                                  \
    lockstep<D>(g, view, KIND, a, s, 0, sc, post);                                                                     \
    post = !post;                                                                                                      \
  }
#define FAMILY(KIND, NAME, F)                                                                                          \
  EACH(KIND, gv::NAME(g, id))                                                                                          \
  if (all) {                                                                                                           \
    EACH(KIND, gv::NAME(g, vd))                                                                                        \
    EACH(KIND, gv::NAME(g, id, F))                                                                                     \
    EACH(KIND, gv::NAME(g, vd, F))                                                                                     \
    EACH(KIND, gv::NAME(g, id, Al<bool>(3)))                                                                           \
    EACH(KIND, gv::NAME(g, vd, Al<bool>(3)))                                                                           \
    EACH(KIND, gv::NAME(g, id, F, Al<bool>(3)))                                                                        \
    EACH(KIND, gv::NAME(g, vd, F, Al<bool>(3)))                                                                        \
    EACH(KIND, g | ad::NAME(id))                                                                                       \
    EACH(KIND, g | ad::NAME(vd))                                                                                       \
    EACH(KIND, g | ad::NAME(id, F))                                                                                    \
    EACH(KIND, g | ad::NAME(vd, F, Al<bool>(3)))                                                                       \
    EACH(KIND, ad::NAME(g, id))                                                                                        \
    EACH(KIND, ad::NAME(g, vd, F))                                                                                     \
    EACH(KIND, ad::NAME(g, id, F, Al<bool>(3)))                                                                        \
    EACH(KIND, (gv::NAME##_view<G>(g, id)))                                                                            \
    auto moved = gv::NAME(g, id, F);                                                                                   \
    auto view2 = std::move(moved);                                                                                     \
    lockstep<D>(g, view2, KIND, a, s, 0, sc, false);                                                                   \
  }                                                                                                                    \
  else                                                                                                                 \
    EACH(KIND, gv::NAME(g, vd, F))
#define FAMILY_ACC(KIND, NAME, F)                                                                                      \
  EACH(KIND, gv::NAME<typename D::acc>(g, id))                                                                         \
  EACH(KIND, gv::NAME<typename D::acc>(g, vd, F))                                                                      \
  if (all) {                                                                                                           \
    EACH(KIND, gv::NAME<typename D::acc>(g, vd))                                                                       \
    EACH(KIND, gv::NAME<typename D::acc>(g, id, F))                                                                    \
  }
template <class D, class G, bool Vals = true>
void views_all(G& g, const Adj& a, int s, Kind only, const Script& sc, bool all) {
  using VId = graph::vertex_id_t<G>;
  VId  id   = (VId)s;
  auto vd   = *graph::find_vertex(g, id);
  bool post = false;
  if constexpr (!D::rev) {
    switch (only) {
#if WHAT == 16 || WHAT == 19
    case VB: { FAMILY(VB, vertices_bfs, SVVF{}) } break;
    case EB: { FAMILY(EB, edges_bfs, EVF<D>{}) } break;
#endif
#if WHAT == 17 || WHAT == 19
    case VD: { FAMILY(VD, vertices_dfs, SVVF{}) } break;
    case ED: { FAMILY(ED, edges_dfs, EVF<D>{}) } break;
#endif
    default: break;
    }
  }
  if (D::rev || all) {
    switch (only) {
#if WHAT == 16 || WHAT == 19
    case VB: { FAMILY_ACC(VB, vertices_bfs, SVVF{}) } break;
    case EB: { FAMILY_ACC(EB, edges_bfs, EVF<D>{}) } break;
#endif
#if WHAT == 17 || WHAT == 19
    case VD: { FAMILY_ACC(VD, vertices_dfs, SVVF{}) } break;
    case ED: { FAMILY_ACC(ED, edges_dfs, EVF<D>{}) } break;
#endif
    default: break;
    }
  }
}
inline std::string scs(const Script& s) {
  std::string r;
  for (int x : s)
    r += "cba"[x];
  return r;
}
template <class G, class D>
void one(mc::Suite& S, const EL& el0, const char* cn, bool all, std::vector<int> seeds = {}) {
  EL el = el0;
  for (size_t i = 0; i < el.e.size(); ++i)
    el.e[i].w = (int)i + 1;
  S.run_case(
        mc::Hash().add(el.key()).add(std::string(cn)).add(std::string(D::tag)).range(seeds).h,
        [&] { return std::string(cn) + "/" + D::tag + " " + el.str(); },
        [&] {
          auto  g0 = make<G>(el);
          G&    g  = g0;
          auto  a  = read_dir<D>(g);
          auto  ss = seeds;
          if (ss.empty())
            for (size_t i = 0; i < a.size(); ++i)
              ss.push_back((int)i);
          if (el.m())
            S.nontrivial();
          uint64_t h = 0;
          for (int s : ss) {
            if ((size_t)s >= a.size())
              continue;
#if WHAT == 16
            views_all<D>(g, a, s, VB, {}, all);
            views_all<D>(g, a, s, EB, {}, all);
#elif WHAT == 17
            views_all<D>(g, a, s, VD, {}, all);
            views_all<D>(g, a, s, ED, {}, all);
#elif WHAT == 19
            // every script of cancel decisions: a depth-first walk over the decisions at each produced element
            for (Kind k : {VB, EB, VD, ED}) {
              std::vector<Script> todo{{}};
              while (!todo.empty()) {
                Script sc = todo.back();
                todo.pop_back();
                Model m(a, k, s); // number of elements this script yields
                auto  e = m.next(true);
                size_t i = 0;
                bool   stop = false;
                while (e && !stop) {
                  int c = i < sc.size() ? sc[i] : -1;
                  if (c < 0) { // a new decision point
                    for (int d = 0; d < 3; ++d) {
                      Script n = sc;
                      n.push_back(d);
                      todo.push_back(n);
                    }
                    stop = true;
                    break;
                  }
                  if (c == 1)
                    m.pruned.insert(m.last);
                  if (c == 2)
                    break;
                  ++i;
                  e = m.next(false);
                }
                if (stop)
                  continue;
                h = mc::Hash().add(h).range(sc).h;
                try {
                  views_all<D>(g, a, s, k, sc, all);
                } catch (mc::Fail& f) {
                  static const char* kn[] = {"vertices_bfs", "edges_bfs", "vertices_dfs", "edges_dfs"};
                  throw mc::Fail{std::string(kn[k]) + " seed " + std::to_string(s) + " script " + scs(sc) + ": " + f.msg};
                }
                mc::count("cancel scripts");
              }
            }
#endif
          }
          mc::outcome(h);
        });
}
#if WHAT == 18 || WHAT == 19
// ---------------------------------------------------------------- topological views
template <class D, class G>
std::vector<Step> topo_elems(G& g, auto&& view) {
  std::vector<Step> r;
  for (auto&& x : view) {
    Step s;
    if constexpr (requires { x.vertex; }) {
      s.v = (int)graph::vertex_id(g, x.vertex);
      if constexpr (requires { x.value; })
        MC_CHECK(x.value == 1000 + s.v, "vertex value");
    } else {
      s.u = D::src(g, x.edge);
      s.v = D::nb(g, x.edge);
      s.w = ew(g, x.edge);
      if constexpr (requires { x.value; })
        MC_CHECK(x.value == 1000 * (s.u + 1) + 50 * s.v + s.w, "edge value");
    }
    r.push_back(s);
  }
  return r;
}
template <class D, class G>
void topo_view(G& g, auto view, const std::vector<Step>& want, const Adj& a) {
  constexpr bool vertex = requires { (*view.begin()).vertex; };
  MC_CHECK(view.num_visited() == 0, "visited before iterating");
  if constexpr (vertex)
    MC_CHECK(view.size() == a.size(), "size " << view.size());
  auto   key = [&](auto&& x) {
    if constexpr (vertex)
      return Step{-1, (int)graph::vertex_id(g, x.vertex)};
    else
      return Step{D::src(g, x.edge), D::nb(g, x.edge), ew(g, x.edge)};
  };
  size_t i = 0, prev = 0;
  auto   it = view.begin();
  for (; !(it == view.end()); ++it, ++i) {
    MC_CHECK(i < want.size(), "too many elements");
    MC_CHECK(key(*it) == want[i], "element " << i << " is " << key(*it) << " expected " << want[i]);
    if constexpr (vertex)
      MC_CHECK(view.num_visited() == i, "visited " << view.num_visited() << " at element " << i);
    MC_CHECK(view.num_visited() >= prev && view.num_visited() <= a.size(), "visited count " << view.num_visited());
    prev = view.num_visited();
    mc::transition();
  }
  MC_CHECK(i == want.size(), "only " << i << " elements of " << want.size());
  if constexpr (vertex)
    MC_CHECK(view.num_visited() == i, "visited " << view.num_visited() << " at the end");
  // later passes, and a multi-pass check with two independent iterators
  MC_CHECK(topo_elems<D>(g, view) == want, "second pass differs");
  for (size_t k = 0; k < want.size() && k < 6; ++k) {
    auto p = view.begin();
    for (size_t j = 0; j < k; ++j)
      ++p;
    auto q = p;
    MC_CHECK(p == q, "copied iterator differs");
    auto old = q++;
    MC_CHECK(old == p && key(*old) == want[k] && key(*p) == want[k], "advancing a copy moved the original");
    MC_CHECK(!(p == q), "iterators to different elements compare equal");
    if (k + 1 < want.size())
      MC_CHECK(key(*q) == want[k + 1], "copy does not walk on");
    else
      MC_CHECK(q == view.end(), "copy not at the end");
    ++p;
    MC_CHECK(p == q, "iterators that reach the same element differ");
  }
  mc::trace();
}
template <class D, class G>
void topo_cancel(G& g, auto mk, const std::vector<Step>& want) {
  for (auto c : {cancel_search::cancel_branch, cancel_search::cancel_all})
    for (size_t k = 0; k < want.size(); ++k) {
      auto   view = mk();
      size_t i    = 0;
      for (auto&& x : view) {
        (void)x;
        if (i++ == k)
          view.cancel(c);
      }
      MC_CHECK(i == k + 1, "cancelled at element " << k << " but " << i << " elements were produced");
      MC_CHECK(view.cancel() == c, "cancel state");
      mc::trace();
      mc::transition(k);
    }
  (void)g;
}
template <class D, class G>
void topo(G& g, const Adj& a, bool all) {
  auto reach = closure(a);
  std::vector<char> cyc(a.size(), 0);
  bool              acyclic = true;
  for (size_t u = 0; u < a.size(); ++u)
    for (auto& [v, w] : a[u])
      if (reach[v][u])
        cyc[u] = 1, acyclic = false;
  using A = typename D::acc;
#define SAFE_FAIL(EXPR)                                                                                                \
  {                                                                                                                    \
    auto r = EXPR;                                                                                                     \
    MC_CHECK(!r.has_value(), "a cycle was not reported: " #EXPR);                                                     \
    auto cv = (size_t)graph::vertex_id(g, r.error());                                                                  \
    MC_CHECK(cv < a.size() && cyc[cv], "reported vertex " << cv << " is on no cycle");                               \
    mc::outcome(cv);                                                                                                   \
  }
#define SAFE_OK(EXPR, W)                                                                                               \
  {                                                                                                                    \
    auto r = EXPR;                                                                                                     \
    MC_CHECK(r.has_value(), "acyclic graph rejected: " #EXPR);                                                        \
    topo_view<D>(g, *r, W, a);                                                                                         \
  }
  if (!acyclic) {
#if WHAT == 18
    SAFE_FAIL(gv::vertices_topological_sort_safe<A>(g))
    SAFE_FAIL(gv::edges_topological_sort_safe<A>(g, EVF<D>{}))
    if (all) {
      SAFE_FAIL(gv::edges_topological_sort_safe<A>(g))
      SAFE_FAIL(gv::vertices_topological_sort_safe<A>(g, VVF{}))
      if constexpr (!D::rev) {
        SAFE_FAIL(gv::vertices_topological_sort_safe(g))
        SAFE_FAIL(gv::edges_topological_sort_safe(g))
        SAFE_FAIL(gv::vertices_topological_sort_safe(g, VVF{}))
        SAFE_FAIL(gv::edges_topological_sort_safe(g, EVF<D>{}))
        SAFE_FAIL(gv::vertices_topological_sort_safe(g, Al<bool>(3)))
        SAFE_FAIL(gv::edges_topological_sort_safe(g, Al<bool>(3)))
        SAFE_FAIL(gv::vertices_topological_sort_safe(g, VVF{}, Al<bool>(3)))
        SAFE_FAIL(gv::edges_topological_sort_safe(g, EVF<D>{}, Al<bool>(3)))
      }
    }
#endif
    return;
  }
  auto vw = topo_elems<D>(g, gv::vertices_topological_sort<A>(g));
  MC_CHECK(vw.size() == a.size(), "vertex view yields " << vw.size() << " elements");
  std::vector<int> pos(a.size(), -1);
  for (size_t i = 0; i < vw.size(); ++i) {
    MC_CHECK(pos[vw[i].v] < 0, "vertex " << vw[i].v << " twice");
    pos[vw[i].v] = (int)i;
  }
  std::vector<Step> wanted;
  for (size_t i = 0; i < vw.size(); ++i)
    for (auto& [v, w] : a[vw[i].v]) {
      MC_CHECK(pos[v] > (int)i, "edge " << vw[i].v << ">" << v << " goes backward");
      wanted.push_back(Step{vw[i].v, v, w});
    }
  mc::state(mc::Hash().range(pos).h);
#if WHAT == 18
  auto T = [&](auto view, const auto& w) { topo_view<D>(g, std::move(view), w, a); };
  T(gv::vertices_topological_sort<A>(g), vw);
  T(gv::edges_topological_sort<A>(g), wanted);
  SAFE_OK(gv::vertices_topological_sort_safe<A>(g), vw)
  SAFE_OK(gv::edges_topological_sort_safe<A>(g), wanted)
  if (all) {
    T(gv::vertices_topological_sort<A>(g, VVF{}), vw);
    T(gv::edges_topological_sort<A>(g, EVF<D>{}), wanted);
    SAFE_OK(gv::vertices_topological_sort_safe<A>(g, SVVF{}), vw)
    SAFE_OK(gv::edges_topological_sort_safe<A>(g, EVF<D>{}), wanted)
    if constexpr (!D::rev) {
      T(gv::vertices_topological_sort(g), vw);
      T(gv::vertices_topological_sort(g, SVVF{}), vw);
      T(gv::vertices_topological_sort(g, Al<bool>(3)), vw);
      T(gv::vertices_topological_sort(g, SVVF{}, Al<bool>(3)), vw);
      T(gv::edges_topological_sort(g), wanted);
      T(gv::edges_topological_sort(g, EVF<D>{}), wanted);
      T(gv::edges_topological_sort(g, Al<bool>(3)), wanted);
      T(gv::edges_topological_sort(g, EVF<D>{}, Al<bool>(3)), wanted);
      T(g | ad::vertices_topological_sort(), vw);
      T(g | ad::vertices_topological_sort(SVVF{}), vw);
      T(g | ad::edges_topological_sort(), wanted);
      T(g | ad::edges_topological_sort(EVF<D>{}, Al<bool>(3)), wanted);
      T(ad::vertices_topological_sort(g), vw);
      T(ad::edges_topological_sort(g), wanted);
      T(g | ad::vertices_topological_sort(SVVF{}, Al<bool>(3)), vw);
      T(g | ad::edges_topological_sort(EVF<D>{}), wanted);
      T(ad::vertices_topological_sort(g, SVVF{}), vw);
      T(ad::vertices_topological_sort(g, SVVF{}, Al<bool>(3)), vw);
      T(ad::edges_topological_sort(g, EVF<D>{}), wanted);
      T(ad::edges_topological_sort(g, EVF<D>{}, Al<bool>(3)), wanted);
      SAFE_OK(gv::vertices_topological_sort_safe(g), vw)
      SAFE_OK(gv::vertices_topological_sort_safe(g, SVVF{}), vw)
      SAFE_OK(gv::vertices_topological_sort_safe(g, Al<bool>(3)), vw)
      SAFE_OK(gv::vertices_topological_sort_safe(g, SVVF{}, Al<bool>(3)), vw)
      SAFE_OK(gv::edges_topological_sort_safe(g), wanted)
      SAFE_OK(gv::edges_topological_sort_safe(g, EVF<D>{}), wanted)
      SAFE_OK(gv::edges_topological_sort_safe(g, Al<bool>(3)), wanted)
      SAFE_OK(gv::edges_topological_sort_safe(g, EVF<D>{}, Al<bool>(3)), wanted)
    }
  }
  mc::outcome(mc::Hash().range(pos).h);
#else
  (void)all;
  topo_cancel<D>(g, [&] { return gv::vertices_topological_sort<A>(g); }, vw);
  topo_cancel<D>(g, [&] { return gv::edges_topological_sort<A>(g); }, wanted);
  topo_cancel<D>(g, [&] { return gv::vertices_topological_sort<A>(g, VVF{}); }, vw);
  topo_cancel<D>(g, [&] { return gv::edges_topological_sort<A>(g, EVF<D>{}); }, wanted);
#endif
}
template <class G, class D>
void topo_one(mc::Suite& S, const EL& el0, const char* cn, bool all) {
  EL el = el0;
  for (size_t i = 0; i < el.e.size(); ++i)
    el.e[i].w = (int)i + 1;
  S.run_case(
        mc::Hash().add(el.key()).add(std::string(cn)).add(std::string(D::tag)).h, [&] { return std::string(cn) + "/" + D::tag + " " + el.str(); },
        [&] {
          auto g0 = make<G>(el);
          G&   g  = g0;
          if (el.m())
            S.nontrivial();
          topo<D>(g, read_dir<D>(g), all);
        });
}
#endif
#if WHAT == 18
#define RUN(G, D, el, name, all) topo_one<G, D>(S, el, name, all)
#else
#define RUN(G, D, el, name, all) one<G, D>(S, el, name, all)
#endif
#if PART == 1 // breadth of shapes on one container, both directions
using GB = vov_bi<int>;
MC_SUITE(digraphs) {
  for (int n = 1; n <= 3; ++n)
    gen::digraphs(n, true, [&](const EL& el) {
      RUN(GB, Out, el, "vov", WHAT != 19);
      RUN(GB, In, el, "vov", WHAT != 19);
    });
  gen::digraphs(4, WHAT == 18 || (WHAT != 19 && mc::thorough()), [&](const EL& el) {
    RUN(GB, Out, el, "vov", false);
    if (WHAT != 18 || mc::thorough())
      RUN(GB, In, el, "vov", false);
  });
#if WHAT == 18
  auto dag = [&](const EL& el, bool all) {
    RUN(GB, Out, el, "vov", all);
    RUN(GB, In, el, "vov", all);
  };
  gen::digraphs(4, false, [&](const EL& el) { dag(el, false); });
  std::vector<std::vector<int>> ps{{0, 1, 2, 3, 4}, {4, 3, 2, 1, 0}, {2, 0, 4, 1, 3}, {3, 4, 0, 2, 1}};
  gen::ugraphs(5, false, [&](const EL& el) {
    for (auto& p : ps)
      dag(gen::relabel(el, p), false);
  });
#endif
}
MC_SUITE(sequences) {
  for (int k = 1; k <= mc::tier(3, 4); ++k)
    gen::edge_sequences(3, k, [&](const EL& el) {
      RUN(GB, Out, el, "vov", false);
      RUN(GB, In, el, "vov", false);
    });
  if (WHAT != 19)
    gen::edge_sequences(4, 4, [&](const EL& el) { RUN(GB, Out, el, "vov", false); }, false);
  if (mc::thorough())
    gen::edge_sequences(4, 5, [&](const EL& el) { RUN(GB, Out, el, "vov", false); }, false);
}
#if WHAT == 19
MC_SUITE(topological) {
  for (int n = 1; n <= 4; ++n)
    gen::ugraphs(n, false, [&](const EL& el) {
      topo_one<GB, Out>(S, el, "vov", true);
      topo_one<GB, In>(S, gen::reversed(el), "vov", true);
    });
  gen::ugraphs(5, false, [&](const EL& el) { topo_one<GB, Out>(S, el, "vov", true); });
}
MC_SUITE(wide) { // deeper trees, where several pruned vertices wait in the queue at the same time
  auto f = [&](const EL& el) {
    one<GB, Out>(S, el, "vov", false, {0});
    one<GB, In>(S, gen::reversed(el), "vov", false, {0});
  };
  gen::ugraphs(5, false, f); // edges go from the lower to the higher id
  if (mc::thorough())
    gen::digraphs(4, true, [&](const EL& el) { one<GB, Out>(S, el, "vov", false, {0}); });
  for (int b = 2; b <= 3; ++b) {
    EL t{b == 2 ? 7 : 6, {}};
    for (int i = 1; i < t.n; ++i)
      t.e.push_back({(i - 1) / b, i, 0});
    f(t);
  }
}
#endif
#elif PART == 2
MC_SUITE(families) {
#if WHAT == 19
  gen::families(mc::tier(6, 8), [&](const EL& el) { one<vov_bi<int>, Out>(S, el, "vov", false, {0}); });
#elif WHAT == 18
  gen::families(mc::tier(40, 200), [&](const EL& el) {
    RUN(vov_bi<int>, Out, el, "vov", false);
    RUN(vol_bi<int>, In, el, "vol", false);
  });
#else
  gen::families(mc::tier(60, 300), [&](const EL& el) {
    std::vector<int> s{0, el.n / 2, el.n - 1};
    one<vov_bi<int>, Out>(S, el, "vov", false, s);
    one<vov_bi<int>, Out>(S, gen::both(el), "vov/sym", false, s);
    one<vol_bi<int>, In>(S, el, "vol", false, s);
  });
#endif
}
#if WHAT != 19
MC_SUITE(id_limits) { // vertex ids that fill the whole range of the id type
  gen::id_limit_graphs([&](const EL& el, bool small) {
#if WHAT == 18
    topo_one<const csr_t<int, uint8_t>, Out>(S, el, "csr/u8", false);
    if (small)
      topo_one<csr_t<int, int8_t>, Out>(S, el, "csr/i8", false);
#else
    std::vector<int> s{0, 1, el.n - 1};
    one<csr_t<int, uint8_t>, Out>(S, el, "csr/u8", false, s);
    if (small)
      one<csr_t<int, int8_t>, Out>(S, el, "csr/i8", false, s);
#endif
  });
}
#endif
#else
MC_SUITE(containers) {
  auto f = [&](const EL& el) {
    bool all = el.n <= 2 || WHAT == 18 || el.m() <= 3;
#if WHAT == 19
    all = false;
#endif
#if PART == 3
    RUN(vol_bi<int>, Out, el, "vol", all);
    RUN(vol_bi<int>, In, el, "vol", all);
    RUN(vovl_bi<int>, In, el, "vovl", all);
    RUN(vofl_t<int>, Out, el, "vofl", all);
#elif PART == 4
    RUN(vos_t<int>, Out, el, "vos", all);
    RUN(dov_t<int>, Out, el, "dov", all);
    RUN(csr_t<int>, Out, el, "csr", all);
#else
    RUN(vvi_t, Out, el, "vvi", all);
    RUN(const vvp_t, Out, el, "const vvp", all);
    RUN(const vov_t<int>, Out, el, "const vov", all);
#if WHAT != 18
    RUN(ual_t<int>, Out, el, "ual", all);
#endif
#endif
  };
  for (int n = 1; n <= 3; ++n)
    gen::digraphs(n, true, f);
  for (int k = 1; k <= 2; ++k)
    gen::edge_sequences(3, k, f);
}
#endif

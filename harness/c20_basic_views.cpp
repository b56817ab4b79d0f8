// C20/C21: basic views (vertexlist, incidence, neighbors, edgelist, basic_ and in_/out_ forms, pipes), incoming-edge
// queries and the transposed view, enumerated over graphs x containers x overloads, every view walked in several ways.
#include "algo_common.hpp"
#include "mapcont.hpp"
#include <graph/views.hpp>
#include <graph/views/transpose.hpp>
using namespace ac;
using namespace cont;
namespace gv = graph::views;
namespace ad = graph::views::adaptors;

struct Rec { // one produced element, reduced to numbers; -9 = field absent
  long id = -9, a = -9, b = -9, val = -9; // vertex: id, descriptor id; edge: source, target, stored value / function value
  long w  = -9;
  bool operator==(const Rec&) const = default;
};
std::ostream& operator<<(std::ostream& o, const Rec& r) {
  return o << "(" << r.id << " " << r.a << ">" << r.b << " w" << r.w << " v" << r.val << ")";
}
using Recs = std::vector<Rec>;

// walk a view in every way a user may and check that all ways agree with `want`
template <class V, class F>
void drain(const char* what, V&& view, const Recs& want, F&& conv) {
  mc::trace();
  mc::transition(want.size() + 1);
  auto cmp = [&](const char* how, const Recs& got) {
    MC_CHECK(got == want, what << " (" << how << ") gave " << mc::str(got) << ", expected " << mc::str(want));
  };
  using VT = std::remove_cvref_t<V>;
  static_assert(std::ranges::input_range<VT&>);
  {
    Recs r;
    for (auto&& x : view)
      r.push_back(conv(x));
    cmp("range for", r);
  }
  if constexpr (requires { view.size(); })
    MC_CHECK((size_t)view.size() == want.size(), what << " reports size " << (size_t)view.size() << " but holds " << want.size());
  if constexpr (requires { std::ranges::size(view); })
    MC_CHECK((size_t)std::ranges::size(view) == want.size(), what << ": ranges::size " << (size_t)std::ranges::size(view) << " but holds " << want.size());
  if constexpr (requires { view.empty(); })
    MC_CHECK(view.empty() == want.empty(), what << " reports empty() " << view.empty() << " with " << want.size() << " elements");
  {
    Recs r, again;
    auto it = view.begin();
    auto en = view.end();
    size_t n = 0;
    while (it != en) {
      MC_CHECK(n < want.size(), what << " yields more than " << want.size() << " elements");
      if constexpr (std::ranges::forward_range<VT&>) {
        auto keep = it;
        MC_CHECK(keep == it && !(keep != it), what << ": an iterator differs from its copy");
        auto old = it++;
        MC_CHECK(old == keep, what << ": it++ does not return the old position");
        MC_CHECK(!(it == keep), what << ": advancing leaves the iterator equal to its old position");
        r.push_back(conv(*old));
        again.push_back(conv(*keep));
        auto nx = keep;
        ++nx;
        MC_CHECK(nx == it, what << ": ++ from a copy leads elsewhere");
      } else {
        r.push_back(conv(*it));
        it++;
      }
      ++n;
    }
    cmp("iterator", r);
    if constexpr (std::ranges::forward_range<VT&>)
      cmp("copied iterator", again);
  }
  if constexpr (std::copy_constructible<VT>) {
    auto cp = view;
    Recs r;
    for (auto&& x : cp)
      r.push_back(conv(x));
    cmp("copied view", r);
    auto mv = std::move(cp);
    r.clear();
    for (auto&& x : mv)
      r.push_back(conv(x));
    cmp("moved view", r);
    if constexpr (std::is_copy_assignable_v<VT>) {
      auto other = view;
      other      = view;
      r.clear();
      for (auto&& x : other)
        r.push_back(conv(x));
      cmp("assigned view", r);
    }
  }
  if constexpr (std::ranges::viewable_range<VT&>) {
    Recs r, tk;
    for (auto&& x : view | std::views::transform(conv))
      r.push_back(x);
    cmp("chained transform", r);
    auto cpy = view;
    for (auto&& x : std::move(cpy) | std::views::transform(conv) | std::views::take(2))
      tk.push_back(x);
    Recs want2(want.begin(), want.begin() + std::min<size_t>(2, want.size()));
    MC_CHECK(tk == want2, what << " chained with take(2) gave " << mc::str(tk) << ", expected " << mc::str(want2));
  }
  mc::Hash h;
  for (auto& x : want)
    h.add(x.id).add(x.a).add(x.b).add(x.w).add(x.val);
  mc::outcome(h.h);
}

// ---- what the graph stores, read through the plain queries
struct TE {
  long s, t, w;
};
template <class G>
struct Truth {
  std::vector<long>            ids;
  std::vector<std::vector<TE>> out, in;
};
template <class G>
long val_of(G& g, auto&& e) {
  return ew(g, e);
}
template <class G>
Truth<G> truth(G& g) {
  Truth<G> t;
  for (auto u : graph::vertices(g)) {
    t.ids.push_back((long)graph::vertex_id(g, u));
    std::vector<TE> o;
    for (auto&& e : graph::edges(g, u))
      o.push_back({(long)graph::vertex_id(g, u), (long)graph::target_id(g, e), (long)ew(g, e)});
    t.out.push_back(o);
  }
  return t;
}

// functions handed to the views
struct VF {
  long k = 7;
  template <class G, class V>
  long operator()(const G& g, const V& v) const {
    return (long)graph::vertex_id(g, v) * k + 1;
  }
};
struct EF {
  long k = 3;
  template <class G, class E>
  long operator()(const G& g, const E& e) const {
    return (long)graph::source_id(g, e) * 1000 + (long)graph::target_id(g, e) * k + (long)ew(g, e);
  }
};
inline long ef(long s, long t, long w, long k = 3) { return s * 1000 + t * k + w; }

template <class G>
auto vconv(G& g) {
  return [&g](auto&& x) {
    Rec r;
    if constexpr (requires { x.id; })
      r.id = (long)x.id;
    if constexpr (requires { x.vertex; })
      r.a = (long)graph::vertex_id(g, x.vertex);
    if constexpr (requires { x.value; })
      r.val = (long)x.value;
    return r;
  };
}
// full edge records: ids if present, and everything the descriptor leads to
template <class G>
auto econv(G& g) {
  return [&g](auto&& x) {
    Rec r;
    if constexpr (requires { x.source_id; })
      r.id = (long)x.source_id;
    if constexpr (requires { x.edge; }) {
      r.a = (long)graph::source_id(g, x.edge);
      r.w = (long)ew(g, x.edge);
      MC_CHECK((long)graph::vertex_id(g, graph::source(g, x.edge)) == r.a, "source(e) is not the vertex named by source_id");
      MC_CHECK((long)graph::vertex_id(g, graph::target(g, x.edge)) == (long)graph::target_id(g, x.edge), "target(e) is not the vertex named by target_id");
    }
    r.b = (long)x.target_id;
    if constexpr (requires { x.value; })
      r.val = (long)x.value;
    return r;
  };
}
template <class G>
auto nconv(G& g) {
  return [&g](auto&& x) {
    Rec r;
    r.b = (long)x.target_id;
    if constexpr (requires { x.target; })
      r.a = (long)graph::vertex_id(g, x.target);
    if constexpr (requires { x.value; })
      r.val = (long)x.value;
    return r;
  };
}
Recs vrecs(const std::vector<long>& ids, bool desc, bool val, size_t from = 0, size_t to = ~0ull, long k = 7) {
  Recs r;
  for (size_t i = from; i < std::min(to, ids.size()); ++i)
    r.push_back(Rec{ids[i], desc ? ids[i] : -9, -9, val ? ids[i] * k + 1 : -9});
  return r;
}
// src: the view carries a source id field; desc: it carries the descriptor; near: use the source as the id listed
Recs erecs(const std::vector<TE>& es, bool src, bool desc, bool val, bool near_source = false, long k = 3) {
  Recs r;
  for (auto& e : es)
    r.push_back(Rec{src ? e.s : -9, desc ? e.s : -9, near_source ? e.s : e.t, val ? ef(e.s, e.t, e.w, k) : -9, desc ? e.w : -9});
  return r;
}
Recs nrecs(const std::vector<TE>& es, bool desc, bool val, bool near_source = false, long k = 7) {
  Recs r;
  for (auto& e : es) {
    long x = near_source ? e.s : e.t;
    r.push_back(Rec{-9, desc ? x : -9, x, val ? x * k + 1 : -9});
  }
  return r;
}

template <class G>
void check_out(G& g, bool full) {
  constexpr bool INDEX = graph::adj_list::index_adjacency_list<std::remove_const_t<G>>;
  auto           T     = truth(g);
  const size_t   N     = T.ids.size();
  MC_CHECK((size_t)graph::num_vertices(g) == N, "num_vertices is " << (size_t)graph::num_vertices(g) << " but " << N << " are listed");
  auto VC = vconv(g);
  auto EC = econv(g);
  auto NC = nconv(g);
  VF   vf;
  EF   efn;
  // ---- vertex lists
  drain("vertexlist(g)", gv::vertexlist(g), vrecs(T.ids, true, false), VC);
  drain("vertexlist(g,f)", gv::vertexlist(g, vf), vrecs(T.ids, true, true), VC);
  drain("basic_vertexlist(g)", gv::basic_vertexlist(g), vrecs(T.ids, false, false), VC);
  drain("basic_vertexlist(g,f)", gv::basic_vertexlist(g, vf), vrecs(T.ids, false, true), VC);
  if (full) {
    drain("vertexlist(g,vertices(g))", gv::vertexlist(g, graph::vertices(g)), vrecs(T.ids, true, false), VC);
    drain("vertexlist(g,vertices(g),f)", gv::vertexlist(g, graph::vertices(g), vf), vrecs(T.ids, true, true), VC);
    drain("basic_vertexlist(g,vertices(g))", gv::basic_vertexlist(g, graph::vertices(g)), vrecs(T.ids, false, false), VC);
    drain("basic_vertexlist(g,vertices(g),f)", gv::basic_vertexlist(g, graph::vertices(g), vf), vrecs(T.ids, false, true), VC);
    { // structured bindings in the documented order
      size_t i = 0;
      for (auto&& [id, v] : gv::vertexlist(g)) {
        MC_CHECK((long)id == T.ids[i] && (long)graph::vertex_id(g, v) == T.ids[i], "[id, v] of vertexlist at " << i);
        ++i;
      }
      i = 0;
      for (auto&& [id, v, x] : gv::vertexlist(g, vf)) {
        MC_CHECK((long)id == T.ids[i] && (long)graph::vertex_id(g, v) == T.ids[i] && x == T.ids[i] * 7 + 1, "[id, v, value] of vertexlist at " << i);
        ++i;
      }
      for (auto&& [sid, tid, e] : gv::edgelist(g))
        MC_CHECK((long)sid == (long)graph::source_id(g, e) && (long)tid == (long)graph::target_id(g, e), "[source, target, edge] of edgelist");
      for (auto&& [sid, tid] : gv::basic_edgelist(g))
        (void)sid, (void)tid;
    }
    if constexpr (INDEX) {
      using VId = graph::vertex_id_t<G>;
      for (size_t a = 0; a < N; ++a)
        for (size_t b = a; b < N; ++b) { // [a, b): b names an existing vertex
          auto ua = *graph::find_vertex(g, (VId)T.ids[a]);
          auto ub = *graph::find_vertex(g, (VId)T.ids[b]);
          drain("vertexlist(g,u,v)", gv::vertexlist(g, ua, ub), vrecs(T.ids, true, false, a, b), VC);
          drain("vertexlist(g,u,v,f)", gv::vertexlist(g, ua, ub, vf), vrecs(T.ids, true, true, a, b), VC);
          drain("basic_vertexlist(g,uid,vid)", gv::basic_vertexlist(g, (VId)T.ids[a], (VId)T.ids[b]), vrecs(T.ids, false, false, a, b), VC);
          drain("basic_vertexlist(g,uid,vid,f)", gv::basic_vertexlist(g, (VId)T.ids[a], (VId)T.ids[b], vf), vrecs(T.ids, false, true, a, b), VC);
        }
    }
  }
  // ---- per vertex
  size_t i = 0;
  std::vector<TE> all;
  for (auto u : graph::vertices(g)) {
    auto& o = T.out[i];
    all.insert(all.end(), o.begin(), o.end());
    auto uid = graph::vertex_id(g, u);
    drain("incidence(g,u)", gv::incidence(g, u), erecs(o, false, true, false), EC);
    drain("incidence(g,u,f)", gv::incidence(g, u, efn), erecs(o, false, true, true), EC);
    if constexpr (INDEX)
      drain("incidence(g,uid)", gv::incidence(g, uid), erecs(o, false, true, false), EC);
    if constexpr (INDEX)
      drain("incidence(g,uid,f)", gv::incidence(g, uid, efn), erecs(o, false, true, true), EC);
    drain("basic_incidence(g,uid)", gv::basic_incidence(g, uid), erecs(o, false, false, false), EC);
    drain("basic_incidence(g,uid,f)", gv::basic_incidence(g, uid, efn), erecs(o, false, false, true), EC);
    drain("neighbors(g,u)", gv::neighbors(g, u), nrecs(o, true, false), NC);
    drain("neighbors(g,u,f)", gv::neighbors(g, u, vf), nrecs(o, true, true), NC);
    if constexpr (INDEX)
      drain("neighbors(g,uid)", gv::neighbors(g, uid), nrecs(o, true, false), NC);
    if constexpr (INDEX)
      drain("neighbors(g,uid,f)", gv::neighbors(g, uid, vf), nrecs(o, true, true), NC);
    drain("basic_neighbors(g,uid)", gv::basic_neighbors(g, uid), nrecs(o, false, false), NC);
    drain("basic_neighbors(g,uid,f)", gv::basic_neighbors(g, uid, vf), nrecs(o, false, true), NC);
    if (full) {
      drain("out_incidence(g,u)", gv::out_incidence(g, u), erecs(o, false, true, false), EC);
      drain("out_incidence(g,u,f)", gv::out_incidence(g, u, efn), erecs(o, false, true, true), EC);
      if constexpr (INDEX)
        drain("out_incidence(g,uid)", gv::out_incidence(g, uid), erecs(o, false, true, false), EC);
      if constexpr (INDEX)
        drain("out_incidence(g,uid,f)", gv::out_incidence(g, uid, efn), erecs(o, false, true, true), EC);
      drain("basic_out_incidence(g,uid)", gv::basic_out_incidence(g, uid), erecs(o, false, false, false), EC);
      drain("basic_out_incidence(g,uid,f)", gv::basic_out_incidence(g, uid, efn), erecs(o, false, false, true), EC);
      drain("out_neighbors(g,u)", gv::out_neighbors(g, u), nrecs(o, true, false), NC);
      drain("out_neighbors(g,u,f)", gv::out_neighbors(g, u, vf), nrecs(o, true, true), NC);
      if constexpr (INDEX)
        drain("out_neighbors(g,uid)", gv::out_neighbors(g, uid), nrecs(o, true, false), NC);
      if constexpr (INDEX)
        drain("out_neighbors(g,uid,f)", gv::out_neighbors(g, uid, vf), nrecs(o, true, true), NC);
      drain("basic_out_neighbors(g,uid)", gv::basic_out_neighbors(g, uid), nrecs(o, false, false), NC);
      drain("basic_out_neighbors(g,uid,f)", gv::basic_out_neighbors(g, uid, vf), nrecs(o, false, true), NC);
      size_t k = 0;
      for (auto&& [tid, e] : gv::incidence(g, u)) {
        MC_CHECK((long)tid == o[k].t && (long)ew(g, e) == o[k].w, "[target, edge] of incidence at " << k);
        ++k;
      }
      k = 0;
      for (auto&& [tid, v] : gv::neighbors(g, u)) {
        MC_CHECK((long)tid == o[k].t && (long)graph::vertex_id(g, v) == o[k].t, "[target id, target] of neighbors at " << k);
        ++k;
      }
      if constexpr (INDEX) {
        drain("g | incidence", g | ad::incidence(uid), erecs(o, false, true, false), EC);
        drain("g | incidence(f)", g | ad::incidence(uid, efn), erecs(o, false, true, true), EC);
        drain("g | basic_incidence", g | ad::basic_incidence(uid), erecs(o, false, false, false), EC);
        drain("g | basic_incidence(f)", g | ad::basic_incidence(uid, efn), erecs(o, false, false, true), EC);
        drain("g | neighbors", g | ad::neighbors(uid), nrecs(o, true, false), NC);
        drain("g | neighbors(f)", g | ad::neighbors(uid, vf), nrecs(o, true, true), NC);
        drain("g | basic_neighbors", g | ad::basic_neighbors(uid), nrecs(o, false, false), NC);
        drain("g | basic_neighbors(f)", g | ad::basic_neighbors(uid, vf), nrecs(o, false, true), NC);
        drain("adaptors::incidence(g,uid)", ad::incidence(g, uid), erecs(o, false, true, false), EC);
        drain("adaptors::incidence(g,uid,f)", ad::incidence(g, uid, efn), erecs(o, false, true, true), EC);
        drain("adaptors::neighbors(g,uid)", ad::neighbors(g, uid), nrecs(o, true, false), NC);
        drain("adaptors::neighbors(g,uid,f)", ad::neighbors(g, uid, vf), nrecs(o, true, true), NC);
        drain("adaptors::basic_incidence(g,uid)", ad::basic_incidence(g, uid), erecs(o, false, false, false), EC);
        drain("adaptors::basic_neighbors(g,uid,f)", ad::basic_neighbors(g, uid, vf), nrecs(o, false, true), NC);
        drain("adaptors::basic_incidence(g,uid,f)", ad::basic_incidence(g, uid, efn), erecs(o, false, false, true), EC);
        drain("adaptors::basic_neighbors(g,uid)", ad::basic_neighbors(g, uid), nrecs(o, false, false), NC);
      }
    }
    ++i;
  }
  // ---- whole graph
  drain("edgelist(g)", gv::edgelist(g), erecs(all, true, true, false), EC);
  drain("edgelist(g,f)", gv::edgelist(g, efn), erecs(all, true, true, true), EC);
  drain("basic_edgelist(g)", gv::basic_edgelist(g), erecs(all, true, false, false), EC);
  drain("basic_edgelist(g,f)", gv::basic_edgelist(g, efn), erecs(all, true, false, true), EC);
  if constexpr (INDEX)
    if (full) {
      drain("g | vertexlist", g | ad::vertexlist(), vrecs(T.ids, true, false), VC);
      drain("g | vertexlist(f)", g | ad::vertexlist(vf), vrecs(T.ids, true, true), VC);
      drain("g | basic_vertexlist", g | ad::basic_vertexlist(), vrecs(T.ids, false, false), VC);
      drain("g | basic_vertexlist(f)", g | ad::basic_vertexlist(vf), vrecs(T.ids, false, true), VC);
      drain("g | edgelist", g | ad::edgelist(), erecs(all, true, true, false), EC);
      drain("g | edgelist(f)", g | ad::edgelist(efn), erecs(all, true, true, true), EC);
      drain("g | basic_edgelist", g | ad::basic_edgelist(), erecs(all, true, false, false), EC);
      drain("g | basic_edgelist(f)", g | ad::basic_edgelist(efn), erecs(all, true, false, true), EC);
      drain("adaptors::vertexlist(g)", ad::vertexlist(g), vrecs(T.ids, true, false), VC);
      drain("adaptors::vertexlist(g,f)", ad::vertexlist(g, vf), vrecs(T.ids, true, true), VC);
      drain("adaptors::basic_vertexlist(g)", ad::basic_vertexlist(g), vrecs(T.ids, false, false), VC);
      drain("adaptors::basic_vertexlist(g,f)", ad::basic_vertexlist(g, vf), vrecs(T.ids, false, true), VC);
      drain("adaptors::basic_edgelist(g)", ad::basic_edgelist(g), erecs(all, true, false, false), EC);
      drain("adaptors::basic_edgelist(g,f)", ad::basic_edgelist(g, efn), erecs(all, true, false, true), EC);
      drain("adaptors::edgelist(g)", ad::edgelist(g), erecs(all, true, true, false), EC);
      drain("adaptors::edgelist(g,f)", ad::edgelist(g, efn), erecs(all, true, true, true), EC);
    }
}

// the multiset of stored edges is the loaded one (containers that drop duplicates: the set)
template <class G>
void check_content(G& g, const gen::EL& el, bool dedup) {
  std::vector<std::pair<long, long>> got, want;
  for (auto u : graph::vertices(g))
    for (auto&& e : graph::edges(g, u))
      got.push_back({(long)graph::vertex_id(g, u), (long)graph::target_id(g, e)});
  for (auto& x : el.e) {
    want.push_back({x.u, x.v});
    if (Ual<std::remove_const_t<G>> && x.u != x.v)
      want.push_back({x.v, x.u});
  }
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  if (dedup)
    want.erase(std::unique(want.begin(), want.end()), want.end());
  MC_CHECK(got == want, "the graph lists " << got.size() << " edges, " << want.size() << " were loaded (or they differ)");
}

template <class G>
void out_case(mc::Suite& S, const char* cname, const gen::EL& el, bool dedup, bool full) {
  S.run_case(mc::Hash().add(std::string(cname)).add(el.key()).add(full).h, [&] { return std::string(cname) + " " + el.str(); },
             [&] {
               auto g = make<G>(el);
               if (!el.e.empty())
                 S.nontrivial();
               mc::state(mc::Hash().add(std::string(cname)).add(el.key()).h);
               check_content(g, el, dedup);
               G& gr = g;
               check_out(gr, full);
               if (full) {
                 const G& cg = g;
                 check_out(cg, full);
               }
             });
}

template <class G>
void out_suite(mc::Suite& S, const char* cname, bool dedup = false) {
  auto u = [](const gen::EL& e) { return e; };
  auto W = [](gen::EL e) {
    int i = 0;
    for (auto& x : e.e)
      x.w = 1 + i++ % 5;
    return e;
  };
  for (int n = 0; n <= 2; ++n) {
    if (n == 0) {
      gen::EL e{0, {}};
      out_case<G>(S, cname, e, dedup, true);
      continue;
    }
    gen::digraphs(n, true, [&](const gen::EL& e) { out_case<G>(S, cname, W(e), dedup, true); });
  }
  gen::digraphs(3, true, [&](const gen::EL& e) { out_case<G>(S, cname, W(e), dedup, true); });
  for (int k = 2; k <= mc::tier(3, 4); ++k)
    gen::edge_sequences(3, k, [&](const gen::EL& e) { out_case<G>(S, cname, W(e), dedup, false); });
  if (mc::thorough())
    gen::digraphs(4, false, [&](const gen::EL& e) { out_case<G>(S, cname, W(e), dedup, true); });
  gen::families(mc::tier(16, 60), [&](const gen::EL& e) { out_case<G>(S, cname, e, dedup, false); });
  (void)u;
}

#if WHAT == 20
#  if PART == 1
MC_SUITE(vov) { out_suite<vov_t<int>>(S, "vov"); }
MC_SUITE(vofl) { out_suite<vofl_t<int>>(S, "vofl"); }
#  elif PART == 2
MC_SUITE(vol) { out_suite<vol_t<void>>(S, "vol<void>"); }
MC_SUITE(csr) { out_suite<csr_t<int>>(S, "csr"); }
#  elif PART == 3
MC_SUITE(vos) { out_suite<vos_t<int>>(S, "vos", true); }
MC_SUITE(vous) { out_suite<vous_t<int>>(S, "vous", true); }
#  elif PART == 4
MC_SUITE(ual) { out_suite<ual_t<int>>(S, "ual"); }
MC_SUITE(dov) { out_suite<dov_t<int>>(S, "dov"); }
#  elif PART == 5
MC_SUITE(vvi) { out_suite<vvi_t>(S, "vvi"); }
MC_SUITE(vvp) { out_suite<vvp_t>(S, "vvp"); }
#  elif PART == 6 || PART == 7
// vertex containers keyed by a map: ids need not be consecutive
template <class G>
void map_suite(mc::Suite& S, const char* cname, bool dedup) {
  auto one = [&](const gen::EL& el0, int stride, bool full) {
    gen::EL el = el0;
    int     i  = 0;
    for (auto& x : el.e)
      x.u = x.u * stride + (stride > 1), x.v = x.v * stride + (stride > 1), x.w = 1 + i++ % 5;
    S.run_case(mc::Hash().add(std::string(cname)).add(el.key()).add(full).h, [&] { return std::string(cname) + " " + el.str(); },
               [&] {
                 G g;
                 using CV = graph::copyable_vertex_t<uint32_t, void>;
                 using CE = graph::copyable_edge_t<uint32_t, int>;
                 std::vector<CE> es;
                 for (auto& x : el.e)
                   es.push_back(CE{(uint32_t)x.u, (uint32_t)x.v, x.w});
                 g.load_edges(es, std::identity{});
                 if (!es.empty())
                   S.nontrivial();
                 mc::state(mc::Hash().add(std::string(cname)).add(el.key()).h);
                 check_content(g, el, dedup);
                 check_out(g, full);
                 if (full) {
                   const G& cg = g;
                   check_out(cg, true);
                 }
               });
  };
  for (int n = 1; n <= 3; ++n)
    gen::digraphs(n, true, [&](const gen::EL& e) {
      one(e, 1, true);
      one(e, 10, true);
    });
  for (int k = 2; k <= mc::tier(3, 4); ++k)
    gen::edge_sequences(3, k, [&](const gen::EL& e) { one(e, 7, false); });
  gen::families(mc::tier(16, 60), [&](const gen::EL& e) { one(e, 3, false); });
}
#    if PART == 6
MC_SUITE(mov) { map_suite<mov_t<int>>(S, "mov", false); }
MC_SUITE(mol) { map_suite<mol_t<int>>(S, "mol", false); }
#    else
MC_SUITE(uov) { map_suite<uov_t<int>>(S, "uov", false); }
MC_SUITE(mos) { map_suite<mos_t<int>>(S, "mos", true); }
#    endif
#  elif PART == 8
// small id types filled to their limit; the graphs are larger, so the views are walked without the extra overloads
template <class G>
void limit_suite(mc::Suite& S, const char* cname, bool is_signed) {
  gen::id_limit_graphs([&](const gen::EL& el, bool fits8) {
    if (is_signed && !fits8)
      return;
    S.run_case(mc::Hash().add(std::string(cname)).add(el.key()).h, [&] { return std::string(cname) + " " + el.str().substr(0, 200); },
               [&] {
                 auto g = make<G>(el);
                 S.nontrivial();
                 mc::state(mc::Hash().add(std::string(cname)).add(el.key()).h);
                 check_content(g, el, false);
                 check_out(g, false);
                 using VId = graph::vertex_id_t<G>;
                 auto   T  = truth(g);
                 size_t N  = T.ids.size();
                 VF     vf;
                 for (size_t a : {size_t(0), size_t(1), N / 2, N - 1})
                   for (size_t b : {a, N - 1})
                     if (a <= b) {
                       auto ua = *graph::find_vertex(g, (VId)T.ids[a]);
                       auto ub = *graph::find_vertex(g, (VId)T.ids[b]);
                       auto VC = vconv(g);
                       drain("vertexlist(g,u,v)", gv::vertexlist(g, ua, ub), vrecs(T.ids, true, false, a, b), VC);
                       drain("vertexlist(g,u,v,f)", gv::vertexlist(g, ua, ub, vf), vrecs(T.ids, true, true, a, b), VC);
                       drain("basic_vertexlist(g,uid,vid)", gv::basic_vertexlist(g, (VId)a, (VId)b), vrecs(T.ids, false, false, a, b), VC);
                       drain("basic_vertexlist(g,uid,vid,f)", gv::basic_vertexlist(g, (VId)a, (VId)b, vf), vrecs(T.ids, false, true, a, b), VC);
                     }
               });
  });
}
MC_SUITE(csr_u8) { limit_suite<csr_t<int, uint8_t>>(S, "csr u8", false); }
MC_SUITE(csr_i8) { limit_suite<csr_t<int, int8_t>>(S, "csr i8", true); }
MC_SUITE(ual_u8) { limit_suite<ual_t<int, uint8_t>>(S, "ual u8", false); }

// views over plain edge lists
struct LF {
  template <class EL, class E>
  long operator()(EL& el, const E& e) const {
    return (long)graph::source_id(el, e) * 100 + (long)graph::target_id(el, e);
  }
};
template <class EL, class F>
void edge_list_case(mc::Suite& S, const char* name, const gen::EL& el, F&& conv) {
  S.run_case(mc::Hash().add(std::string(name)).add(el.key()).h, [&] { return std::string(name) + " " + el.str(); },
             [&] {
               EL l;
               for (auto& x : el.e)
                 l.push_back(conv(x));
               if (!el.e.empty())
                 S.nontrivial();
               mc::state(mc::Hash().add(std::string(name)).add(el.key()).h);
               auto run = [&](auto& lst) {
                 Recs w, wf;
                 for (auto& x : el.e) {
                   w.push_back(Rec{x.u, x.u, x.v, -9, -9});
                   wf.push_back(Rec{x.u, x.u, x.v, x.u * 100 + x.v, -9});
                 }
                 auto C = [&](auto&& x) {
                   Rec r{(long)x.source_id, (long)graph::source_id(lst, x.edge), (long)x.target_id};
                   MC_CHECK((long)graph::target_id(lst, x.edge) == (long)x.target_id, "the edge carried differs from its ids");
                   if constexpr (requires { x.value; })
                     r.val = (long)x.value;
                   return r;
                 };
                 drain("edgelist(el)", gv::edgelist(lst), w, C);
                 drain("edgelist(el,f)", gv::edgelist(lst, LF{}), wf, C);
                 auto before = lst;
                 size_t i    = 0;
                 for (auto&& x : gv::edgelist(lst)) {
                   auto it = std::next(lst.begin(), i);
                   MC_CHECK(graph::source_id(lst, *it) == x.source_id && graph::target_id(lst, *it) == x.target_id, "element " << i << " differs from the list");
                   ++i;
                 }
                 MC_CHECK(i == (size_t)std::ranges::distance(lst), "not every list element was produced");
               };
               run(l);
               const EL& cl = l;
               run(cl);
             });
}
MC_SUITE(edge_lists) {
  for (int n = 1; n <= 3; ++n)
    for (int k = 0; k <= mc::tier(3, 4); ++k)
      gen::edge_sequences(n, k, [&](const gen::EL& e) {
        using P = std::pair<int, int>;
        using T2 = std::tuple<int, int>;
        using T3 = std::tuple<int, int, double>;
        using D  = graph::edge_data<int, true, void, int>;
        using B  = graph::edge_data<int, true, void, void>;
        edge_list_case<std::vector<P>>(S, "vector<pair>", e, [](auto& x) { return P{x.u, x.v}; });
        edge_list_case<std::deque<T2>>(S, "deque<tuple2>", e, [](auto& x) { return T2{x.u, x.v}; });
        edge_list_case<std::deque<T3>>(S, "deque<tuple3>", e, [](auto& x) { return T3{x.u, x.v, x.w}; });
        edge_list_case<std::vector<D>>(S, "vector<edge_data>", e, [](auto& x) { return D{x.u, x.v, x.w}; });
        edge_list_case<std::vector<B>>(S, "vector<edge_data void>", e, [](auto& x) { return B{x.u, x.v}; });
      });
}
#  endif
#endif

#if WHAT == 21
#  define TRANS (PART == 2 || PART == 4 || PART == 6) // the view documents that it needs index-based edge storage
#  include <graph/algorithm/breadth_first_search.hpp>
#  include <graph/algorithm/dijkstra_shortest_paths.hpp>
#  include <graph/algorithm/topological_sort.hpp>

using Trip = std::array<long, 3>;
std::vector<Trip> sorted(std::vector<TE> v) {
  std::vector<Trip> r;
  for (auto& e : v)
    r.push_back({e.s, e.t, e.w});
  std::sort(r.begin(), r.end());
  return r;
}
std::string tstr(const std::vector<Trip>& v) {
  std::ostringstream o;
  for (auto& t : v)
    o << t[0] << ">" << t[1] << ":" << t[2] << " ";
  return o.str();
}
template <class G, class E>
TE te(G& g, const E& e) {
  TE r{(long)graph::source_id(g, e), (long)graph::target_id(g, e), (long)ew(g, e)};
  MC_CHECK((long)graph::vertex_id(g, graph::source(g, e)) == r.s, "source(e) is not the vertex named by source_id");
  MC_CHECK((long)graph::vertex_id(g, graph::target(g, e)) == r.t, "target(e) is not the vertex named by target_id");
  return r;
}
// every incoming-edge query against the outgoing edges
template <class G>
void check_in(G& g, bool full) {
  using GT             = std::remove_const_t<G>;
  constexpr bool INDEX = graph::adj_list::index_adjacency_list<GT>;
  auto           T     = truth(g);
  const size_t   N     = T.ids.size();
  std::map<long, size_t> pos;
  for (size_t i = 0; i < N; ++i)
    pos[T.ids[i]] = i;
  std::vector<std::vector<TE>> want(N);
  for (auto& o : T.out)
    for (auto& e : o)
      want[pos.at(e.t)].push_back(e);
  auto EC = econv(g);
  auto NC = nconv(g);
  VF   vf;
  EF   efn;
  size_t i = 0;
  for (auto v : graph::vertices(g)) {
    auto            vid = graph::vertex_id(g, v);
    std::vector<TE> in, in2;
    for (auto&& e : graph::in_edges(g, v)) {
      in.push_back(te(g, e));
      if (Ual<GT>) { // KNOWN: an undirected list keeps the listed vertex as source (see suite ual_direction)
        TE& x = in.back();
        MC_CHECK(x.s == (long)vid || x.t == (long)vid, "an incoming edge of " << (long)vid << " joins " << x.s << " and " << x.t);
        continue;
      }
      MC_CHECK(in.back().t == (long)vid, "an incoming edge of " << (long)vid << " has target " << in.back().t);
    }
    if (Ual<GT>) {
      auto norm = [](std::vector<TE> l) {
        for (auto& x : l)
          if (x.s > x.t)
            std::swap(x.s, x.t);
        return sorted(l);
      };
      MC_CHECK(norm(in) == norm(want[i]), "in_edges(" << (long)vid << ") lists " << tstr(norm(in)) << "expected " << tstr(norm(want[i])));
    } else
      MC_CHECK(sorted(in) == sorted(want[i]), "in_edges(" << (long)vid << ") lists " << tstr(sorted(in)) << "expected " << tstr(sorted(want[i])));
    for (auto&& e : graph::in_edges(g, vid))
      in2.push_back(te(g, e));
    MC_CHECK(sorted(in2) == sorted(in), "in_edges(g, uid) differs from in_edges(g, u)");
    MC_CHECK((size_t)graph::in_degree(g, v) == in.size(), "in_degree(g, u) is " << (size_t)graph::in_degree(g, v) << " for " << in.size() << " edges");
    MC_CHECK((size_t)graph::in_degree(g, vid) == in.size(), "in_degree(g, uid) is " << (size_t)graph::in_degree(g, vid));
    {
      auto r = graph::in_edges(g, v);
      if constexpr (requires { r.size(); })
        MC_CHECK((size_t)r.size() == in.size(), "in_edges(g, u).size()");
      MC_CHECK(std::ranges::empty(r) == in.empty(), "in_edges(g, u) emptiness");
      MC_CHECK((size_t)std::ranges::distance(r) == in.size(), "in_edges(g, u) distance");
    }
    for (auto u : graph::vertices(g)) {
      auto            uid = graph::vertex_id(g, u);
      std::vector<TE> between;
      for (auto& e : in)
        if (Ual<GT> ? (e.s ^ e.t ^ (long)vid) == (long)uid : e.s == (long)uid)
          between.push_back(TE{(long)uid, (long)vid, e.w});
      MC_CHECK(graph::contains_in_edge(g, v, u) == !between.empty(), "contains_in_edge(" << (long)vid << "," << (long)uid << ")");
      MC_CHECK(graph::contains_in_edge(g, vid, uid) == !between.empty(), "contains_in_edge by id (" << (long)vid << "," << (long)uid << ")");
      if (!between.empty()) {
        auto is = [&](auto&& e, const char* how) {
          TE   x  = te(g, e);
          bool ok = false;
          for (auto& b : between)
            ok = ok || (b.s == x.s && b.t == x.t && b.w == x.w);
          MC_CHECK(ok, how << "(" << (long)vid << "," << (long)uid << ") returned " << x.s << ">" << x.t << ":" << x.w);
        };
        is(graph::find_in_edge(g, v, u), "find_in_edge(g,u,v)");
        is(graph::find_in_edge(g, v, uid), "find_in_edge(g,u,vid)");
        is(graph::find_in_edge(g, vid, uid), "find_in_edge(g,uid,vid)");
      }
    }
    drain("in_incidence(g,u)", gv::in_incidence(g, v), erecs(in, false, true, false, true), EC);
    drain("in_incidence(g,u,f)", gv::in_incidence(g, v, efn), erecs(in, false, true, true, true), EC);
    drain("in_neighbors(g,u)", gv::in_neighbors(g, v), nrecs(in, true, false, true), NC);
    drain("in_neighbors(g,u,f)", gv::in_neighbors(g, v, vf), nrecs(in, true, true, true), NC);
    if constexpr (INDEX) {
      drain("basic_in_incidence(g,uid)", gv::basic_in_incidence(g, vid), erecs(in, false, false, false, true), EC);
      drain("basic_in_incidence(g,uid,f)", gv::basic_in_incidence(g, vid, efn), erecs(in, false, false, true, true), EC);
      drain("basic_in_neighbors(g,uid)", gv::basic_in_neighbors(g, vid), nrecs(in, false, false, true), NC);
      drain("basic_in_neighbors(g,uid,f)", gv::basic_in_neighbors(g, vid, vf), nrecs(in, false, true, true), NC);
      drain("in_incidence(g,uid)", gv::in_incidence(g, vid), erecs(in, false, true, false, true), EC);
      drain("in_incidence(g,uid,f)", gv::in_incidence(g, vid, efn), erecs(in, false, true, true, true), EC);
      drain("in_neighbors(g,uid)", gv::in_neighbors(g, vid), nrecs(in, true, false, true), NC);
      drain("in_neighbors(g,uid,f)", gv::in_neighbors(g, vid, vf), nrecs(in, true, true, true), NC);
      if (full) {
        drain("g | in_incidence", g | ad::in_incidence(vid), erecs(in, false, true, false, true), EC);
        drain("g | in_incidence(f)", g | ad::in_incidence(vid, efn), erecs(in, false, true, true, true), EC);
        drain("g | in_neighbors", g | ad::in_neighbors(vid), nrecs(in, true, false, true), NC);
        drain("g | in_neighbors(f)", g | ad::in_neighbors(vid, vf), nrecs(in, true, true, true), NC);
        drain("g | basic_in_incidence", g | ad::basic_in_incidence(vid), erecs(in, false, false, false, true), EC);
        drain("g | basic_in_incidence(f)", g | ad::basic_in_incidence(vid, efn), erecs(in, false, false, true, true), EC);
        drain("g | basic_in_neighbors", g | ad::basic_in_neighbors(vid), nrecs(in, false, false, true), NC);
        drain("g | basic_in_neighbors(f)", g | ad::basic_in_neighbors(vid, vf), nrecs(in, false, true, true), NC);
        drain("adaptors::in_incidence(g,uid)", ad::in_incidence(g, vid), erecs(in, false, true, false, true), EC);
        drain("adaptors::in_incidence(g,uid,f)", ad::in_incidence(g, vid, efn), erecs(in, false, true, true, true), EC);
        drain("adaptors::in_neighbors(g,uid)", ad::in_neighbors(g, vid), nrecs(in, true, false, true), NC);
        drain("adaptors::in_incidence(g,uid,f)", ad::in_incidence(g, vid, efn), erecs(in, false, true, true, true), EC);
        drain("adaptors::in_neighbors(g,uid,f)", ad::in_neighbors(g, vid, vf), nrecs(in, true, true, true), NC);
        drain("adaptors::basic_in_incidence(g,uid)", ad::basic_in_incidence(g, vid), erecs(in, false, false, false, true), EC);
        drain("adaptors::basic_in_incidence(g,uid,f)", ad::basic_in_incidence(g, vid, efn), erecs(in, false, false, true, true), EC);
        drain("adaptors::basic_in_neighbors(g,uid)", ad::basic_in_neighbors(g, vid), nrecs(in, false, false, true), NC);
        drain("adaptors::basic_in_neighbors(g,uid,f)", ad::basic_in_neighbors(g, vid, vf), nrecs(in, false, true, true), NC);
      }
    }
    ++i;
  }
}

// the transposed view: every query answers as on the graph with all edges reversed
template <class G>
void check_transposed(G& g, bool full) {
  auto tv = gv::transpose(g);
  using TV = decltype(tv);
  static_assert(graph::adj_list::adjacency_list<TV>);
  static_assert(graph::adj_list::bidirectional_adjacency_list<TV>);
  static_assert(graph::adj_list::index_adjacency_list<TV> == graph::adj_list::index_adjacency_list<std::remove_const_t<G>>);
  auto T  = truth(g);
  auto TT = truth(tv);
  const size_t N = T.ids.size();
  MC_CHECK(T.ids == TT.ids, "the transposed view lists other vertices");
  MC_CHECK((size_t)graph::num_vertices(tv) == N, "num_vertices of the transposed view");
  std::map<long, std::vector<TE>> rev;
  size_t m = 0;
  for (auto& o : T.out)
    for (auto& e : o)
      rev[e.t].push_back({e.t, e.s, e.w}), ++m;
  for (size_t i = 0; i < N; ++i)
    MC_CHECK(sorted(TT.out[i]) == sorted(rev[T.ids[i]]), "transposed edges of " << T.ids[i] << ": " << tstr(sorted(TT.out[i])) << "expected " << tstr(sorted(rev[T.ids[i]])));
  MC_CHECK((size_t)graph::num_edges(tv) == (size_t)graph::num_edges(g), "num_edges of the transposed view is " << (size_t)graph::num_edges(tv));
  MC_CHECK((bool)graph::has_edges(tv) == (m > 0), "has_edges of the transposed view");
  size_t i = 0;
  for (auto v : graph::vertices(tv)) {
    auto   id = graph::vertex_id(tv, v);
    size_t d  = TT.out[i].size();
    MC_CHECK((size_t)graph::degree(tv, v) == d, "degree of " << (long)id << " in the transposed view is " << (size_t)graph::degree(tv, v) << ", expected " << d);
    MC_CHECK((size_t)graph::degree(tv, id) == d, "degree by id of " << (long)id << " in the transposed view is " << (size_t)graph::degree(tv, id) << ", expected " << d);
    MC_CHECK((size_t)graph::num_edges(tv, v) == d, "num_edges(tv, u) of " << (long)id << " in the transposed view is " << (size_t)graph::num_edges(tv, v) << ", expected " << d);
    MC_CHECK((size_t)graph::num_edges(tv, id) == d, "num_edges(tv, uid) of " << (long)id << " in the transposed view is " << (size_t)graph::num_edges(tv, id) << ", expected " << d);
    MC_CHECK(graph::find_vertex(tv, id) != std::ranges::end(graph::vertices(tv)) && (long)graph::vertex_id(tv, *graph::find_vertex(tv, id)) == (long)id, "find_vertex in the transposed view");
    std::vector<TE> byid;
    for (auto&& e : graph::edges(tv, id))
      byid.push_back(te(tv, e));
    MC_CHECK(sorted(byid) == sorted(TT.out[i]), "edges(tv, uid) of the transposed view");
    for (auto u : graph::vertices(tv)) {
      auto uid = graph::vertex_id(tv, u);
      bool any = false;
      for (auto& e : TT.out[i])
        any = any || e.t == (long)uid;
      MC_CHECK(graph::contains_edge(tv, v, u) == any, "contains_edge(tv, " << (long)id << ", " << (long)uid << ")");
      MC_CHECK(graph::contains_edge(tv, id, uid) == any, "contains_edge(tv, uid, vid)");
      if (any) {
        auto is = [&](auto&& e) {
          TE   x  = te(tv, e);
          bool ok = false;
          for (auto& b : TT.out[i])
            ok = ok || (b.s == x.s && b.t == x.t && b.w == x.w);
          MC_CHECK(ok && x.t == (long)uid, "find_vertex_edge on the transposed view (" << (long)id << "," << (long)uid << ") returned " << x.s << ">" << x.t << ":" << x.w);
        };
        is(graph::find_vertex_edge(tv, v, u));
        is(graph::find_vertex_edge(tv, v, uid));
        is(graph::find_vertex_edge(tv, id, uid));
      }
    }
    ++i;
  }
  check_out(tv, full);
  check_in(tv, full);
  const TV& ctv = tv;
  if (full) {
    check_out(ctv, false);
    check_in(ctv, false);
  }
  auto back = gv::transpose(tv);
  auto TB   = truth(back);
  for (size_t k = 0; k < N; ++k) {
    std::vector<Trip> a, b;
    for (auto& e : TB.out[k])
      a.push_back({e.s, e.t, e.w});
    for (auto& e : T.out[k])
      b.push_back({e.s, e.t, e.w});
    MC_CHECK(a == b, "transposing twice changed the edges of " << T.ids[k] << ": " << tstr(a) << "expected " << tstr(b));
  }
  if (full)
    check_out(back, false);
  // algorithms on the transposed view
  if constexpr (graph::adj_list::index_adjacency_list<TV>) {
    for (size_t s = 0; s < N; ++s) {
      std::vector<long> D(N, LONG_MAX), want(N, LONG_MAX);
      std::vector<size_t> P(N);
      want[s] = 0;
      for (size_t r = 0; r < N; ++r)
        for (auto& o : T.out)
          for (auto& e : o)
            if (want[e.t] != LONG_MAX && want[e.t] + e.w < want[e.s])
              want[e.s] = want[e.t] + e.w;
      graph::init_shortest_paths(D, P);
      graph::dijkstra_shortest_paths(tv, (graph::vertex_id_t<TV>)s, D, P, [](const auto& gg, const auto& e) { return (long)ew(gg, e); });
      std::vector<long> got(D);
      for (auto& x : got)
        if (x == std::numeric_limits<long>::max())
          x = LONG_MAX;
      MC_CHECK(got == want, "distances on the transposed view from " << s << ": " << mc::str(got) << ", expected " << mc::str(want));
      std::set<long> seen, reach;
      for (auto&& [v] : gv::vertices_bfs(tv, *graph::find_vertex(tv, (graph::vertex_id_t<TV>)s)))
        seen.insert((long)graph::vertex_id(tv, v));
      for (size_t k = 0; k < N; ++k)
        if (want[k] != LONG_MAX)
          reach.insert((long)k);
      MC_CHECK(seen == reach, "search on the transposed view reached " << seen.size() << " vertices, expected " << reach.size());
    }
    std::vector<graph::vertex_id_t<TV>> order;
    bool acyclic = true;
    { // Kahn on the truth
      std::vector<int> d(N);
      for (auto& o : T.out)
        for (auto& e : o)
          ++d[e.t];
      std::vector<size_t> q;
      for (size_t k = 0; k < N; ++k)
        if (!d[k])
          q.push_back(k);
      for (size_t h = 0; h < q.size(); ++h)
        for (auto& e : T.out[q[h]])
          if (!--d[e.t])
            q.push_back(e.t);
      acyclic = q.size() == N;
    }
    bool ok = graph::topological_sort(tv, std::back_inserter(order));
    MC_CHECK(ok == acyclic, "topological_sort on the transposed view returned " << ok);
    if (ok) {
      std::vector<size_t> at(N);
      for (size_t k = 0; k < N; ++k)
        at[order[k]] = k;
      for (auto& o : T.out)
        for (auto& e : o)
          MC_CHECK(at[e.t] < at[e.s], "topological_sort on the transposed view puts " << e.s << " before " << e.t);
    }
  }
}

template <class G>
void in_case(mc::Suite& S, const char* cname, const gen::EL& el, bool dedup, bool full) {
  S.run_case(mc::Hash().add(std::string(cname)).add(el.key()).add(full).h, [&] { return std::string(cname) + " " + el.str(); },
             [&] {
               G g = make<G>(el);
               if (!el.e.empty())
                 S.nontrivial();
               mc::state(mc::Hash().add(std::string(cname)).add(el.key()).h);
               check_content(g, el, dedup);
               check_in(g, full);
#  if TRANS
               check_transposed(g, full);
#  endif
               const G& cg = g;
               check_in(cg, false);
             });
}
template <class G>
void in_suite(mc::Suite& S, const char* cname, bool dedup = false) {
  auto W = [](gen::EL e) {
    int i = 0;
    for (auto& x : e.e)
      x.w = 1 + i++ % 5;
    return e;
  };
  in_case<G>(S, cname, gen::EL{0, {}}, dedup, true);
  for (int n = 1; n <= 3; ++n)
    gen::digraphs(n, true, [&](const gen::EL& e) { in_case<G>(S, cname, W(e), dedup, true); });
  for (int k = 2; k <= mc::tier(3, 4); ++k)
    gen::edge_sequences(3, k, [&](const gen::EL& e) { in_case<G>(S, cname, W(e), dedup, false); });
  if (mc::thorough())
    gen::digraphs(4, false, [&](const gen::EL& e) { in_case<G>(S, cname, W(e), dedup, true); });
  gen::families(mc::tier(10, 30), [&](const gen::EL& e) { in_case<G>(S, cname, e, dedup, false); });
}
#  if PART == 1 || PART == 2
MC_SUITE(vov_bi) { in_suite<vov_bi<int>>(S, "vov_bi"); }
#  elif PART == 3
MC_SUITE(vol_bi) { in_suite<vol_bi<int>>(S, "vol_bi"); }
MC_SUITE(vovl_bi) { in_suite<vovl_bi<int>>(S, "vovl_bi"); }
#  elif PART == 4
MC_SUITE(dov_std) { in_suite<dov_t<int, uint32_t, true>>(S, "dov std bi"); }
#  elif PART == 5
MC_SUITE(vov_std) { in_suite<vov_t<int, uint32_t, true>>(S, "vov std bi"); }
MC_SUITE(vos_std) { in_suite<vos_t<int, uint32_t, true>>(S, "vos std bi", true); }
#  elif PART == 6
MC_SUITE(vod_std) { in_suite<vod_t<int, uint32_t, true>>(S, "vod std bi"); }
#  elif PART == 7
MC_SUITE(ual) { in_suite<ual_t<int>>(S, "ual"); }
// incoming edges of an undirected list lead to the vertex they were asked for
MC_SUITE(ual_direction) {
  gen::EL el{2, {}};
  el.e.push_back({0, 1, 7});
  S.run_case(1, [&] { return std::string("ual 0-1"); },
             [&] {
               S.nontrivial();
               auto g = make<ual_t<int>>(el);
               for (auto&& [tid, n] : gv::in_neighbors(g, 1u))
                 MC_CHECK((long)tid == 0 && (long)graph::vertex_id(g, n) == 0, "KF-UAL-IN: in_neighbors(g, 1) of the undirected list 0-1 gives " << (long)tid);
             });
}
#  elif PART == 9
MC_SUITE(mov_std) { in_suite<mov_t<int, uint32_t, true>>(S, "mov std bi"); }
MC_SUITE(uov_std) { in_suite<uov_t<int, uint32_t, true>>(S, "uov std bi"); }
#  elif PART == 8
MC_SUITE(mos_std) { in_suite<vom_t<int, uint32_t, true>>(S, "vom std bi", true); }
#  endif
#endif

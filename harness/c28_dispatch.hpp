// c28_dispatch.hpp - which answer a query takes: the graph's member, else the free function found with the graph, else the
// default. One graph type per (query form, set of customizations); the answers of the customizations are marked.
#pragma once
#include "zoo.hpp"
namespace dis {
namespace gg = graph;
enum Fn {
  VERTS, VERTS_P, FIND, NV, NV_P, NE, NE_U, NE_ID, DEG_U, DEG_ID, IND_U, IND_ID, TGT, TGT_IT, SRC, SRC_IT, TID, SID, EV, VV, GV,
  FE_UV, FE_UID, FE_IDID, FI_UV, FI_UID, FI_IDID, CE_UV, CE_IDID, CI_UV, CI_IDID, PID, NP, OE_U, OE_ID, IE_U, IE_ID, HAS, VID, LAST
};
inline const char* names[] = {"vertices(g)", "vertices(g, pid)", "find_vertex(g, uid)", "num_vertices(g)", "num_vertices(g, pid)", "num_edges(g)", "num_edges(g, u)", "num_edges(g, uid)", "degree(g, u)", "degree(g, uid)", "in_degree(g, u)", "in_degree(g, uid)", "target(g, uv)", "target(g, uv) by iterator", "source(g, uv)", "source(g, uv) by iterator", "target_id(g, uv)", "source_id(g, uv)", "edge_value(g, uv)", "vertex_value(g, u)", "graph_value(g)", "find_vertex_edge(g, u, v)", "find_vertex_edge(g, u, vid)", "find_vertex_edge(g, uid, vid)", "find_in_edge(g, u, v)", "find_in_edge(g, u, vid)", "find_in_edge(g, uid, vid)", "contains_edge(g, u, v)", "contains_edge(g, uid, vid)", "contains_in_edge(g, u, v)", "contains_in_edge(g, uid, vid)", "partition_id(g, u)", "num_partitions(g)", "edges(g, u)", "edges(g, uid)", "in_edges(g, u)", "in_edges(g, uid)", "has_edges(g)", "vertex_id(g, u)"};
// what the customizations saw
struct Call {
  int                    who = 0; // 1 member, 2 free function
  std::vector<long long> args;
};
inline std::vector<Call> calls;
struct Forget { // nothing is kept from one call to the next
  ~Forget() { std::vector<Call>().swap(calls); }
};
template <class... A>
void called(int who, const A&... a) {
  Call c;
  c.who = who;
  (c.args.push_back((long long)a), ...);
  calls.push_back(c);
}
template <class U>
concept VDesc = gg::adj_list::vertex_descriptor_type<U>;
template <class U>
concept EDesc = gg::adj_list::edge_descriptor_type<U>;
template <class U>
concept Id = std::is_integral_v<U>;

using Rows = std::vector<std::vector<int>>;
template <bool T>
struct IdType {};
template <>
struct IdType<true> {
  using vertex_id_type = size_t;
};
template <class U>
long long vid(const U& u) {
  return (long long)u.vertex_id();
}
#define MEMBER(F_) requires(F == F_ && (K & 1) != 0)
#define MEMBER2(F_, C_) requires(F == F_ && (K & 1) != 0 && C_)
#define FREE(F_) requires(F == F_ && (K & 2) != 0)
#define FREE2(F_, C_) requires(F == F_ && (K & 2) != 0 && C_)
// one member and one free function of the same name and arguments
#define Q0(F_, name, ret)                                                                                              \
  auto name() const MEMBER(F_) { called(1); const int who = 1; return ret; }                                           \
  friend auto name(const C& g) FREE(F_) { called(2); const int who = 2; return ret; }
#define Q1(F_, name, CON, rec, ret)                                                                                    \
  template <class A> auto name(const A& a) const MEMBER2(F_, CON<A>) { called(1, rec); const int who = 1; auto& g = *this; return ret; } \
  template <class A> friend auto name(const C& g, const A& a) FREE2(F_, CON<A>) { called(2, rec); const int who = 2; return ret; }
#define Q2(F_, name, CA, CB, reca, recb, ret)                                                                          \
  template <class A, class B> auto name(const A& a, const B& b) const MEMBER2(F_, CA<A> && CB<B>) { called(1, reca, recb); const int who = 1; return ret; } \
  template <class A, class B> friend auto name(const C& g, const A& a, const B& b) FREE2(F_, CA<A> && CB<B>) { called(2, reca, recb); const int who = 2; return ret; }

template <Fn F, int K, bool T>
struct C : Rows, IdType<T> {
  using Rows::Rows;
  // every descriptor here has an index and a source, so that marked ones can be made
  auto vd(size_t i) const { return *gg::find_vertex((const Rows&)*this, i); }
  auto vi(size_t i) const { return gg::find_vertex((const Rows&)*this, i); }
  Q0(NV, num_vertices, (size_t)(1000 * who))
  Q1(NV_P, num_vertices, Id, a, (size_t)(1000 * who))
  Q0(NE, num_edges, (size_t)(1000 * who))
  Q1(NE_U, num_edges, VDesc, vid(a), (size_t)(1000 * who))
  Q1(NE_ID, num_edges, Id, a, (size_t)(1000 * who))
  Q1(DEG_U, degree, VDesc, vid(a), (size_t)(1000 * who))
  Q1(DEG_ID, degree, Id, a, (size_t)(1000 * who))
  Q1(IND_U, in_degree, VDesc, vid(a), (size_t)(1000 * who))
  Q1(IND_ID, in_degree, Id, a, (size_t)(1000 * who))
  Q1(FIND, find_vertex, Id, a, g.vi((size_t)who))
  Q1(TGT, target, EDesc, a.value(), g.vd((size_t)who))
  Q1(TGT_IT, target, EDesc, a.value(), g.vi((size_t)who))
  Q1(SRC, source, EDesc, a.value(), g.vd((size_t)who))
  Q1(SRC_IT, source, EDesc, a.value(), g.vi((size_t)who))
  Q1(SID, source_id, EDesc, a.value(), 1000 * who)
  Q1(EV, edge_value, EDesc, a.value(), 1000 * who)
  Q1(VV, vertex_value, VDesc, vid(a), 1000 * who)
  Q1(PID, partition_id, VDesc, vid(a), 1000 * who)
  Q0(GV, graph_value, 1000 * who)
  Q0(NP, num_partitions, 1000 * who)
  Q2(FE_UV, find_vertex_edge, VDesc, VDesc, vid(a), vid(b), 1000 * who)
  Q2(FE_UID, find_vertex_edge, VDesc, Id, vid(a), b, 1000 * who)
  Q2(FE_IDID, find_vertex_edge, Id, Id, a, b, 1000 * who)
  Q2(FI_UV, find_in_edge, VDesc, VDesc, vid(a), vid(b), 1000 * who)
  Q2(FI_UID, find_in_edge, VDesc, Id, vid(a), b, 1000 * who)
  Q2(FI_IDID, find_in_edge, Id, Id, a, b, 1000 * who)
  Q2(CE_UV, contains_edge, VDesc, VDesc, vid(a), vid(b), who == 2)
  Q2(CE_IDID, contains_edge, Id, Id, a, b, who == 2)
  Q2(CI_UV, contains_in_edge, VDesc, VDesc, vid(a), vid(b), who == 2)
  Q2(CI_IDID, contains_in_edge, Id, Id, a, b, who == 2)
  // ranges: the first `who` vertices, or the row of vertex `who`
  auto verts(size_t k) const { return gg::adj_list::vertex_descriptor_view<typename Rows::const_iterator>((size_t)0, k); }
  Q1(VERTS_P, vertices, Id, a, g.verts((size_t)who))
  // free functions only
  template <class A> friend auto edges(const C& g, const A& a) FREE2(OE_U, VDesc<A>) { called(2, vid(a)); return gg::edges((const Rows&)g, g.vd(2)); }
  template <class A> friend auto edges(const C& g, const A& a) FREE2(OE_ID, Id<A>) { called(2, a); return gg::edges((const Rows&)g, g.vd(2)); }
  template <class A> friend auto in_edges(const C& g, const A& a) FREE2(IE_U, VDesc<A>) { called(2, vid(a)); return gg::edges((const Rows&)g, g.vd(2)); }
  template <class A> friend auto in_edges(const C& g, const A& a) FREE2(IE_ID, Id<A>) { called(2, a); return gg::edges((const Rows&)g, g.vd(2)); }
  template <class A> friend auto target_id(const C& g, const A& a) FREE2(TID, EDesc<A>) { called(2, a.value()); return 2000; }
  template <class A> friend auto vertex_id(const C& g, const A& a) FREE2(VID, VDesc<A>) { called(2, vid(a)); return (size_t)(2000 + vid(a)); }
};
#undef Q0
#undef Q1
#undef Q2
// vertices(g) itself: not a range, so that there is no default
template <int K>
struct Own {
  Rows rows;
  auto vertices() const requires((K & 1) != 0)
  {
    called(1);
    return gg::adj_list::vertex_descriptor_view<typename Rows::const_iterator>((size_t)0, (size_t)1);
  }
  friend auto vertices(const Own& g) requires((K & 2) != 0)
  {
    called(2);
    return gg::adj_list::vertex_descriptor_view<typename Rows::const_iterator>((size_t)0, (size_t)2);
  }
};
// the same, giving the storage to be wrapped
template <int K>
struct OwnRaw {
  Rows        rows;
  const Rows& vertices() const requires((K & 1) != 0)
  {
    called(1);
    return rows;
  }
  friend const Rows& vertices(const OwnRaw& g) requires((K & 2) != 0)
  {
    called(2);
    return g.rows;
  }
};
} // namespace dis
namespace dis {
// calls form F on g and gives the answer as a number; args: what a customization must have been given
template <Fn F, class G>
long long ask(G& g, std::vector<long long>& args, long long& deflt) {
  auto u0 = *gg::find_vertex(g, (size_t)0);
  auto u2 = [&] {
    auto vs = gg::vertices(g);
    auto it = vs.begin();
    ++it;
    ++it;
    return *it;
  }();
  const Rows& rows = g;
  auto  e    = *gg::edges(rows, *gg::find_vertex(rows, (size_t)0)).begin(); // 0 -> 0
  using IT   = decltype(*gg::edges(g, u0).begin());
  auto  ge   = [&] {
    if constexpr (F == OE_U || F == OE_ID)
      return e;
    else
      return *gg::edges(g, u0).begin();
  }();
  (void)u2;
  auto ids = [&](auto&& r) { // a range of edges as the number of its targets, base 4
    long long x = 0;
    for (auto&& q : r)
      x = x * 4 + (long long)q.target_id(rows[(size_t)q.source_id()]) + 1;
    return x;
  };
  auto edge_no = [&](auto&& x) -> long long { // an edge, or a marker
    if constexpr (std::is_integral_v<std::remove_cvref_t<decltype(x)>>)
      return x;
    else
      return 10 * (long long)x.source_id() + (long long)x.value();
  };
  deflt = 0;
  if constexpr (F == VERTS_P) { args = {1}; return (long long)gg::vertices(g, 1).size(); }
  else if constexpr (F == FIND) { args = {0}; return (long long)(*gg::find_vertex(g, (size_t)0)).vertex_id(); }
  else if constexpr (F == NV) { deflt = 3; return (long long)gg::num_vertices(g); }
  else if constexpr (F == NV_P) { args = {1}; return (long long)gg::num_vertices(g, 1); }
  else if constexpr (F == NE) { deflt = 3; return (long long)gg::num_edges(g); }
  else if constexpr (F == NE_U) { args = {2}; deflt = 1; return (long long)gg::num_edges(g, u2); }
  else if constexpr (F == NE_ID) { args = {2}; deflt = 1; return (long long)gg::num_edges(g, (short)2); }
  else if constexpr (F == DEG_U) { args = {2}; deflt = 1; return (long long)gg::degree(g, u2); }
  else if constexpr (F == DEG_ID) { args = {2}; deflt = 1; return (long long)gg::degree(g, (short)2); }
  else if constexpr (F == IND_U) { args = {2}; return (long long)gg::in_degree(g, u2); }
  else if constexpr (F == IND_ID) { args = {2}; return (long long)gg::in_degree(g, (short)2); }
  else if constexpr (F == TGT || F == TGT_IT) { args = {0}; return (long long)gg::target(g, ge).vertex_id(); }
  else if constexpr (F == SRC || F == SRC_IT) { args = {0}; return (long long)gg::source(g, ge).vertex_id(); }
  else if constexpr (F == TID) { args = {0}; return (long long)gg::target_id(g, ge); }
  else if constexpr (F == SID) { args = {0}; return (long long)gg::source_id(g, ge); }
  else if constexpr (F == EV) { args = {0}; return (long long)gg::edge_value(g, ge); }
  else if constexpr (F == VV) {
    args = {2};
    deflt = 1;
    if constexpr (requires { gg::vertex_value(g, u2).size(); })
      return (long long)gg::vertex_value(g, u2).size();
    else
      return gg::vertex_value(g, u2);
  } else if constexpr (F == GV) { return (long long)gg::graph_value(g); }
  else if constexpr (F == FE_UV) { args = {2, 0}; deflt = 20; return edge_no(gg::find_vertex_edge(g, u2, u0)); }
  else if constexpr (F == FE_UID) { args = {2, 0}; deflt = 20; return edge_no(gg::find_vertex_edge(g, u2, (short)0)); }
  else if constexpr (F == FE_IDID) { args = {2, 0}; deflt = 20; return edge_no(gg::find_vertex_edge(g, (short)2, 0u)); }
  else if constexpr (F == FI_UV) { args = {0, 2}; deflt = 20; return edge_no(gg::find_in_edge(g, u0, u2)); }
  else if constexpr (F == FI_UID) { args = {0, 2}; deflt = 20; return edge_no(gg::find_in_edge(g, u0, (short)2)); }
  else if constexpr (F == FI_IDID) { args = {0, 2}; deflt = 20; return edge_no(gg::find_in_edge(g, (short)0, 2u)); }
  else if constexpr (F == CE_UV) { args = {2, 0}; deflt = 1; return gg::contains_edge(g, u2, u0); }
  else if constexpr (F == CE_IDID) { args = {2, 0}; deflt = 1; return gg::contains_edge(g, (short)2, 0u); }
  else if constexpr (F == CI_UV) { args = {0, 2}; deflt = 1; return gg::contains_in_edge(g, u0, u2); }
  else if constexpr (F == CI_IDID) { args = {0, 2}; deflt = 1; return gg::contains_in_edge(g, (short)0, 2u); }
  else if constexpr (F == PID) { args = {2}; return (long long)gg::partition_id(g, u2); }
  else if constexpr (F == NP) { deflt = 1; return (long long)gg::num_partitions(g); }
  else if constexpr (F == OE_U) { args = {0}; deflt = 6; return ids(gg::edges(g, u0)); }
  else if constexpr (F == OE_ID) { args = {0}; deflt = 6; return ids(gg::edges(g, (short)0)); }
  else if constexpr (F == IE_U) { args = {0}; return ids(gg::in_edges(g, u0)); }
  else if constexpr (F == IE_ID) { args = {0}; return ids(gg::in_edges(g, (short)0)); }
  else if constexpr (F == VID) { args = {2}; deflt = 2; return (long long)gg::vertex_id(g, u2); }
  else return -1;
}
// the marked answer
template <Fn F>
long long marked(int who) {
  if constexpr (F == VERTS_P || F == FIND || F == TGT || F == TGT_IT || F == SRC || F == SRC_IT)
    return who;
  else if constexpr (F == CE_UV || F == CE_IDID || F == CI_UV || F == CI_IDID)
    return who == 2;
  else if constexpr (F == OE_U || F == OE_ID || F == IE_U || F == IE_ID)
    return 1; // the row of vertex 2
  else if constexpr (F == VID)
    return 2002;
  else
    return 1000 * who;
}
template <Fn F>
constexpr bool free_only = F == OE_U || F == OE_ID || F == IE_U || F == IE_ID || F == TID || F == VID;
template <Fn F>
constexpr bool no_default = F == IND_U || F == IND_ID || F == GV || F == IE_U || F == IE_ID;
template <Fn F, int K, bool T, bool Const>
void one() {
  using G = C<F, K, T>;
  Forget forget;
  G g;
  g.push_back({0, 1});
  g.push_back({});
  g.push_back({0});
  std::conditional_t<Const, const G, G>& r = g;
  std::vector<long long> args;
  long long              deflt = 0;
  if constexpr ((K == 0 || (K == 1 && free_only<F>)) && no_default<F>)
    return;
  else {
    // find the elements first, so that only the query itself is recorded
    calls.clear();
    long long got  = ask<F>(r, args, deflt);
    int       who  = (K & 1) && !free_only<F> ? 1 : (K & 2) ? 2 : 0;
    auto      what = [&] { return std::string(names[F]) + (K == 0 ? " with nothing" : K == 1 ? " with a member" : K == 2 ? " with a free function" : " with both") + " of the user's" + (T ? ", vertex_id_type" : "") + (Const ? ", const" : ""); };
    if (who == 0) {
      MC_CHECK(calls.empty(), what() << ": a customization was called");
      MC_CHECK(got == deflt, what() << ": " << got << " instead of the default " << deflt);
    } else {
      MC_CHECK(!calls.empty(), what() << ": no customization was called");
      if (calls.empty()) return;
      auto& c = calls.back();
      for (auto& x : calls)
        MC_CHECK(x.who == who, what() << ": the " << (x.who == 1 ? "member" : "free function") << " was called");
      MC_CHECK(c.args == args, what() << ": called with other arguments");
      MC_CHECK(got == marked<F>(who), what() << ": " << got << " instead of " << marked<F>(who));
    }
    mc::outcome(mc::Hash().add(F).add(K).add((size_t)got).h);
    mc::trace();
    mc::transition();
  }
}
template <template <int> class O, int K, bool Const>
void own(int hm, int ha) {
  Forget forget;
  O<K>   g{{{0, 1}, {}, {0}}};
  std::conditional_t<Const, const O<K>, O<K>>& r = g;
  const int who = (K & 1) ? 1 : 2;
  calls.clear();
  auto vs = gg::vertices(r);
  MC_CHECK(calls.size() == 1 && calls[0].who == who, "vertices(g): the other customization was called");
  MC_CHECK((int)vs.size() == (who == 1 ? hm : ha), "vertices(g) is not the customization's range");
  size_t k = 0;
  for (auto u : vs)
    MC_CHECK(u.vertex_id() == k++, "vertices(g): ids");
  mc::trace();
  mc::transition();
}
template <Fn F>
void form(mc::Suite& S) {
  S.run_case(
        mc::Hash().add(S.name_hash).add(F).h, [] { return std::string(names[F]); },
        [&] {
          [&]<int... K>(std::integer_sequence<int, K...>) {
            ((one<F, K, false, false>(), one<F, K, false, true>(), one<F, K, true, false>()), ...);
          }(std::integer_sequence<int, 0, 1, 2, 3>{});
          S.nontrivial();
          mc::state(mc::Hash().add(F).h);
        });
}
} // namespace dis

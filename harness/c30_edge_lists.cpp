// C30: edge-list queries answer alike on every edge record form.
#include "gen.hpp"
#include "mapcont.hpp"
#if WHAT == 32
#include "fault.hpp"
#endif
#include <compare>
#include <deque>
#include <forward_list>
#include <graph/container/compressed_graph.hpp>
#include <graph/container/undirected_adjacency_list.hpp>
#include <graph/edge_list/edge_list.hpp>
#include <graph/edge_list/edge_list_descriptor.hpp>
#include <graph/graph.hpp>
#include <graph/views/edgelist.hpp>
#include <list>
#include <memory>
#include <ranges>
#include <set>
#include <span>
#include <string>
using mc::Suite;
namespace gg = graph;
namespace el_ = graph::edge_list;

namespace {
template <class T>
T num(int i) { // an id or a value, from a number
  if constexpr (std::is_same_v<T, std::string>)
    return "element number " + std::to_string(i); // longer than the small-string buffer
  else if constexpr (std::is_same_v<T, double>)
    return i + 0.25;
  else if constexpr (std::is_same_v<T, std::unique_ptr<int>>)
    return std::make_unique<int>(i);
  else
    return (T)i;
}
template <class T>
int back(const T& t) {
  if constexpr (std::is_same_v<T, std::string>)
    return t.starts_with("element number ") ? std::stoi(t.substr(15)) : -999;
  else if constexpr (std::is_same_v<T, std::unique_ptr<int>>)
    return t ? *t : -998;
  else
    return (int)t;
}

// ---- record forms.  Each has: R (the record), Id (source id type), Tid, Val (void: none), make(s, t, v),
//      and the factor by which a customization shifts its answers
template <class S_, class T_ = S_>
struct Pair {
  using R = std::pair<S_, T_>; using Id = S_; using Tid = T_; using Val = void;
  static R make(int s, int t, int) { return R(num<S_>(s), num<T_>(t)); }
};
template <class S_, class T_ = S_>
struct Tup2 {
  using R = std::tuple<S_, T_>; using Id = S_; using Tid = T_; using Val = void;
  static R make(int s, int t, int) { return R(num<S_>(s), num<T_>(t)); }
};
template <class S_, class V_, class T_ = S_>
struct Tup3 {
  using R = std::tuple<S_, T_, V_>; using Id = S_; using Tid = T_; using Val = V_;
  static R make(int s, int t, int v) { return R(num<S_>(s), num<T_>(t), num<V_>(v)); }
};
template <class S_, class V_, class X_>
struct Tup4 {
  using R = std::tuple<S_, S_, V_, X_>; using Id = S_; using Tid = S_; using Val = V_;
  static R make(int s, int t, int v) { return R(num<S_>(s), num<S_>(t), num<V_>(v), num<X_>(v + 50)); }
};
template <class S_>
struct Data2 {
  using R = gg::edge_data<S_, true, void, void>; using Id = S_; using Tid = S_; using Val = void;
  static R make(int s, int t, int) { return R{num<S_>(s), num<S_>(t)}; }
};
template <class S_, class V_>
struct Data3 {
  using R = gg::edge_data<S_, true, void, V_>; using Id = S_; using Tid = S_; using Val = V_;
  static R make(int s, int t, int v) { return R{num<S_>(s), num<S_>(t), num<V_>(v)}; }
};
template <class S_, class E_>
struct DataE {
  using R = gg::edge_data<S_, true, E_, void>; using Id = S_; using Tid = S_; using Val = void;
  static R make(int s, int t, int v) { return R{num<S_>(s), num<S_>(t), num<E_>(v + 70)}; }
};
template <class S_, class E_, class V_>
struct DataEV {
  using R = gg::edge_data<S_, true, E_, V_>; using Id = S_; using Tid = S_; using Val = V_;
  static R make(int s, int t, int v) { return R{num<S_>(s), num<S_>(t), num<E_>(v + 70), num<V_>(v)}; }
};
struct Plain2 { int source_id; int target_id; };
struct Plain3 { int source_id; unsigned target_id; std::string value; };
struct UPlain2 {
  using R = Plain2; using Id = int; using Tid = int; using Val = void;
  static R make(int s, int t, int) { return {s, t}; }
};
struct UPlain3 {
  using R = Plain3; using Id = int; using Tid = unsigned; using Val = std::string;
  static R make(int s, int t, int v) { return {s, (unsigned)t, num<std::string>(v)}; }
};
struct FnValue { // fields for the ids, a function for the value
  long source_id, target_id;
  int  v;
  int  value() const { return v; }
};
struct UFnValue {
  using R = FnValue; using Id = long; using Tid = long; using Val = int;
  static R make(int s, int t, int v) { return {s, t, v}; }
};
// a record with fields holding other numbers and free functions that give the answers: the functions win
struct Adl {
  int  source_id, target_id, value;
  int  s, t;
  std::string w;
  template <class L> friend int source_id(const L&, const Adl& e) { return e.s; }
  template <class L> friend int target_id(const L&, const Adl& e) { return e.t; }
  template <class L> friend const std::string& edge_value(const L&, const Adl& e) { return e.w; }
};
struct UAdl {
  using R = Adl; using Id = int; using Tid = int; using Val = std::string;
  static R make(int s, int t, int v) { return {s + 300, t + 400, v + 500, s, t, num<std::string>(v)}; }
};
// a record that also is a tuple, written the other way round
struct AdlTup : std::tuple<int, int, double> {
  using std::tuple<int, int, double>::tuple;
  template <class L> friend int    source_id(const L&, const AdlTup& e) { return std::get<1>(e); }
  template <class L> friend int    target_id(const L&, const AdlTup& e) { return std::get<0>(e); }
  template <class L> friend double edge_value(const L&, const AdlTup& e) { return std::get<2>(e) - 10; }
};
} // namespace
template <> struct std::tuple_size<AdlTup> : std::integral_constant<size_t, 3> {};
namespace {
struct UAdlTup {
  using R = AdlTup; using Id = int; using Tid = int; using Val = double;
  static R make(int s, int t, int v) { return R(t, s, num<double>(v) + 10); }
};
// a record that is a tuple and has fields as well: the fields name the ids
struct FieldTup : std::tuple<int, int, int> {
  int source_id, target_id, value;
};
} // namespace
template <> struct std::tuple_size<FieldTup> : std::integral_constant<size_t, 3> {};
namespace {
struct UFieldTup {
  using R = FieldTup; using Id = int; using Tid = int; using Val = int;
  static R make(int s, int t, int v) { R r; static_cast<std::tuple<int, int, int>&>(r) = {s + 30, t + 40, v + 50}; r.source_id = s; r.target_id = t; r.value = v; return r; }
};
// descriptors refer to ids and values kept elsewhere
template <class S_, class V_ = void>
struct Store {
  struct None {};
  std::deque<S_>                                             ids;
  std::deque<std::conditional_t<std::is_void_v<V_>, None, V_>> vals;
};
template <class S_, class V_ = void>
struct Desc {
  using R = el_::edge_descriptor<S_, V_>; using Id = S_; using Tid = S_; using Val = V_;
  inline static Store<S_, V_>* st = nullptr;
  static R make(int s, int t, int v) {
    st->ids.push_back(num<S_>(s));
    const S_& a = st->ids.back();
    st->ids.push_back(num<S_>(t));
    const S_& b = st->ids.back();
    if constexpr (std::is_void_v<V_>)
      return R(a, b);
    else {
      st->vals.push_back(num<V_>(v));
      return R(a, b, st->vals.back());
    }
  }
};
template <class F>
constexpr bool is_desc = false;
template <class S_, class V_>
constexpr bool is_desc<Desc<S_, V_>> = true;
template <class F>
struct Keep { // owns what descriptors refer to
  int dummy;
};
template <class S_, class V_>
struct Keep<Desc<S_, V_>> {
  Store<S_, V_> st;
  Keep() { Desc<S_, V_>::st = &st; }
  ~Keep() { Desc<S_, V_>::st = nullptr; }
};

// ---- the queries over one edge list
template <class F, class L>
void ask(L& l, const gen::EL& m) {
  using T  = std::remove_const_t<L>;
  using Id = typename F::Id;
  static_assert(el_::basic_sourced_edgelist<L>);
  static_assert(el_::basic_sourced_index_edgelist<L> == (std::is_integral_v<Id> && std::is_integral_v<typename F::Tid>));
  static_assert(std::is_same_v<el_::vertex_id_t<L>, Id>);
  static_assert(std::is_same_v<el_::edge_t<L>, typename F::R>);
  static_assert(el_::has_edge_value<L> == !std::is_void_v<typename F::Val>);
  if constexpr (!std::is_void_v<typename F::Val>) static_assert(std::is_same_v<el_::edge_value_t<L>, typename F::Val>);
  size_t i = 0;
  for (auto&& e : l) {
    MC_CHECK(i < m.e.size(), "an edge too many");
    auto& x = m.e[i];
    auto  q = [&](auto&& rec) {
      MC_CHECK(back<Id>(gg::source_id(l, rec)) == x.u, "source of edge " << i << " is " << back<Id>(gg::source_id(l, rec)));
      MC_CHECK(back<typename F::Tid>(gg::target_id(l, rec)) == x.v, "target of edge " << i << " is " << back<typename F::Tid>(gg::target_id(l, rec)));
      if constexpr (!std::is_void_v<typename F::Val>) {
        MC_CHECK(back<typename F::Val>(gg::edge_value(l, rec)) == x.w, "value of edge " << i << " is " << back<typename F::Val>(gg::edge_value(l, rec)));
        if constexpr (requires { std::get<2>(rec); } && std::is_same_v<std::decay_t<decltype(gg::edge_value(l, rec))>, std::unique_ptr<int>>)
          MC_CHECK(&gg::edge_value(l, rec) == &std::get<2>(rec), "the value of a tuple edge is not the stored one");
      }
      mc::transition();
    };
    q(e);
    q(std::as_const(e));
    if constexpr (std::is_copy_constructible_v<typename F::R>) {
      const typename F::R copy = e;
      q(copy);
    }
    ++i;
  }
  MC_CHECK(i == m.e.size(), "edges missing: " << i);
}
template <class F, class L>
void view(L& l, const gen::EL& m) {
  using Id = typename F::Id;
  auto v   = gg::views::edgelist(l);
  auto run = [&](auto& vw, int extra) {
    for (int pass = 0; pass < 2; ++pass) {
      size_t i = 0;
      for (auto&& e : vw) {
        MC_CHECK(i < m.e.size(), "an edge too many in the view");
        auto& x = m.e[i];
        MC_CHECK(back<Id>(e.source_id) == x.u && back<typename F::Tid>((typename F::Tid)e.target_id) == x.v, "ids of edge " << i << " of the view");
        MC_CHECK(back<Id>(gg::source_id(l, e.edge)) == x.u, "the record of edge " << i << " of the view");
        if constexpr (requires { e.value; }) MC_CHECK(e.value == 2 * x.w + extra, "value function result " << e.value << " at edge " << i);
        // the view's own elements are edge records too
        MC_CHECK(back<Id>(gg::source_id(vw, e)) == x.u && back<typename F::Tid>((typename F::Tid)gg::target_id(vw, e)) == x.v, "ids of element " << i << " of the view as a record");
        ++i;
      }
      MC_CHECK(i == m.e.size(), "edges missing in the view: " << i);
    }
    if constexpr (requires { vw.size(); }) MC_CHECK(vw.size() == m.e.size(), "view size " << vw.size());
    MC_CHECK((vw.begin() == vw.end()) == m.e.empty(), "view emptiness");
  };
  run(v, 0);
  if constexpr (!std::is_void_v<typename F::Val>) {
    auto w = gg::views::edgelist(l, [&](L& ll, const typename F::R& e) { return 2 * back<typename F::Val>(gg::edge_value(ll, e)) + (&ll == &l ? 7 : 0); });
    run(w, 7);
    static_assert(std::is_same_v<typename decltype(w)::info_type, gg::edge_data<Id, true, typename F::R, int>>);
  }
}
// ---- the graph loaded from the list enumerates the same edges
template <class F, class L>
void load(L& l, const gen::EL& m) {
  using Id          = typename F::Id;
  constexpr bool vd = std::is_void_v<typename F::Val>;
  using V           = std::conditional_t<vd, void, std::conditional_t<vd, int, typename F::Val>>;
  auto expect = [&](auto& g, bool sort_within) {
    std::vector<std::array<int, 3>> got, want;
    for (auto&& u : gg::vertices(g))
      for (auto&& uv : gg::edges(g, u)) {
        std::array<int, 3> a{back<Id>((Id)gg::source_id(g, uv)), back<Id>((Id)gg::target_id(g, uv)), 0};
        if constexpr (!vd) a[2] = back<typename F::Val>(gg::edge_value(g, uv));
        got.push_back(a);
      }
    for (auto& x : m.e)
      want.push_back({x.u, x.v, vd ? 0 : x.w});
    // per source, storage order is list order
    auto by_src = [](auto& a, auto& b) { return a[0] < b[0]; };
    if (sort_within) {
      std::sort(got.begin(), got.end());
      std::sort(want.begin(), want.end());
    } else {
      std::stable_sort(got.begin(), got.end(), by_src);
      std::stable_sort(want.begin(), want.end(), by_src);
    }
    MC_CHECK(got == want, "the graph loaded from the list has other edges (" << got.size() << " of " << want.size() << ")");
    if constexpr (requires { gg::num_edges(g); }) MC_CHECK((size_t)gg::num_edges(g) == m.e.size(), "num_edges of the loaded graph");
  };
  auto proj = [&](auto&& e) {
    if constexpr (vd)
      return gg::copyable_edge_t<Id, void>{gg::source_id(l, e), (Id)gg::target_id(l, e)};
    else
      return gg::copyable_edge_t<Id, V>{gg::source_id(l, e), (Id)gg::target_id(l, e), gg::edge_value(l, e)};
  };
  if constexpr (std::is_integral_v<Id>) {
    {
      cont::vov_t<V, Id> g;
      g.load_edges(l, proj, (size_t)m.n);
      expect(g, false);
    }
    bool sorted = std::is_sorted(m.e.begin(), m.e.end(), [](auto& a, auto& b) { return a.u < b.u; });
    if (sorted) {
      gg::container::compressed_graph<V, void, void, Id> g;
      g.load_edges(l, proj, (size_t)m.n);
      expect(g, false);
    }
  } else {
    gg::container::dynamic_graph<V, void, void, Id, false, gg::container::mol_graph_traits<V, void, void, Id, false>> g;
    g.load_edges(l, proj);
    expect(g, false);
  }
}

template <class F, class C>
void fill(C& c, const gen::EL& m) {
  if constexpr (requires { c.push_back(F::make(0, 0, 0)); })
    for (auto& x : m.e)
      c.push_back(F::make(x.u, x.v, x.w));
  else
    for (auto it = m.e.rbegin(); it != m.e.rend(); ++it)
      c.push_front(F::make(it->u, it->v, it->w));
}
template <class F, class C>
void all(C& c, const gen::EL& m) {
  ask<F>(c, m);
  ask<F>(std::as_const(c), m);
  if constexpr (std::is_copy_constructible_v<typename F::R>) {
    view<F>(c, m);
    view<F>(std::as_const(c), m);
    load<F>(c, m);
    if (true) {
      std::ranges::subrange sr(c.begin(), c.end());
      ask<F>(sr, m);
      view<F>(sr, m);
      load<F>(sr, m);
    }
    if constexpr (std::ranges::contiguous_range<C>) {
      std::span<const typename F::R> sp(c);
      ask<F>(sp, m);
      view<F>(sp, m);
    }
    // records made on the fly
    auto tv = c | std::views::transform([](const typename F::R& r) { return typename F::R(r); });
    ask<F>(tv, m);
    view<F>(tv, m);
    load<F>(tv, m);
    // some of the records
    gen::EL fm;
    for (auto& x : m.e)
      if (x.u == x.v) fm.e.push_back(x);
    fm.n    = m.n;
    auto fv = c | std::views::filter([&c](const typename F::R& r) { return back<typename F::Id>(gg::source_id(c, r)) == back<typename F::Tid>(gg::target_id(c, r)); });
    ask<F>(fv, fm);
    view<F>(fv, fm);
    load<F>(fv, fm);
  }
}
template <class F, class C>
void one(const gen::EL& m) {
  Keep<F> keep;
  C       c;
  fill<F>(c, m);
  all<F>(c, m);
}
#if WHAT == 32
// C32: whichever allocation fails while an edge list is queried, viewed or loaded, the exception arrives, nothing leaks and
// the list is what it was
template <class F, class C>
void faults(const gen::EL& m) {
  struct St {
    Keep<F> keep;
    C       c;
  };
  flt::sweep(
        [&] {
          auto s = std::make_unique<St>();
          fill<F>(s->c, m);
          return s;
        },
        [&](St& s) { all<F>(s.c, m); }, [&](St& s, flt::Result) { ask<F>(s.c, m); });
}
template <class F>
void lists(Suite& S) {
  auto body = [&](gen::EL m) {
    if (S.stop()) return;
    for (size_t i = 0; i < m.e.size(); ++i)
      m.e[i].w = 100 + (int)i;
    S.run_case(
          m.key(), [&] { return S.name + " " + m.str(); },
          [&] {
            using R = typename F::R;
            faults<F, std::vector<R>>(m);
            faults<F, std::forward_list<R>>(m);
            if (m.m()) S.nontrivial();
            mc::state(mc::Hash().add(S.name_hash).add(m.key()).h);
          });
  };
  gen::edge_sequences(2, 1, body);
  gen::edge_sequences(2, 2, body);
  if (mc::thorough()) gen::edge_sequences(3, 2, body);
}
#else
template <class F>
void lists(Suite& S) {
  const int kmax = mc::tier(3, 4);
  auto      body = [&](gen::EL m) {
    if (S.stop()) return;
    for (size_t i = 0; i < m.e.size(); ++i)
      m.e[i].w = 100 + (int)i;
    S.run_case(
          m.key(), [&] { return S.name + " " + m.str(); },
          [&] {
            using R = typename F::R;
            one<F, std::vector<R>>(m);
            one<F, std::list<R>>(m);
            one<F, std::deque<R>>(m);
            one<F, std::forward_list<R>>(m);
            if (m.m() > 1) S.nontrivial();
            mc::trace();
            mc::state(mc::Hash().add(S.name_hash).add(m.key()).h);
            mc::outcome(mc::Hash().add(S.name_hash).add(m.key()).h);
          });
  };
  for (int k = 0; k <= kmax; ++k)
    gen::edge_sequences(3, k, body);
  gen::edge_sequences(2, mc::tier(4, 6), body);
}

#endif
// ---- descriptors compare as the tuples they stand for
template <class S_, class V_>
void descriptors(Suite& S) {
  using D           = el_::edge_descriptor<S_, V_>;
  constexpr bool vd = std::is_void_v<V_>;
  struct None { auto operator<=>(const None&) const = default; };
  using W = std::conditional_t<vd, None, V_>;
  std::vector<S_> ids;
  std::vector<W>  vals;
  { // two copies of each, so equal descriptors need not refer to the same objects
    mc::Untracked u;
    for (int c = 0; c < 2; ++c)
      for (int i = 0; i < 3; ++i)
        ids.push_back(num<S_>(i));
    if constexpr (!vd)
      for (int c = 0; c < 2; ++c)
        for (int i = 0; i < 3; ++i)
          vals.push_back(num<V_>(i));
    else
      vals.resize(1);
  }
  const size_t nv = vals.size(), ni = ids.size(), total = ni * ni * nv;
  auto         mk = [&](size_t k) {
    size_t a = k % ni, b = k / ni % ni, c = k / ni / ni;
    if constexpr (vd)
      return D(ids[a], ids[b]);
    else
      return D(ids[a], ids[b], vals[c]);
  };
  auto tup = [&](size_t k) { return std::tuple<S_, S_, W>(ids[k % ni], ids[k / ni % ni], vals[k / ni / ni]); };
  for (size_t a = 0; a < total; ++a)
    S.run_case(
          a, [&] { return S.name + " descriptor " + std::to_string(a); },
          [&] {
            D da = mk(a);
            D cp = da;
            D mv = std::move(cp);
            MC_CHECK(mv == da && !(mv != da), "a copy differs");
            for (size_t b = 0; b < total; ++b) {
              D    db = mk(b);
              bool eq = tup(a) == tup(b);
              MC_CHECK((da == db) == eq && (da != db) == !eq, "equality with " << b);
              auto o = da <=> db;
              auto w = tup(a) <=> tup(b);
              MC_CHECK((o < 0) == (w < 0) && (o > 0) == (w > 0) && (o == 0) == (w == 0), "order with " << b);
              MC_CHECK((da < db) == (w < 0) && (da <= db) == (w <= 0) && (da > db) == (w > 0) && (da >= db) == (w >= 0), "operators with " << b);
              mc::transition();
            }
            MC_CHECK(da.source_id() == std::get<0>(tup(a)) && da.target_id() == std::get<1>(tup(a)), "accessors");
            MC_CHECK(&da.source_id() == &ids[a % ni] && &mv.target_id() == &ids[a / ni % ni], "a descriptor does not refer to the ids it was made of");
            if constexpr (!vd) MC_CHECK(&da.value() == &vals[a / ni / ni] && &mv.value() == &da.value(), "a descriptor does not refer to the value it was made of");
            S.nontrivial();
            mc::trace();
            mc::state(mc::Hash().add(S.name_hash).add(a).h);
            mc::outcome(mc::Hash().add(S.name_hash).add(a).h);
          });
  mc::Untracked u;
  ids  = {};
  vals = {};
  ids.shrink_to_fit();
  vals.shrink_to_fit();
}

// ---- who answers: the list's own member or free function comes before the record's form
template <int MS, int MT, int MV, class Rec> // 0 nothing, 1 member of the list, 2 free function of the list
struct Own : std::vector<Rec> {
  using std::vector<Rec>::vector;
  int source_id(const Rec& r) const requires(MS == 1 || MS == 3) { return this->at(0) == r ? 1001 : 1002; }
  int edge_value(const Rec& r) const requires(MV == 1 || MV == 3) { return this->at(0) == r ? 3001 : 3002; }
  friend int source_id(const Own& l, const Rec& r) requires(MS >= 2) { return l.at(0) == r ? 1101 : 1102; }
  friend int target_id(const Own& l, const Rec& r) requires(MT == 2) { return l.at(0) == r ? 2101 : 2102; }
  friend int edge_value(const Own& l, const Rec& r) requires(MV >= 2) { return l.at(0) == r ? 3101 : 3102; }
};
template <int MS, int MT, int MV, class Rec>
void own(Rec a, Rec b, int s, int t, int v) {
  Own<MS, MT, MV, Rec> l;
  l.push_back(a);
  l.push_back(b);
  auto run = [&](auto& ll) {
    int  i    = 0;
    auto base = [](int how, int m, int k, int i, int stored) { return how == 0 ? stored : m * 1000 + (how == 1 || how == 3 ? k : 100) + 1 + i; };
    for (auto& r : ll) {
      MC_CHECK(gg::source_id(ll, r) == base(MS, 1, 0, i, s + i), "source answered by the wrong party: " << gg::source_id(ll, r));
      MC_CHECK(gg::target_id(ll, r) == base(MT, 2, 0, i, t + i), "target answered by the wrong party: " << gg::target_id(ll, r));
      MC_CHECK(gg::edge_value(ll, r) == base(MV, 3, 0, i, v + i), "value answered by the wrong party: " << gg::edge_value(ll, r));
      mc::transition();
      ++i;
    }
  };
  run(l);
  run(std::as_const(l));
}

#if WHAT == 32
#if PART == 1
MC_SUITE(list_pair) { lists<Pair<std::string>>(S); }
MC_SUITE(list_tuple) { lists<Tup3<std::string, std::string>>(S); }
MC_SUITE(list_descriptor) { lists<Desc<std::string, std::string>>(S); }
#else
MC_SUITE(list_data) { lists<Data3<std::string, std::string>>(S); }
MC_SUITE(list_data_edge) { lists<DataEV<std::string, std::string, std::string>>(S); }
MC_SUITE(list_record) { lists<UPlain3>(S); }
#endif
#elif PART == 1
MC_SUITE(pair_int) { lists<Pair<int>>(S); }
MC_SUITE(pair_mixed) { lists<Pair<int64_t, int>>(S); }
MC_SUITE(pair_u8) { lists<Pair<uint8_t>>(S); }
MC_SUITE(tuple2_u32) { lists<Tup2<uint32_t>>(S); }
MC_SUITE(tuple3_int) { lists<Tup3<int, int>>(S); }
#elif PART == 2
MC_SUITE(pair_string) { lists<Pair<std::string>>(S); }
MC_SUITE(tuple3_string_string) { lists<Tup3<std::string, std::string>>(S); }
MC_SUITE(tuple3_int_double) { lists<Tup3<int, double>>(S); }
MC_SUITE(tuple3_move_only) { lists<Tup3<int, std::unique_ptr<int>>>(S); }
MC_SUITE(tuple4) { lists<Tup4<unsigned, std::string, int>>(S); }
#elif PART == 3
MC_SUITE(data2_int) { lists<Data2<int>>(S); }
MC_SUITE(data3_u32) { lists<Data3<uint32_t, double>>(S); }
MC_SUITE(data3_string) { lists<Data3<std::string, std::string>>(S); }
MC_SUITE(data_edge) { lists<DataE<int, std::string>>(S); }
MC_SUITE(data_edge_value) { lists<DataEV<size_t, int, std::string>>(S); }
#elif PART == 4
MC_SUITE(plain2) { lists<UPlain2>(S); }
MC_SUITE(plain3) { lists<UPlain3>(S); }
MC_SUITE(fn_value) { lists<UFnValue>(S); }
MC_SUITE(adl) { lists<UAdl>(S); }
#elif PART == 5
MC_SUITE(adl_tuple) { lists<UAdlTup>(S); }
MC_SUITE(field_tuple) { lists<UFieldTup>(S); }
MC_SUITE(own) {
  S.run_case(1, [] { return std::string("list customizations"); }, [&] {
    using T3 = std::tuple<int, int, int>;
    [&]<int... I>(std::integer_sequence<int, I...>) {
      ((own<I / 12, (I / 4 % 3 == 1 ? 0 : I / 4 % 3), I % 4, T3>(T3{5, 7, 9}, T3{6, 8, 10}, 5, 7, 9)), ...);
    }(std::make_integer_sequence<int, 48>{});
    S.nontrivial();
    mc::state(1);
  });
}
MC_SUITE(desc_int) { descriptors<int, void>(S); }
MC_SUITE(desc_u8_int) { descriptors<uint8_t, int>(S); }
MC_SUITE(desc_string_double) { descriptors<std::string, double>(S); }
MC_SUITE(desc_string_string) { descriptors<std::string, std::string>(S); }
#elif PART == 6
MC_SUITE(descriptor_int) { lists<Desc<int>>(S); }
MC_SUITE(descriptor_int_double) { lists<Desc<int, double>>(S); }
MC_SUITE(descriptor_string) { lists<Desc<std::string>>(S); }
MC_SUITE(descriptor_u32_string) { lists<Desc<uint32_t, std::string>>(S); }
#endif
} // namespace

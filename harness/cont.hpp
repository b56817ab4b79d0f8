// cont.hpp - graph types under test and how each is loaded from an abstract edge list.
#pragma once
#include "gen.hpp"
#include <graph/container/compressed_graph.hpp>
#include <graph/container/dynamic_graph.hpp>
#include <graph/container/traits/dofl_graph_traits.hpp>
#include <graph/container/traits/dol_graph_traits.hpp>
#include <graph/container/traits/dov_graph_traits.hpp>
#include <graph/container/traits/vod_graph_traits.hpp>
#include <graph/container/traits/vofl_graph_traits.hpp>
#include <graph/container/traits/vol_graph_traits.hpp>
#include <graph/container/traits/vos_graph_traits.hpp>
#include <graph/container/traits/vous_graph_traits.hpp>
#include <graph/container/traits/vov_graph_traits.hpp>
#include <deque>
#include <graph/container/undirected_adjacency_list.hpp>
#include <list>
#include <graph/graph.hpp>

namespace cont {
using namespace graph::container;
template <class EV, class VId = uint32_t, bool Bi = false>
using vov_t = dynamic_graph<EV, void, void, VId, Bi, vov_graph_traits<EV, void, void, VId, Bi>>;
template <class EV, class VId = uint32_t, bool Bi = false>
using vol_t = dynamic_graph<EV, void, void, VId, Bi, vol_graph_traits<EV, void, void, VId, Bi>>;
template <class EV, class VId = uint32_t, bool Bi = false>
using vofl_t = dynamic_graph<EV, void, void, VId, Bi, vofl_graph_traits<EV, void, void, VId, Bi>>;
template <class EV, class VId = uint32_t, bool Bi = false>
using vod_t = dynamic_graph<EV, void, void, VId, Bi, vod_graph_traits<EV, void, void, VId, Bi>>;
template <class EV, class VId = uint32_t, bool Bi = false>
using vos_t = dynamic_graph<EV, void, void, VId, Bi, vos_graph_traits<EV, void, void, VId, Bi>>;
template <class EV, class VId = uint32_t, bool Bi = false>
using vous_t = dynamic_graph<EV, void, void, VId, Bi, vous_graph_traits<EV, void, void, VId, Bi>>;
template <class EV, class VId = uint32_t, bool Bi = false>
using dov_t = dynamic_graph<EV, void, void, VId, Bi, dov_graph_traits<EV, void, void, VId, Bi>>;
template <class EV, class VId = uint32_t, bool Bi = false>
using dol_t = dynamic_graph<EV, void, void, VId, Bi, dol_graph_traits<EV, void, void, VId, Bi>>;
template <class EV, class VId = uint32_t>
using csr_t = compressed_graph<EV, void, void, VId, uint32_t>;
template <class EV, class VId = uint32_t>
using ual_t = undirected_adjacency_list<EV, int, int, VId>;
// bidirectional dynamic graphs whose incoming-edge records carry the source id
template <class EV, class VV, class GV, class VId, template <class...> class OC, template <class...> class IC>
struct bi_traits {
  using edge_value_type   = EV;
  using vertex_value_type = VV;
  using graph_value_type  = GV;
  using vertex_id_type    = VId;
  static constexpr bool bidirectional = true;
  using edge_type     = dynamic_out_edge<EV, VV, GV, VId, true, bi_traits>;
  using in_edge_type  = dynamic_in_edge<EV, VV, GV, VId, true, bi_traits>;
  using vertex_type   = dynamic_vertex<EV, VV, GV, VId, true, bi_traits>;
  using graph_type    = dynamic_graph<EV, VV, GV, VId, true, bi_traits>;
  using edges_type    = OC<edge_type>;
  using in_edges_type = IC<in_edge_type>;
  using vertices_type = std::vector<vertex_type>;
};
template <class EV, class VId = uint32_t, class VV = void, class GV = void>
using vov_bi = dynamic_graph<EV, VV, GV, VId, true, bi_traits<EV, VV, GV, VId, std::vector, std::vector>>;
template <class EV, class VId = uint32_t, class VV = void, class GV = void>
using vol_bi = dynamic_graph<EV, VV, GV, VId, true, bi_traits<EV, VV, GV, VId, std::list, std::list>>;
template <class EV, class VId = uint32_t, class VV = void, class GV = void>
using vovl_bi = dynamic_graph<EV, VV, GV, VId, true, bi_traits<EV, VV, GV, VId, std::deque, std::list>>;
using vvp_t = std::vector<std::vector<std::pair<int, int>>>;
using vvi_t = std::vector<std::vector<int>>;

template <class G>
struct is_csr : std::false_type {};
template <class EV, class VV, class GV, class VId, class EI, class A>
struct is_csr<compressed_graph<EV, VV, GV, VId, EI, A>> : std::true_type {};
template <class G>
struct is_ual : std::false_type {};
template <class EV, class VV, class GV, class VId, template <typename, typename> class VC, class A>
struct is_ual<undirected_adjacency_list<EV, VV, GV, VId, VC, A>> : std::true_type {};
template <class G>
concept Csr = is_csr<std::remove_cvref_t<G>>::value;
template <class G>
concept Ual = is_ual<std::remove_cvref_t<G>>::value;
template <class G>
concept Dyn = requires { typename G::graph_traits; } && !Csr<G> && !Ual<G>;

template <class G>
struct ev_of {
  using type = int;
};
template <Dyn G>
struct ev_of<G> {
  using type = typename G::graph_traits::edge_value_type;
};
template <class EV, class VV, class GV, class VId, class EI, class A>
struct ev_of<compressed_graph<EV, VV, GV, VId, EI, A>> {
  using type = EV;
};

template <>
struct ev_of<vvi_t> {
  using type = void;
};
// Build from a *directed* edge list.
template <class G>
G build(const gen::EL& el) {
  if constexpr (Dyn<G>) {
    using VId = graph::vertex_id_t<G>;
    using EV  = typename ev_of<G>::type;
    G g;
    if constexpr (graph::adj_list::index_adjacency_list<G>) // vertices of map-keyed graphs appear with their edges
      g.resize_vertices(el.n);
    using CE = graph::copyable_edge_t<VId, EV>;
    g.load_edges(el.e,
                 [](const gen::E& x) -> CE {
                   if constexpr (std::is_void_v<EV>)
                     return CE{(VId)x.u, (VId)x.v};
                   else
                     return CE{(VId)x.u, (VId)x.v, (EV)x.w};
                 },
                 (size_t)el.n);
    return g;
  } else if constexpr (Csr<G>) {
    using VId = graph::vertex_id_t<G>;
    using EV  = typename ev_of<G>::type;
    using CE  = graph::copyable_edge_t<VId, EV>;
    // an empty vertex range is needed for trailing isolated vertices: the row index is the public way to express it
    gen::EL s = gen::by_source(el);
    std::vector<CE> es;
    for (auto& x : s.e) {
      if constexpr (std::is_void_v<EV>)
        es.push_back(CE{(VId)x.u, (VId)x.v});
      else
        es.push_back(CE{(VId)x.u, (VId)x.v, (EV)x.w});
    }
    G g;
    g.load_edges(es);
    return g; // NOTE: vertices = max id + 1; trailing isolated vertices are absent
  } else if constexpr (std::is_same_v<G, vvp_t>) {
    G g(el.n);
    for (auto& x : el.e)
      g[x.u].push_back({x.v, x.w});
    return g;
  } else {
    static_assert(std::is_same_v<G, vvi_t>);
    G g(el.n);
    for (auto& x : el.e)
      g[x.u].push_back(x.v);
    return g;
  }
}
// Build an undirected_adjacency_list from an undirected edge list.
template <class G>
G build_ual(const gen::EL& el) {
  G g;
  for (int i = 0; i < el.n; ++i)
    g.create_vertex(i);
  using VId = graph::vertex_id_t<G>;
  for (auto& x : el.e)
    g.create_edge((VId)x.u, (VId)x.v, x.w);
  return g;
}
template <class G>
auto make(const gen::EL& el) {
  using T = std::remove_const_t<G>;
  if constexpr (Ual<T>)
    return build_ual<T>(el);
  else
    return build<T>(el);
}
} // namespace cont

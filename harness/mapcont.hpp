// mapcont.hpp - dynamic graphs whose vertices live in a map, or whose edges live in a map keyed by target.
#pragma once
#include "cont.hpp"
#include <graph/container/traits/mofl_graph_traits.hpp>
#include <graph/container/traits/mol_graph_traits.hpp>
#include <graph/container/traits/mos_graph_traits.hpp>
#include <graph/container/traits/mous_graph_traits.hpp>
#include <graph/container/traits/mov_graph_traits.hpp>
#include <graph/container/traits/uov_graph_traits.hpp>
#include <graph/container/traits/uos_graph_traits.hpp>
#include <graph/container/traits/vom_graph_traits.hpp>
#include <graph/container/traits/voum_graph_traits.hpp>
namespace cont {
#define MAPC(X)                                                                                                        \
  template <class EV, class VId = uint32_t, bool Bi = false>                                                           \
  using X##_t = dynamic_graph<EV, void, void, VId, Bi, X##_graph_traits<EV, void, void, VId, Bi>>;
MAPC(mov)
MAPC(mos)
MAPC(mol)
MAPC(mous)
MAPC(mofl)
MAPC(uov)
MAPC(uos)
MAPC(vom)
MAPC(voum)
#undef MAPC
} // namespace cont

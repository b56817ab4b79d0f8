// C32 (readers): whichever allocation fails and whichever callback throws inside a query, view or algorithm, the exception
// reaches the caller, nothing leaks, and the graph - which was only read - is what it was and answers as it did.
#include "catalogue.hpp"
using namespace cat;
using zoo::EL;

namespace {
template <class R>
struct St {
  typename R::G g;
  Cx            c;
};
template <class R, int Sel, bool Const>
void readers(mc::Suite& S, const char* rn, int most) {
  using G  = typename R::G;
  using GR = std::conditional_t<Const, const G, G>;
  auto all = ops<R, GR, Sel>();
  auto run = [&](const EL& el) {
    if (R::uniq && zoo::parallel(el)) return;
    if ((int)el.e.size() > most) return;
    for (size_t o = 0; o < all.size(); ++o)
      for (int s = 0; s < (all[o].per_vertex ? el.n : 1); ++s)
        S.run_case(
              mc::Hash().add(std::string(rn)).add(el.key()).add(o).add(s).add(Const).h,
              [&] { return std::string(rn) + (Const ? " const" : "") + " " + el.str() + " : " + all[o].name + " (vertex " + std::to_string(s) + ")"; },
              [&] {
                uint64_t before = 0, answer = 0;
                {
                  G g    = R::make(el);
                  before = snapshot<R>(g);
                  mc::state(before);
                  Cx c;
                  c.s = s;
                  all[o].run(g, c);
                  answer = c.h.h;
                }
                bool nontriv = false;
                flt::sweep(
                      [&] {
                        auto p = std::make_unique<St<R>>();
                        p->g   = R::make(el);
                        p->c.s = s;
                        return p;
                      },
                      [&](St<R>& st) { all[o].run(st.g, st.c); },
                      [&](St<R>& st, flt::Result r) {
                        MC_CHECK(snapshot<R>(st.g) == before, "the graph changed");
                        if (r == flt::Done)
                          MC_CHECK(st.c.h.h == answer, "another answer");
                        else
                          nontriv = true;
                        Cx again;
                        again.s = s;
                        all[o].run(st.g, again);
                        MC_CHECK(again.h.h == answer, "afterwards, another answer");
                      });
                if (nontriv) S.nontrivial();
              });
  };
  auto num = [&](EL g) {
    for (size_t i = 0; i < g.e.size(); ++i)
      g.e[i].w = 100 + (int)i;
    run(g);
  };
  for (int n = 1; n <= 2; ++n)
    gen::digraphs(n, true, num);
  gen::edge_sequences(2, 3, num);
  gen::digraphs(3, mc::thorough(), num);
  if (mc::thorough()) gen::edge_sequences(3, 3, num);
}
} // namespace
#define RDC(NAME, SEL, MOST, ...)                                                                                      \
  MC_SUITE(NAME##_const) {                                                                                             \
    readers<__VA_ARGS__, SEL, true>(S, #NAME, MOST);                                                                   \
  }
#define RD(NAME, SEL, MOST, ...)                                                                                       \
  MC_SUITE(NAME) {                                                                                                     \
    readers<__VA_ARGS__, SEL, false>(S, #NAME, MOST);                                                                  \
  }
using zoo::Indexed, zoo::Keyed, zoo::Lib;
#if PART == 1
RD(vov, All, 9, Lib<zoo::vov_z<>>)
#elif PART == 2
RD(ual, All, 9, Lib<zoo::ual_z<>>)
#elif PART == 3
RD(csr, All, 9, Lib<zoo::csr_z<>>)
#elif PART == 9
RDC(vol, All, 9, Lib<zoo::vol_z<>>)
#elif PART == 4
RD(mov_s, Queries | BasicViews, 9, Lib<zoo::mov_z<std::string>>)
RD(map_s, Queries | BasicViews, 9, Keyed<std::map<std::string, std::vector<std::pair<std::string, int>>>>)
RD(vec_pairs, Queries | BasicViews, 9, Indexed<std::vector<std::vector<std::pair<int, int>>>>)
#elif PART == 5
RD(vov_in, All, 9, Lib<zoo::vov_z<uint32_t, true>>)
#elif PART == 6
RD(mov_in_s, Queries | BasicViews, 9, Lib<zoo::mov_z<std::string, true>>)
RD(uos_s, Queries | BasicViews, 9, Lib<zoo::uos_z<std::string>, true, false>)
RD(mous_s, Queries | BasicViews, 9, Lib<zoo::mous_z<std::string>, true, false>)
#elif PART == 7
RD(voum, Queries | BasicViews | SearchViews, 9, Lib<zoo::voum_z<>, true, false>)
RD(umap_s, Queries | BasicViews, 9, Keyed<std::unordered_map<std::string, std::set<std::string>>>)
RD(map_i, Queries | BasicViews, 9, Keyed<std::map<int, std::list<int>>>)
#elif PART == 8
RD(vec_vec_pairs, SearchViews | Algos, 9, Indexed<std::vector<std::vector<std::pair<int, int>>>>)
RD(deq_list_se, All, 9, Indexed<std::deque<std::list<zoo::Se>>>)
#endif

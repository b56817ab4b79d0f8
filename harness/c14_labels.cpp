// C14: label propagation under every answer of the random generator.
// The generator replays a script of answers; the scripts are explored as a choice tree (stateless search with re-execution).
// Oracle: the set of labelings reachable in <= k passes of the documented rule over *all* visiting orders and tie-breaks.
#include "algo_common.hpp"
#include <graph/algorithm/label_propagation.hpp>
#include <deque>
using namespace ac;
using namespace cont;

using Lab = std::vector<int>;
using Adj = std::vector<std::vector<std::pair<int, long>>>;

// ---- scripted generator: range [0,24]; no answer below 24 is rejected for any range asked for on up to four elements (2, 3, 4, 6, 12)
struct Script {
  std::vector<int> choice; // index into the alternatives of each draw
  std::vector<int> width;  // number of alternatives of each draw actually made
  size_t           pos = 0;
  int              n   = 0;
  int              budget = 0; // draws after which only the first alternative is offered
  long             draws  = 0;
};
struct Gen24 {
  using result_type = unsigned;
  Script* s;
  static constexpr unsigned min() { return 0; }
  static constexpr unsigned max() { return 24; }
  unsigned operator()() {
    Script& t = *s;
    ++t.draws;
    // Representatives of every answer a request of range 2, 3, 4 or 6 (the shuffle asks for two positions at once) can produce;
    // offering the union at every draw keeps the search complete if the order of the requests changes.  Four elements are
    // shuffled with a request of range 2 and one of range 12.
    static const int alt[6]   = {0, 5, 10, 15, 17, 22};
    static const int alt12[12] = {0, 3, 5, 6, 9, 10, 13, 15, 17, 18, 21, 22};
    size_t           p        = t.pos++;
    const bool       wide     = t.n >= 4 && p == 1;
    if (p >= t.choice.size())
      t.choice.push_back(0);
    if (p >= t.width.size())
      t.width.push_back((int)p < t.budget ? (wide ? 12 : 6) : 1);
    return (unsigned)(wide ? alt12 : alt)[t.choice[p]];
  }
};
// next script in depth-first order; false when exhausted
inline bool advance(Script& s) {
  s.choice.resize(s.pos);
  s.width.resize(s.pos);
  while (!s.choice.empty()) {
    if (++s.choice.back() < s.width.back())
      return true;
    s.choice.pop_back();
    s.width.pop_back();
  }
  return false;
}

// ---- model: one pass over all orders and tie-breaks
struct Model {
  const Adj& a;
  int        empty; // label without a vote, or INT_MIN
  std::set<int> best(const Lab& l, int u) const {
    std::map<int, int> f;
    for (auto& [v, w] : a[u])
      if (l[v] != empty)
        ++f[l[v]];
    int           m = 0;
    std::set<int> r;
    for (auto& [k, c] : f)
      m = std::max(m, c);
    for (auto& [k, c] : f)
      if (c == m)
        r.insert(k);
    return r;
  }
  void pass(const Lab& l, std::set<Lab>& out) const {
    std::set<std::pair<unsigned, Lab>> seen;
    rec(l, 0, out, seen);
  }
  void rec(const Lab& l, unsigned done, std::set<Lab>& out, std::set<std::pair<unsigned, Lab>>& seen) const {
    if (!seen.insert({done, l}).second)
      return;
    if (done + 1 == 1u << a.size()) {
      out.insert(l);
      return;
    }
    for (int u = 0; u < (int)a.size(); ++u)
      if (!(done >> u & 1)) {
        auto b = best(l, u);
        if (b.empty())
          rec(l, done | 1u << u, out, seen);
        for (int x : b) {
          Lab k = l;
          k[u]  = x;
          mc::transition();
          rec(k, done | 1u << u, out, seen);
        }
      }
  }
  // can a pass from l leave l unchanged?
  bool stable(const Lab& l) const {
    for (int u = 0; u < (int)a.size(); ++u) {
      auto b = best(l, u);
      if (!b.empty() && !b.count(l[u]))
        return false;
    }
    return true;
  }
  // possible results with a limit of k passes
  std::set<Lab> results(const Lab& l, int k) const {
    std::set<Lab> cur{l}, fin;
    for (int i = 0; i < k; ++i) {
      std::set<Lab> nxt;
      for (auto& s : cur) {
        std::set<Lab> o;
        pass(s, o);
        for (auto& t : o) {
          if (t == s)
            fin.insert(t); // nothing changed: stop (a change there and back within one pass is impossible: one visit each)
          else
            nxt.insert(t);
        }
      }
      cur = nxt;
    }
    fin.insert(cur.begin(), cur.end());
    return fin;
  }
};

template <class L, class G>
void explore(mc::Suite& S, const G& g, const Adj& a, const Lab& l0, int empty, int maxit, int budget) {
  Model m{a, empty};
  auto  ref = m.results(l0, maxit);
  auto  from = [](int x) {
    if constexpr (std::is_same_v<L, std::string>)
      return std::string(x == INT_MIN ? 0 : x + 1, 'a');
    else
      return (L)x;
  };
  Script        s;
  s.n      = (int)a.size();
  s.budget = budget;
  std::set<Lab> seen;
  bool          complete = true;
  do {
    s.pos = 0;
    std::vector<L> lab;
    for (int x : l0)
      lab.push_back(from(x));
    lab.push_back(from(9)); // guard element behind the last vertex
    Gen24 rng{&s};
    if (empty == INT_MIN)
      graph::label_propagation(g, lab, rng, (size_t)maxit);
    else
      graph::label_propagation(g, lab, from(empty), rng, (size_t)maxit);
    mc::trace();
    Lab r;
    for (size_t i = 0; i < l0.size(); ++i) {
      int x = -99;
      for (int y : l0)
        if (lab[i] == from(y))
          x = y;
      MC_CHECK(x != -99, "vertex " << i << " got a label that no vertex had initially");
      r.push_back(x);
    }
    MC_CHECK(lab.back() == from(9), "element behind the last label written");
    MC_CHECK(ref.count(r), "labels " << mc::str(l0) << " became " << mc::str(r) << " with limit " << maxit << " and answers " << mc::str(s.choice)
                                     << ", which no order and tie-break of the rule can produce");
    if (seen.insert(r).second)
      mc::state(mc::Hash().range(r).range(l0).add(maxit).h);
    complete &= (int)s.pos <= budget;
  } while (advance(s));
  if (complete && a.size() <= 3) { // no answer was left out: no outcome may be either
    MC_CHECK(seen == ref, "labels " << mc::str(l0) << ": the rule can produce " << ref.size() << " results, every answer of the generator explored gives only " << seen.size());
    mc::count("cases_with_all_outcomes_reached");
  }
  mc::outcome(mc::Hash().add(seen.size()).add(ref.size()).h);
  mc::count("reachable_results_in_model", ref.size());
  mc::count("reachable_results_observed", seen.size());
}
template <class F>
void labelings(int n, int k, F&& f) { // restricted growth strings (labels up to renaming), k values at most
  Lab l(n, 0);
  std::function<void(int, int)> rec = [&](int i, int mx) {
    if (i == n) {
      f(l);
      return;
    }
    for (int x = 0; x <= std::min(mx, k - 1); ++x) {
      l[i] = x;
      rec(i + 1, std::max(mx, x + 1));
    }
  };
  rec(0, 0);
}
template <class G, class L>
void one(mc::Suite& S, const EL& el, const char* cn, bool directed, int maxit, int budget) {
  labelings(el.n, 4, [&](const Lab& l) {
    const int kinds = l.empty() ? 0 : *std::max_element(l.begin(), l.end()) + 1;
    for (int e = -1; e < kinds; ++e)
      S.run_case(
            mc::Hash().add(el.key()).add(std::string(cn)).range(l).add(e + 1).add(maxit).h,
            [&] { return std::string(cn) + " " + el.str() + " labels=" + mc::str(l) + " empty=" + std::to_string(e) + " limit=" + std::to_string(maxit); },
            [&] {
              const G g = make<G>(Ual<G> || directed ? el : gen::both(el));
              auto    a = read_adj(g);
              if (a.size() != l.size())
                return; // representation without trailing isolated vertices
              input_state(a);
              if (el.m())
                S.nontrivial();
              explore<L>(S, g, a, l, e < 0 ? INT_MIN : e, maxit, budget);
            });
  });
}
using V = vov_t<void>;
#if PART == 1
MC_SUITE(one_pass) { // every answer sequence of a whole pass
  for (int n = 0; n <= 2; ++n)
    gen::digraphs(n, true, [&](const EL& el) {
      one<V, int>(S, el, "vov", true, 1, 99);
      one<V, int>(S, el, "vov", true, 2, mc::tier(5, 99));
    });
  gen::ugraphs(3, true, [&](const EL& el) {
    one<V, int>(S, el, "vov", false, 0, 4);
    one<V, int>(S, el, "vov", false, 1, 99);
  });
  gen::digraphs(3, true, [&](const EL& el) { one<V, int>(S, el, "vov/directed", true, 1, 99); });
}
#elif PART == 2
MC_SUITE(passes) { // several passes: stopping and the limit
  gen::ugraphs(3, true, [&](const EL& el) {
    one<V, int>(S, el, "vov", false, 2, mc::tier(3, 5));
    one<V, std::string>(S, el, "vov/string", false, 3, mc::tier(2, 4));
  });
  gen::ugraphs(4, false, [&](const EL& el) { one<V, int>(S, el, "vov", false, 1, mc::tier(4, 5)); });
}
#else
MC_SUITE(containers) {
  auto f = [&](const EL& el) {
    one<ual_t<int>, short>(S, el, "ual", false, 1, 3);
    one<vol_t<int, size_t>, int>(S, el, "vol", false, 2, 3);
    one<csr_t<int, uint8_t>, uint8_t>(S, el, "csr", false, 1, 3);
    one<vvi_t, int>(S, el, "vvi", false, 2, 2);
    one<dov_t<int, int>, int>(S, el, "dov", false, 1, 3);
  };
  for (int n = 1; n <= 2; ++n)
    gen::ugraphs(n, true, f);
  gen::ugraphs(3, false, f);
  for (int k = 3; k <= 3; ++k)
    gen::uedge_sequences(3, k, f);
}
MC_SUITE(to_convergence) { // default generator and no limit: ends in a labeling the rule can leave unchanged
  gen::families(60, [&](const EL& el) {
    for (unsigned seed : {1u, 7u, 42u, 2u, 3u, 11u, 1234567u}) {
      if (seed != 1 && seed != 7 && seed != 42 && !mc::thorough()) continue;
      S.run_case(mc::Hash().add(el.key()).add(seed).h, [&] { return "seed " + std::to_string(seed) + " " + el.str(); }, [&] {
        S.nontrivial();
        const V g = make<V>(gen::both(el));
        auto    a = read_adj(g);
        for (int mode = 0; mode < 2; ++mode) {
          Lab l(a.size());
          for (size_t i = 0; i < l.size(); ++i)
            l[i] = mode ? (i % 3 ? -1 : (int)i) : (int)(i % 5);
          std::set<int>     init(l.begin(), l.end());
          std::minstd_rand0 r(seed);
          if (mode)
            graph::label_propagation(g, l, -1, r);
          else
            graph::label_propagation(g, l, r);
          mc::trace();
          Model m{a, mode ? -1 : INT_MIN};
          MC_CHECK(m.stable(l), "stopped at labels " << mc::str(l) << " although a pass must change them");
          for (int x : l)
            MC_CHECK(init.count(x), "label " << x << " appeared from nowhere");
        }
      });
    }
  });
}
#endif

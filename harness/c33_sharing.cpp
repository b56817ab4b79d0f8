// C33: readers may share a graph.  Every graph is built in memory of its own, which is then write-protected: an operation that
// writes to it dies on the spot.  Every operation is run twice and must answer alike, and is then preempted at every scheduling
// point (callbacks, edge accesses and key comparisons of instrumented graphs) for another reader, on another thread, to run any
// other operation of the catalogue to the end: both must answer what they answer alone.
#include "catalogue.hpp"
#include <condition_variable>
#include <mutex>
#include <thread>
using namespace cat;
using zoo::EL;

namespace {
struct Worker { // the other reader's thread
  std::mutex              m;
  std::condition_variable cv;
  std::function<void()>*  job  = nullptr;
  bool                    quit = false;
  std::thread             t;
  Worker() : t([this] { loop(); }) {}
  ~Worker() {
    {
      std::unique_lock l(m);
      quit = true;
      cv.notify_all();
    }
    t.join();
  }
  void loop() {
    std::unique_lock l(m);
    for (;;) {
      cv.wait(l, [&] { return quit || job; });
      if (quit) return;
      (*job)();
      job = nullptr;
      cv.notify_all();
    }
  }
  void run(std::function<void()>& f) {
    std::unique_lock l(m);
    job = &f;
    cv.notify_all();
    cv.wait(l, [&] { return !job; });
  }
};
Worker& worker() {
  static Worker* w = [] {
    mc::Untracked u;
    return new Worker; // outlives everything
  }();
  return *w;
}
constexpr size_t ArenaSize = 1 << 20;
void             arena() {
  if (mc::g_arena) return;
  void* p = mmap(nullptr, ArenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) mc::fail("mmap");
  mc::g_arena = (char*)p, mc::g_arena_size = ArenaSize;
}
template <class G>
struct Locked { // a graph in write-protected memory
  G* g;
  template <class Mk>
  explicit Locked(Mk&& mk) {
    arena();
    mc::g_arena_at = 0;
    mc::g_arena_on = true;
    g              = new G(mk());
    mc::g_arena_on = false;
    mprotect(mc::g_arena, ArenaSize, PROT_READ);
  }
  ~Locked() {
    mprotect(mc::g_arena, ArenaSize, PROT_READ | PROT_WRITE);
    delete g;
  }
};
struct Sched {
  long                  at = -1, point = 0;
  std::function<void()> job;
  bool                  busy = false;
};
Sched sch;
void  hook() {
  if (sch.busy) return; // the other reader is not preempted
  if (sch.point++ == sch.at) {
    sch.busy = true;
    worker().run(sch.job);
    sch.busy = false;
  }
}
std::string guarded(auto&& f) {
  try {
    f();
    return {};
  } catch (const std::exception& e) {
    return e.what();
  } catch (const mc::Fail& e) {
    return e.msg;
  } catch (...) {
    return "an exception";
  }
}
template <class R, int Sel, bool Const>
void sharing(mc::Suite& S, const char* rn, size_t pair_edges, size_t deep_edges) {
  using G  = typename R::G;
  using GR = std::conditional_t<Const, const G, G>;
  static auto all = ops<R, GR, Sel>();
  auto run = [&](const EL& el, bool pairs) {
    if (R::uniq && zoo::parallel(el)) return;
    for (size_t o = 0; o < all.size(); ++o)
      for (int s = 0; s < (all[o].per_vertex ? el.n : 1); ++s)
        S.run_case(
              mc::Hash().add(std::string(rn)).add(el.key()).add(o).add(s).add(Const).add(pairs).h,
              [&] { return std::string(rn) + (Const ? " const" : "") + " " + el.str() + " : " + all[o].name + " (vertex " + std::to_string(s) + ")"; },
              [&] {
                worker();
                Locked<G> lk([&] { return R::make(el); });
                GR&       g = *lk.g;
                const uint64_t before = snapshot<R>(g);
                mc::state(before);
                auto answer = [&](size_t op, int v) {
                  Cx c;
                  c.s = v;
                  all[op].run(g, c);
                  return c.h.h;
                };
                flt::g_hook = nullptr;
                const uint64_t a = answer(o, s);
                sch.at = -1, sch.point = 0, sch.busy = false;
                flt::g_hook    = hook;
                const uint64_t b = answer(o, s);
                flt::g_hook    = nullptr;
                const long points = sch.point;
                MC_CHECK(a == b, "the second run answers differently");
                MC_CHECK(snapshot<R>(g) == before, "the graph reads differently afterwards");
                mc::transition(2), mc::trace();
                mc::outcome(a);
                if (el.e.size()) S.nontrivial();
                if (!pairs) return;
                for (size_t o2 = 0; o2 < all.size(); ++o2)
                  for (int s2 = 0; s2 < (all[o2].per_vertex ? el.n : 1); s2 += std::max(1, el.n - 1)) {
                    const uint64_t alone = answer(o2, s2);
                    for (long k = 0; k < points; ++k) {
                      uint64_t    other = 0;
                      std::string err;
                      sch.job = [&] { err = guarded([&] { other = answer(o2, s2); }); };
                      sch.at = k, sch.point = 0, sch.busy = false;
                      flt::g_hook      = hook;
                      const uint64_t x = answer(o, s);
                      flt::g_hook      = nullptr;
                      mc::trace(), mc::transition(2), mc::count("schedules");
                      MC_CHECK(sch.point > k, "the preemption point was not reached again");
                      MC_CHECK(err.empty(), "preempted at point " << k << ", the other reader (" << all[o2].name << " at " << s2 << ") got: " << err);
                      MC_CHECK(other == alone, "preempted at point " << k << ", the other reader (" << all[o2].name << " at " << s2 << ") gets another answer");
                      MC_CHECK(x == a, "preempted at point " << k << " for " << all[o2].name << " at " << s2 << ", the answer is another");
                    }
                    sch.job = nullptr;
                  }
                MC_CHECK(snapshot<R>(g) == before, "the graph reads differently after sharing it");
              });
  };
  bool seq = false;
  auto num = [&](EL g) {
    for (size_t i = 0; i < g.e.size(); ++i)
      g.e[i].w = 100 + (int)i;
    run(g, g.n > 1 && g.e.size() <= (g.n == 2 ? pair_edges : deep_edges) && (!seq || mc::thorough() || (g.n == 2 && zoo::parallel(g))));
  };
  for (int n = 1; n <= 3; ++n)
    gen::digraphs(n, true, num);
  seq = true;
  gen::edge_sequences(2, mc::tier(2, 3), num);
  gen::edge_sequences(3, mc::tier(2, 3), num);
  seq = false;
  if (mc::thorough()) gen::digraphs(4, false, num);
}
struct Hk { // a key that is compared through a scheduling point
  int x = 0;
  Hk() = default;
  explicit Hk(int x) : x(x) {}
  explicit operator uint64_t() const { return (uint64_t)x; }
  bool operator==(const Hk& o) const {
    flt::tick();
    return x == o.x;
  }
  auto operator<=>(const Hk& o) const {
    flt::tick();
    return x <=> o.x;
  }
};
} // namespace
template <>
struct std::hash<Hk> {
  size_t operator()(const Hk& k) const {
    flt::tick();
    return std::hash<int>{}(k.x);
  }
};
// pairs: every pair of operations at every point, on the graphs with 2 (3) vertices and at most PE (DE) edges
#define SH(NAME, SEL, PE, DE, ...)                                                                                     \
  MC_SUITE(NAME) { sharing<__VA_ARGS__, SEL, false>(S, #NAME, mc::tier(PE, 4), mc::tier(DE, DE + 1)); }
#define SHC(NAME, SEL, PE, DE, ...)                                                                                    \
  MC_SUITE(NAME##_const) { sharing<__VA_ARGS__, SEL, true>(S, #NAME, mc::tier(PE, 4), mc::tier(DE, DE + 1)); }
using zoo::Indexed, zoo::Keyed, zoo::Lib;
#if PART == 1
SH(vov_in, All, 2, 1, Lib<zoo::vov_z<uint32_t, true>>)
#elif PART == 2
SH(ual, All, 2, 1, Lib<zoo::ual_z<>>)
#elif PART == 3
SH(csr, All, 2, 1, Lib<zoo::csr_z<>>)
#elif PART == 4
SH(vec_te, All, 2, 1, Indexed<std::vector<std::vector<Te>>>)
#elif PART == 5
SH(map_hk, Queries | BasicViews, 2, 1, Keyed<std::map<Hk, std::vector<std::pair<Hk, int>>>>)
SH(umap_hk, Queries | BasicViews, 2, 1, Keyed<std::unordered_map<Hk, std::list<std::pair<Hk, int>>>>)
SH(mov_in_s, Queries | BasicViews, 2, 1, Lib<zoo::mov_z<std::string, true>>)
#elif PART == 6
SHC(vol, All, 2, 1, Lib<zoo::vol_z<>>)
SHC(uos_s, Queries | BasicViews, 2, 1, Lib<zoo::uos_z<std::string>, true, false>)
#elif PART == 7
SHC(ual, All, 2, 1, Lib<zoo::ual_z<>>)
#elif PART == 8
SHC(csr, All, 2, 1, Lib<zoo::csr_z<>>)
#elif PART == 9
SHC(deq_te, All, 2, 1, Indexed<std::deque<std::list<Te>>>)
#endif

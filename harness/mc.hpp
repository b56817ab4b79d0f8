// mc.hpp - tiny bounded model-checking runtime.
//
// A harness binary registers suites.  A suite enumerates *cases* (inputs, histories, schedules) and hands each one to
// run_case(key, describe, body).  Cases are partitioned over shards by key, so the union over all shards is exactly the
// enumerated space and keys are counted without double counting.  Every case is executed on the real code, its
// allocations are balanced (leak check), a CPU-time watchdog turns non-termination into a violation, and
// any sanitizer report/abort is attributed to the case through a small mmapped status record.
#pragma once
#include <atomic>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc {

struct Fail {
  std::string msg;
};
struct InjectedFault {};

// ---------------------------------------------------------------- allocation accounting and fault injection
inline long g_live       = 0;  // live operator-new blocks
inline long g_alloc_seq  = 0;  // allocations since last reset
inline long g_fail_at    = -1; // index of allocation to fail (-1: none)
inline bool g_fault_fired = false;

// an arena for objects whose memory is to be write-protected
inline char*       g_arena    = nullptr;
inline std::size_t g_arena_at = 0, g_arena_size = 0;
inline bool        g_arena_on = false;

inline void* counted_alloc(std::size_t n, std::size_t al = 0) {
  if (g_fail_at >= 0 && g_alloc_seq == g_fail_at) {
    ++g_alloc_seq;
    g_fault_fired = true;
    throw std::bad_alloc();
  }
  ++g_alloc_seq;
  if (g_arena_on) {
    const std::size_t a = al > 16 ? al : 16;
    g_arena_at          = (g_arena_at + a - 1) / a * a;
    if (g_arena_at + n > g_arena_size) throw std::bad_alloc();
    void* p = g_arena + g_arena_at;
    g_arena_at += n ? n : 1;
    ++g_live;
    return p;
  }
  void* p = al > alignof(std::max_align_t) ? std::aligned_alloc(al, (n + al - 1) / al * al) : std::malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  ++g_live;
  return p;
}
inline void counted_free(void* p) noexcept {
  if (p) {
    --g_live;
    if (p >= g_arena && p < g_arena + g_arena_size) return;
    std::free(p);
  }
}

// ---------------------------------------------------------------- hashing
inline uint64_t mix(uint64_t x) {
  x ^= x >> 33;
  x *= 0xff51afd7ed558ccdULL;
  x ^= x >> 33;
  x *= 0xc4ceb9fe1a85ec53ULL;
  x ^= x >> 33;
  return x;
}
struct Hash {
  uint64_t h = 0x9e3779b97f4a7c15ULL;
  Hash&    add(uint64_t v) {
    h = mix(h ^ v) + 0x9e3779b97f4a7c15ULL * 31;
    return *this;
  }
  Hash& add(const std::string& s) {
    for (unsigned char c : s)
      h = (h ^ c) * 0x100000001b3ULL;
    return add(s.size());
  }
  template <class R>
  Hash& range(const R& r) {
    uint64_t n = 0;
    for (auto&& x : r) {
      add(static_cast<uint64_t>(x));
      ++n;
    }
    return add(n ^ 0xabcdef);
  }
};

struct Status { // mmapped, read by the driver after a crash
  volatile uint64_t case_no;
  volatile uint32_t in_case;
  volatile uint32_t hang;
  char              suite[112];
};

struct Stats {
  uint64_t evaluations = 0, nontrivial = 0, checks = 0, transitions = 0, traces = 0, violations = 0, enumerated = 0;
};

struct Options {
  uint64_t    shard = 0, nshards = 1;
  bool        thorough = false;
  std::string out, status, only_suite;
  uint64_t    only_case = 0;
  bool        replay    = false;
  uint64_t    max_viol  = 20;
  uint64_t    seed      = 1;
};

inline Options                      opt;
inline Status*                      g_status = nullptr;
inline Stats                        g_total;
inline std::map<std::string, Stats> g_suite_stats;
inline std::unordered_set<uint64_t> g_states;   // distinct model states seen
inline std::unordered_set<uint64_t> g_outcomes; // distinct outcomes (vacuity guard)
inline std::unordered_set<uint64_t> g_keys;     // distinct non-trivial case keys
inline std::vector<std::string>     g_samples;
inline std::vector<std::string>     g_violation_lines;
inline std::map<std::string, uint64_t> g_counters;

inline bool thorough() { return opt.thorough; }
// pick bound by tier
template <class T>
inline T tier(T quick, T deep) {
  return opt.thorough ? deep : quick;
}

[[noreturn]] inline void fail(const std::string& m) { throw Fail{m}; }

// nothrow-by-design counter bump
inline void chk(bool ok, const char* m) {
  ++g_total.checks;
  if (!ok)
    throw Fail{m};
}
template <class F>
inline void chkf(bool ok, F&& describe) {
  ++g_total.checks;
  if (!ok)
    throw Fail{describe()};
}
#define MC_CHECK(cond, ...)                                                                                            \
  do {                                                                                                                 \
    ++::mc::g_total.checks;                                                                                            \
    if (!(cond)) {                                                                                                     \
      std::ostringstream mc_os_;                                                                                       \
      mc_os_ << "check failed: " #cond " : " << __VA_ARGS__;                                                           \
      throw ::mc::Fail{mc_os_.str()};                                                                                  \
    }                                                                                                                  \
  } while (0)

// harness bookkeeping must not disturb leak accounting or fault injection
struct Untracked {
  long l = g_live, s = g_alloc_seq, f = g_fail_at;
  bool a = g_arena_on;
  Untracked() {
    g_fail_at  = -1;
    g_arena_on = false;
  }
  ~Untracked() {
    g_arena_on  = a;
    g_live      = l;
    g_alloc_seq = s;
    g_fail_at   = f;
  }
};
inline void state(uint64_t h) {
  Untracked u;
  if (g_states.size() < 4000000)
    g_states.insert(h);
}
inline void transition(uint64_t n = 1) { g_total.transitions += n; }
inline void outcome(uint64_t h) {
  Untracked u;
  if (g_outcomes.size() < 2000000)
    g_outcomes.insert(h);
}
inline void trace() { ++g_total.traces; }
inline void count(const char* name, uint64_t n = 1) {
  Untracked u;
  g_counters[name] += n;
}

template <class T>
std::string str(const T& r) {
  std::ostringstream os;
  os << '[';
  bool first = true;
  for (auto&& x : r) {
    if (!first)
      os << ',';
    first = false;
    if constexpr (requires { os << +x; })
      os << +x;
    else
      os << x;
  }
  os << ']';
  return os.str();
}

struct Suite {
  std::string name;
  uint64_t    name_hash = 0;
  uint64_t    counter   = 0;
  bool        nontrivial_flag = false;
  Stats       before;

  bool stop() const { return g_total.violations >= opt.max_viol; }
  void nontrivial() { nontrivial_flag = true; }

  // key identifies the case inside the suite (used for sharding and distinctness)
  template <class D, class B>
  void run_case(uint64_t key, D&& describe, B&& body) {
    const uint64_t no = counter++;
    ++g_total.enumerated;
    const uint64_t k = mix(key ^ name_hash);
    if (opt.replay) {
      if (no != opt.only_case)
        return;
    } else if (k % opt.nshards != opt.shard) {
      return;
    }
    if (stop())
      return;
    if (opt.replay) {
      std::printf("CASE suite=%s case=%llu %s\n", name.c_str(), (unsigned long long)no, describe().c_str());
      std::fflush(stdout);
    }
    ++g_total.evaluations;
    nontrivial_flag    = false;
    g_status->case_no  = no;
    g_status->in_case  = 1;
    std::string err;
    bool        failed = false;
    const long  live0  = g_live;
    try {
      body();
    } catch (const Fail& f) {
      failed = true;
      err    = f.msg;
    } catch (const std::exception& e) {
      failed = true;
      err    = std::string("unexpected exception: ") + e.what();
    } catch (...) {
      failed = true;
      err    = "unexpected exception of unknown type";
    }
    g_fail_at = -1;
    if (!failed && g_live != live0) {
      failed = true;
      err    = "memory leak: " + std::to_string(g_live - live0) + " block(s) still allocated after the case";
    }
    g_status->in_case = 0;
    if (nontrivial_flag) {
      ++g_total.nontrivial;
      if (g_keys.size() < 8000000)
        g_keys.insert(k);
      if (g_samples.size() < 6 && (g_total.nontrivial % 997) == 1)
        g_samples.push_back(name + ": " + describe());
    }
    if (failed) {
      ++g_total.violations;
      std::string line = "suite=" + name + " case=" + std::to_string(no) + " " + describe() + " :: " + err;
      g_violation_lines.push_back(line);
      std::printf("FAILED %s\n", line.c_str());
      std::fflush(stdout);
    }
  }
};

using SuiteFn = void (*)(Suite&);
inline std::vector<std::pair<std::string, SuiteFn>>& registry() {
  static std::vector<std::pair<std::string, SuiteFn>> r;
  return r;
}
struct Reg {
  Reg(const char* n, SuiteFn f) { registry().push_back({n, f}); }
};
#define MC_SUITE(name)                                                                                                 \
  static void      mc_suite_##name(::mc::Suite& S);                                                                    \
  static ::mc::Reg mc_reg_##name(#name, &mc_suite_##name);                                                             \
  static void      mc_suite_##name([[maybe_unused]] ::mc::Suite& S)

// ---------------------------------------------------------------- watchdog
inline uint64_t g_wd_case  = ~0ull;
inline int      g_wd_ticks = 0;
inline int      g_wd_limit = 40; // CPU seconds without progress inside one case
inline void     on_tick(int) {
  if (!g_status->in_case) {
    g_wd_ticks = 0;
    return;
  }
  if (g_status->case_no != g_wd_case) {
    g_wd_case  = g_status->case_no;
    g_wd_ticks = 0;
    return;
  }
  if (++g_wd_ticks >= g_wd_limit) {
    g_status->hang = 1;
    const char m[] = "HANG: no progress within CPU budget of one case\n";
    (void)!write(1, m, sizeof m - 1);
    _exit(98);
  }
}

inline std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 32) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else
      o += c;
  }
  return o;
}

inline void dump_hashes(const std::string& path, const std::unordered_set<uint64_t>& s) {
  FILE* f = std::fopen(path.c_str(), "wb");
  if (!f)
    return;
  for (uint64_t h : s)
    std::fwrite(&h, 8, 1, f);
  std::fclose(f);
}

inline int main_impl(int argc, char** argv) {
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto        v = [&] { return std::string(argv[++i]); };
    if (a == "--shard")
      opt.shard = std::stoull(v());
    else if (a == "--nshards")
      opt.nshards = std::stoull(v());
    else if (a == "--tier")
      opt.thorough = v() == "thorough";
    else if (a == "--out")
      opt.out = v();
    else if (a == "--status")
      opt.status = v();
    else if (a == "--suite")
      opt.only_suite = v();
    else if (a == "--case") {
      opt.only_case = std::stoull(v());
      opt.replay    = true;
    } else if (a == "--max-viol")
      opt.max_viol = std::stoull(v());
    else if (a == "--hang")
      g_wd_limit = std::stoi(v());
    else if (a == "--list") {
      for (auto& [n, f] : registry())
        std::printf("%s\n", n.c_str());
      return 0;
    }
  }
  static Status dummy{};
  g_status = &dummy;
  if (!opt.status.empty()) {
    int fd = ::open(opt.status.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0 && ::ftruncate(fd, sizeof(Status)) == 0) {
      void* p = ::mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED)
        g_status = static_cast<Status*>(p);
    }
  }
  struct sigaction sa {};
  sa.sa_handler = on_tick;
  sa.sa_flags   = SA_RESTART;
  sigaction(SIGVTALRM, &sa, nullptr);
  itimerval tv{{1, 0}, {1, 0}};
  setitimer(ITIMER_VIRTUAL, &tv, nullptr);

  for (auto& [n, f] : registry()) {
    if (!opt.only_suite.empty() && n != opt.only_suite)
      continue;
    Suite S;
    S.name      = n;
    S.name_hash = Hash().add(n).h;
    std::snprintf(g_status->suite, sizeof g_status->suite, "%s", n.c_str());
    g_status->case_no = ~0ull;
    Stats b           = g_total;
    f(S);
    Stats d         = g_total;
    d.evaluations -= b.evaluations;
    d.nontrivial -= b.nontrivial;
    d.checks -= b.checks;
    d.transitions -= b.transitions;
    d.traces -= b.traces;
    d.violations -= b.violations;
    d.enumerated -= b.enumerated;
    g_suite_stats[n] = d;
  }
  if (!opt.out.empty()) {
    FILE* f = std::fopen(opt.out.c_str(), "w");
    auto  P = [&](const Stats& s) {
      std::fprintf(f,
                    "{\"evaluations\":%llu,\"nontrivial\":%llu,\"checks\":%llu,\"transitions\":%llu,\"traces\":%llu,"
                     "\"violations\":%llu,\"enumerated\":%llu}",
                   (unsigned long long)s.evaluations, (unsigned long long)s.nontrivial, (unsigned long long)s.checks,
                   (unsigned long long)s.transitions, (unsigned long long)s.traces, (unsigned long long)s.violations,
                   (unsigned long long)s.enumerated);
    };
    std::fprintf(f, "{\"total\":");
    P(g_total);
    std::fprintf(f, ",\"distinct_keys\":%llu,\"suites\":{", (unsigned long long)g_keys.size());
    bool first = true;
    for (auto& [n, s] : g_suite_stats) {
      std::fprintf(f, "%s\"%s\":", first ? "" : ",", n.c_str());
      first = false;
      P(s);
    }
    std::fprintf(f, "},\"counters\":{");
    first = true;
    for (auto& [n, c] : g_counters) {
      std::fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(n).c_str(), (unsigned long long)c);
      first = false;
    }
    std::fprintf(f, "},\"samples\":[");
    for (size_t i = 0; i < g_samples.size(); ++i)
      std::fprintf(f, "%s\"%s\"", i ? "," : "", jesc(g_samples[i]).c_str());
    std::fprintf(f, "],\"violations\":[");
    for (size_t i = 0; i < g_violation_lines.size(); ++i)
      std::fprintf(f, "%s\"%s\"", i ? "," : "", jesc(g_violation_lines[i]).c_str());
    std::fprintf(f, "]}\n");
    std::fclose(f);
    dump_hashes(opt.out + ".states", g_states);
    dump_hashes(opt.out + ".outcomes", g_outcomes);
  }
  if (opt.replay && g_total.evaluations == 0) {
    std::printf("no such case\n");
    return 3;
  }
  return g_total.violations ? 1 : 0;
}

} // namespace mc

// Global replacement so that every allocation made by the code under test is counted and can be failed.
// Defined in exactly one TU per binary: every harness is a single TU.
void* operator new(std::size_t n) { return mc::counted_alloc(n); }
void* operator new[](std::size_t n) { return mc::counted_alloc(n); }
void* operator new(std::size_t n, std::align_val_t a) { return mc::counted_alloc(n, (std::size_t)a); }
void* operator new[](std::size_t n, std::align_val_t a) { return mc::counted_alloc(n, (std::size_t)a); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept {
  try {
    return mc::counted_alloc(n);
  } catch (...) {
    return nullptr;
  }
}
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept {
  try {
    return mc::counted_alloc(n);
  } catch (...) {
    return nullptr;
  }
}
void operator delete(void* p) noexcept { mc::counted_free(p); }
void operator delete[](void* p) noexcept { mc::counted_free(p); }
void operator delete(void* p, std::size_t) noexcept { mc::counted_free(p); }
void operator delete[](void* p, std::size_t) noexcept { mc::counted_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { mc::counted_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { mc::counted_free(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { mc::counted_free(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { mc::counted_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { mc::counted_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { mc::counted_free(p); }

int main(int argc, char** argv) { return mc::main_impl(argc, argv); }

// fault.hpp - exhaustive single-fault exploration: an operation is first run without faults to count its memory allocations
// and the invocations of the callbacks it was given, and is then run again from a fresh state once per allocation and once per
// invocation, with exactly that one failing.
#pragma once
#include "mc.hpp"
#include <memory>
namespace flt {
struct Boom {
  long at;
};
inline long g_calls = 0, g_throw_at = -1;
inline bool g_thrown = false;
inline void (*g_hook)() = nullptr; // a scheduling point (see c33_sharing.cpp)
// every user-supplied callback calls this
inline void tick() {
  if (g_hook) g_hook();
  if (g_throw_at >= 0 && g_calls == g_throw_at) {
    ++g_calls;
    g_thrown = true;
    throw Boom{g_throw_at};
  }
  ++g_calls;
}
inline void disarm() {
  mc::g_fail_at = -1;
  g_throw_at    = -1;
}
enum Result { Done, Failed };

// mk()            -> a state (leaked blocks are counted from before it is made to after it is destroyed)
// op(state)       -> the operation
// after(state, r) -> checks; r == Done: the operation returned (its whole result must be right), Failed: it threw
template <class Mk, class Op, class After>
void sweep(Mk&& mk, Op&& op, After&& after) {
  long na = 0, nc = 0;
  disarm();
  {
    auto st        = mk();
    mc::g_alloc_seq = 0;
    g_calls        = 0;
    op(*st);
    na = mc::g_alloc_seq, nc = g_calls;
    after(*st, Done);
  }
  mc::count("operations");
  for (int kind = 0; kind < 2; ++kind)
    for (long k = 0; k < (kind ? nc : na); ++k) {
      if (mc::opt.replay) std::printf("  %s %ld of %ld fails\n", kind ? "callback" : "allocation", k, kind ? nc : na), std::fflush(stdout);
      const long  live = mc::g_live;
      std::string where;
      auto        blame = [&](const std::string& m) {
        disarm();
        mc::fail(std::string(kind ? "callback invocation " : "allocation ") + std::to_string(k) + " fails: " + m);
      };
      Result r = Done;
      {
        auto st          = mk();
        mc::g_alloc_seq   = 0;
        mc::g_fault_fired = g_thrown = false;
        g_calls          = 0;
        (kind ? g_throw_at : mc::g_fail_at) = k;
        const char* bad = nullptr;
        try {
          op(*st);
        } catch (const Boom& b) {
          r = Failed;
          if (!kind) bad = "a callback exception out of nowhere";
        } catch (const std::bad_alloc&) {
          r = Failed;
          if (kind) bad = "the callback's exception was replaced by std::bad_alloc";
        } catch (const mc::Fail& f) {
          disarm();
          blame(f.msg);
        } catch (const std::exception& e) {
          disarm();
          blame(std::string("another exception reached the caller: ") + e.what());
        } catch (...) {
          disarm();
          blame("another exception reached the caller");
        }
        disarm();
        if (bad) blame(bad);
        if (kind && !g_thrown) blame("the callback was not reached again: the operation is not repeatable");
        if (kind && r == Done) blame("the callback's exception did not reach the caller");
        if (!kind && !mc::g_fault_fired) blame("the allocation was not reached again: the operation is not repeatable");
        mc::count(r == Done ? "faults_absorbed" : (kind ? "callback_faults" : "allocation_faults"));
        try {
          after(*st, r);
        } catch (const mc::Fail& f) {
          blame(f.msg);
        } catch (const std::exception& e) {
          blame(std::string("afterwards: unexpected exception: ") + e.what());
        }
      }
      mc::transition();
      mc::trace();
      if (mc::g_live != live) blame("memory leak: " + std::to_string(mc::g_live - live) + " block(s)");
    }
}
} // namespace flt

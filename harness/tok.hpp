// tok.hpp - value types and ids used by the container harnesses.
#pragma once
#include "mc.hpp"
#include <compare>
#include <string>
namespace da {
// A value that owns memory and shows when it has been moved away: use after move, double release and leaks all surface.
struct Tok {
  int* p = nullptr;
  Tok() : p(new int(0)) {}
  Tok(int v) : p(new int(v)) {}
  Tok(const Tok& o) : p(new int(o.get())) {}
  Tok(Tok&& o) noexcept : p(o.p) { o.p = nullptr; }
  Tok& operator=(const Tok& o) {
    if (this != &o) {
      int v = o.get();
      if (p)
        *p = v;
      else
        p = new int(v);
    }
    return *this;
  }
  Tok& operator=(Tok&& o) noexcept {
    if (this != &o) {
      delete p;
      p   = o.p;
      o.p = nullptr;
    }
    return *this;
  }
  ~Tok() { delete p; }
  int  get() const { return p ? *p : -777; }
  auto operator<=>(const Tok& o) const { return get() <=> o.get(); }
  bool operator==(const Tok& o) const { return get() == o.get(); }
};
inline int val_of(const Tok& t) { return t.get(); }
inline int val_of(int t) { return t; }

template <class T>
constexpr bool Void = std::is_void_v<T>;
} // namespace da

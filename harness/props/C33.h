// C33: histories of lifetime operations over generators, shrink trees and lazy
// sequences whose values and callables are tracked objects.
#pragma once
#include "rcx.h"
#include <atomic>
#include <map>
#include <memory>
#include <set>

namespace c33 {
using namespace pbt;
using namespace rc;

// --- tracked objects -------------------------------------------------------
struct Boom {};
extern std::unordered_set<const void *> live;
extern std::string misuse;
extern int throwIn;
extern unsigned thrown;
inline void tick() {
  if (throwIn > 0 && --throwIn == 0) {
    thrown++;
    throw Boom();
  }
}
inline void touch(const void *p, const char *what) {
  if (misuse.empty() && !live.count(p))
    misuse = cat("an object that is not alive was ", what);
}
class Val {
public:
  explicit Val(int64_t x = 0) : m_v(new int64_t(x)) { born(); }
  Val(const Val &o) : m_v(nullptr) {
    touch(&o, "copied");
    tick();
    m_v = new int64_t(o.get());
    born();
  }
  Val(Val &&o) noexcept : m_v(o.m_v) {
    touch(&o, "moved from");
    o.m_v = nullptr;
    born();
  }
  Val &operator=(const Val &o) {
    touch(this, "assigned to");
    touch(&o, "copied");
    tick();
    int64_t *n = new int64_t(o.get());
    delete m_v;
    m_v = n;
    return *this;
  }
  Val &operator=(Val &&o) noexcept {
    touch(this, "assigned to");
    touch(&o, "moved from");
    if (this != &o) {
      delete m_v;
      m_v = o.m_v;
      o.m_v = nullptr;
    }
    return *this;
  }
  ~Val() {
    touch(this, "destroyed");
    live.erase(this);
    delete m_v;
  }
  int64_t get() const {
    touch(this, "read");
    return m_v ? *m_v : -777;
  }

private:
  void born() {
    if (!live.insert(this).second && misuse.empty())
      misuse = "an object was made where another one is alive";
  }
  int64_t *m_v;
};
inline bool operator==(const Val &a, const Val &b) { return a.get() == b.get(); }
inline bool operator!=(const Val &a, const Val &b) { return a.get() != b.get(); }
inline bool operator<(const Val &a, const Val &b) { return a.get() < b.get(); }
inline std::ostream &operator<<(std::ostream &os, const Val &v) { return os << v.get(); }
struct ValHash {
  Val salt{3};
  size_t operator()(const Val &v) const { return static_cast<size_t>(v.get() ^ salt.get()) % 11; }
};

// Wrapping arithmetic.
inline int64_t plus(int64_t a, int64_t b) {
  return static_cast<int64_t>(static_cast<uint64_t>(a) + static_cast<uint64_t>(b));
}
using Vec = std::vector<Val>;
inline int64_t code(const Val &v) { return v.get(); }
inline int64_t code(const Vec &v) {
  uint64_t h = v.size() + 1;
  for (const auto &x : v)
    h = hash64(h, static_cast<uint64_t>(x.get()));
  return static_cast<int64_t>(h);
}

// User callables; the state they own is tracked, and read at every call.
struct Own {
  Val state;
  std::unique_ptr<int64_t> heap; // dangling use shows up under ASan
  explicit Own(int64_t s) : state(s), heap(new int64_t(s)) {}
  Own(const Own &o) : state(o.state), heap(new int64_t(*o.heap)) {}
  Own(Own &&) = default;
  int64_t salt() const {
    tick();
    if (*heap != state.get() && misuse.empty())
      misuse = "the state of a callable was changed";
    return *heap;
  }
};
struct MapFn : Own {
  using Own::Own;
  Val operator()(const Val &v) const { return Val(plus(v.get(), salt())); }
  Vec operator()(const Vec &v) const {
    Vec out(v);
    out.push_back(Val(salt()));
    return out;
  }
};
struct PredFn : Own {
  using Own::Own;
  template <typename V> bool operator()(const V &v) const {
    return hash64(static_cast<uint64_t>(salt()), static_cast<uint64_t>(code(v))) % 5 != 0;
  }
};
struct KeyFn : Own {
  using Own::Own;
  Val operator()(const Val &v) const { return Val(v.get() / (1 + salt() % 3)); }
};
struct IntFn : Own {
  using Own::Own;
  Val operator()(int x) const { return Val(plus(x, salt())); }
};
struct SumFn : Own {
  using Own::Own;
  Val operator()(const Vec &v) const {
    int64_t t = salt();
    for (const auto &x : v)
      t = plus(t, x.get());
    return Val(t);
  }
};
template <typename V> struct ShrinkFn : Own {
  using Own::Own;
  Seq<V> operator()(const V &v) const {
    const MapFn f(salt());
    return seq::just(f(v), f(f(v)));
  }
};
template <typename V> struct GenFn : Own { // V -> Gen<V>, keeping a generator
  Gen<V> inner;
  GenFn(int64_t s, Gen<V> g) : Own(s), inner(std::move(g)) {}
  Gen<V> operator()(const V &v) const {
    const V copy(v);
    const MapFn f(salt());
    return gen::map(inner, [copy, f](const V &x) { return code(x) % 2 ? f(copy) : f(x); });
  }
};
template <typename V> struct ThunkFn : Own {
  V v;
  ThunkFn(int64_t s, V x) : Own(s), v(std::move(x)) {}
  V operator()() const {
    salt();
    return v;
  }
};
template <typename V> struct ShrinkableFn : Own { // V -> Shrinkable<V>
  using Own::Own;
  Shrinkable<V> operator()(const V &v) const {
    const MapFn f(salt());
    return shrinkable::just(f(v), seq::just(shrinkable::just(v)));
  }
};
template <typename V> struct SeqFn : Own { // V -> Seq<V>
  using Own::Own;
  Seq<V> operator()(const V &v) const {
    const MapFn f(salt());
    switch (code(v) & 3) {
    case 0: return Seq<V>();
    case 1: return seq::just(f(v));
    default: return seq::just(f(v), v);
    }
  }
};
template <typename V> struct MaybeFn : Own {
  using Own::Own;
  Maybe<V> operator()(const V &v) const {
    return (salt() + code(v) % 3) == 0 ? Maybe<V>() : Maybe<V>(MapFn(salt())(v));
  }
};
template <typename V> struct ZipFn : Own {
  using Own::Own;
  V operator()(const V &a, const V &b) const { return plus(salt(), code(a)) % 2 ? a : b; }
};

// --- fingerprints ----------------------------------------------------------
using Fp = std::vector<int64_t>;
const int64_t RAISED = INT64_MIN + 5, CUT = INT64_MIN + 6, OPEN = INT64_MIN + 7, CLOSE = INT64_MIN + 8;
template <typename V> void fpOf(const Shrinkable<V> &s, int depth, Fp &out) {
  try {
    out.push_back(code(s.value()));
  } catch (const GenerationFailure &) {
    out.push_back(RAISED);
  }
  if (depth == 0)
    return;
  out.push_back(OPEN);
  auto q = s.shrinks();
  for (int i = 0; i < 3; i++) {
    auto k = q.next();
    if (!k)
      break;
    fpOf(*k, depth - 1, out);
  }
  out.push_back(CLOSE);
}
} // namespace c33

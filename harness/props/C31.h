// C31: the expected display of a value, built type by type from the documented
// rules, together with a generator of values and the expected name of the type.
#pragma once
#include "rcx.h"
#include <array>
#include <cstdio>
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <stack>
#include <tuple>
#include <unordered_map>
#include <unordered_set>

namespace c31 {
using pbt::Src;

// Has both: showValue wins.
struct Both {
  int v;
  bool operator<(const Both &o) const { return v < o.v; }
  bool operator==(const Both &o) const { return v == o.v; }
};
inline void showValue(const Both &b, std::ostream &os) { os << "both:" << b.v; }
inline std::ostream &operator<<(std::ostream &os, const Both &b) { return os << "WRONG" << b.v; }
struct Streamed {
  int v;
  bool operator<(const Streamed &o) const { return v < o.v; }
  bool operator==(const Streamed &o) const { return v == o.v; }
};
inline std::ostream &operator<<(std::ostream &os, const Streamed &b) { return os << "<<" << b.v; }
struct Mute {
  int v;
  bool operator<(const Mute &o) const { return v < o.v; }
  bool operator==(const Mute &o) const { return v == o.v; }
};
// Overrides the display of standard containers of itself.
struct Grouped {
  int v;
  bool operator==(const Grouped &o) const { return v == o.v; }
  bool operator<(const Grouped &o) const { return v < o.v; }
};
inline void showValue(const Grouped &g, std::ostream &os) { os << "g" << g.v; }
inline void showValue(const std::vector<Grouped> &v, std::ostream &os) {
  os << "group of " << v.size();
}
inline void showValue(const std::pair<Grouped, int> &p, std::ostream &os) {
  os << p.second << " of g" << p.first.v;
}
// Template of the user's with an override.
template <typename T> struct Wrap {
  T v;
  bool operator==(const Wrap &o) const { return v == o.v; }
};
template <typename T> void showValue(const Wrap<T> &w, std::ostream &os) {
  os << "wrap ";
  rc::show(w.v, os);
}
// Not copyable.
struct Solo {
  int v;
  explicit Solo(int x) : v(x) {}
  Solo(Solo &&) = default;
  Solo &operator=(Solo &&) = default;
  Solo(const Solo &) = delete;
};
inline std::ostream &operator<<(std::ostream &os, const Solo &b) { return os << "solo" << b.v; }
enum Color { RED, GREEN, BLUE };
enum class Shape { ROUND, SQUARE };
struct Hash {
  size_t operator()(const Both &b) const { return static_cast<size_t>(b.v) * 31 % 7; }
  size_t operator()(const Streamed &b) const { return static_cast<size_t>(b.v) % 3; }
};
} // namespace c31

namespace c31 {
template <typename T> struct R;
// Set when a text depends on the precision of the stream.
inline bool &floats() {
  static bool f = false;
  return f;
}

template <typename T> std::string streamed(const T &x) {
  std::ostringstream os;
  os << x;
  return os.str();
}
inline std::string addr(const void *p) {
  char buf[40];
  std::snprintf(buf, sizeof buf, " (0x%llx)",
                static_cast<unsigned long long>(reinterpret_cast<uintptr_t>(p)));
  return buf;
}
inline std::string escaped(const std::string &s) {
  std::string out = "\"";
  for (size_t i = 0; i < s.size(); i++) {
    const unsigned b = static_cast<unsigned char>(s[i]);
    static const char *const hex = "0123456789ABCDEF";
    switch (b) {
    case 0: out += "\\0"; break;
    case 7: out += "\\a"; break;
    case 8: out += "\\b"; break;
    case 9: out += "\\t"; break;
    case 10: out += "\\n"; break;
    case 11: out += "\\v"; break;
    case 12: out += "\\f"; break;
    case 13: out += "\\r"; break;
    case '"': out += "\\\""; break;
    case '\\': out += "\\\\"; break;
    default:
      if (b >= 32 && b < 127)
        out += static_cast<char>(b);
      else
        (((out += "\\x") += hex[b / 16])) += hex[b % 16];
    }
  }
  return out + "\"";
}
// The string a display stands for; false if it is not one.
inline bool unescape(const std::string &t, std::string &out) {
  if (t.size() < 2 || t[0] != '"' || t[t.size() - 1] != '"')
    return false;
  size_t i = 1;
  const size_t end = t.size() - 1;
  while (i < end) {
    const char ch = t[i++];
    if (ch == '"' || static_cast<unsigned char>(ch) < 32 || static_cast<unsigned char>(ch) > 126)
      return false;
    if (ch != '\\') {
      out += ch;
      continue;
    }
    if (i >= end)
      return false;
    const char e = t[i++];
    static const std::string from = "\\\"0abfnrtv";
    static const std::string to("\\\"\0\a\b\f\n\r\t\v", 10);
    const size_t k = from.find(e);
    if (k != std::string::npos) {
      out += to[k];
    } else if (e == 'x' && i + 2 <= end) {
      int v = 0;
      for (int d = 0; d < 2; d++) {
        const char h = t[i++];
        const bool dec = h >= '0' && h <= '9', up = h >= 'A' && h <= 'F';
        if (!dec && !up)
          return false;
        v = v * 16 + (dec ? h - '0' : h - 'A' + 10);
      }
      out += static_cast<char>(v);
    } else {
      return false;
    }
  }
  return true;
}
template <typename C>
std::string bracketed(const char *open, const C &v, const char *close) {
  std::string t = open;
  bool first = true;
  for (typename C::const_iterator it = v.begin(); it != v.end(); ++it) {
    if (!first)
      t += ", ";
    first = false;
    t += R<typename C::value_type>::text(*it);
  }
  return t + close;
}
inline size_t len(Src &s) { return s.draw(5) == 5 ? s.length(40) : s.draw(4); }

#define C31_INT(T, NAME)                                                       \
  template <> struct R<T> {                                                    \
    static T make(Src &s) { return rcx::anyInt<T>(s); }                        \
    static std::string text(T v) {                                             \
      return std::is_signed<T>::value                                          \
                 ? std::to_string(static_cast<long long>(v))                   \
                 : std::to_string(static_cast<unsigned long long>(v));         \
    }                                                                          \
    static std::string name() { return NAME; }                                 \
  };
C31_INT(int, "int")
C31_INT(short, "short")
C31_INT(long, "long")
C31_INT(unsigned, "unsigned int")
C31_INT(unsigned long, "unsigned long")
C31_INT(unsigned short, "unsigned short")
C31_INT(long long, "long long")
C31_INT(char, "char")
C31_INT(unsigned char, "unsigned char")
#undef C31_INT
template <> struct R<bool> {
  static bool make(Src &s) { return s.flag(); }
  static std::string text(bool v) { return v ? "true" : "false"; }
  static std::string name() { return "bool"; }
};
template <> struct R<double> {
  static double make(Src &s) {
    return static_cast<double>(s.range(-2000000, 2000000)) / (s.flag() ? 1024.0 : 3.0);
  }
  static std::string text(double v) {
    floats() = true;
    char buf[64];
    std::snprintf(buf, sizeof buf, "%g", v); // streams: 6 significant digits
    return buf;
  }
  static std::string name() { return "double"; }
};
inline std::string anyText(Src &s) {
  std::string out;
  const size_t n = len(s);
  for (size_t i = 0; i < n; i++) {
    switch (s.draw(4)) {
    case 0: out += static_cast<char>(s.draw(255)); break;
    case 1: out += s.oneOf({'\\', '"', '\0', '\n', '\t', '\a', '\x7f', '\x1b', '\xff', '\x80'}); break;
    case 2: out += s.oneOf({'0', '1', 'a', 'b', 'n', 't', 'x', 'A', 'F', ' ', 'f'}); break;
    default: out += static_cast<char>(s.range(32, 126));
    }
  }
  return out;
}
template <> struct R<std::string> {
  static std::string make(Src &s) { return anyText(s); }
  static std::string text(const std::string &v) { return escaped(v); }
  static std::string name() { return "std::string"; }
};
template <typename CH> struct WideR {
  static std::basic_string<CH> make(Src &s) {
    std::basic_string<CH> out;
    const size_t n = len(s);
    for (size_t i = 0; i < n; i++)
      out += static_cast<CH>(s.draw(0xD7FF));
    return out;
  }
};
#define C31_USER(T, EXPECT)                                                    \
  template <> struct R<T> {                                                    \
    static T make(Src &s) { return T{static_cast<int>(s.range(-99, 99))}; }    \
    static std::string text(const T &v) {                                      \
      (void)v;                                                                 \
      return EXPECT;                                                           \
    }                                                                          \
    static std::string name() { return "c31::" #T; }                           \
  };
C31_USER(Both, "both:" + std::to_string(v.v))
C31_USER(Streamed, "<<" + std::to_string(v.v))
C31_USER(Mute, "<\?\?\?>")
C31_USER(Grouped, "g" + std::to_string(v.v))
C31_USER(Solo, "solo" + std::to_string(v.v))
#undef C31_USER
template <> struct R<Color> {
  static Color make(Src &s) { return static_cast<Color>(s.draw(2)); }
  static std::string text(Color v) { return std::to_string(static_cast<int>(v)); }
  static std::string name() { return "c31::Color"; }
};
template <> struct R<Shape> {
  static Shape make(Src &s) { return static_cast<Shape>(s.draw(1)); }
  static std::string text(Shape) { return "<\?\?\?>"; }
  static std::string name() { return "c31::Shape"; }
};
template <typename T> struct R<Wrap<T>> {
  static Wrap<T> make(Src &s) { return Wrap<T>{R<T>::make(s)}; }
  static std::string text(const Wrap<T> &w) { return "wrap " + R<T>::text(w.v); }
  static std::string name() { return "c31::Wrap<" + R<T>::name() + ">"; }
};
template <> struct R<std::vector<Grouped>> {
  static std::vector<Grouped> make(Src &s) {
    std::vector<Grouped> v;
    for (size_t n = len(s); v.size() < n;)
      v.push_back(R<Grouped>::make(s));
    return v;
  }
  static std::string text(const std::vector<Grouped> &v) {
    return "group of " + std::to_string(v.size());
  }
  static std::string name() { return "std::vector<c31::Grouped>"; }
};
template <> struct R<std::pair<Grouped, int>> {
  static std::pair<Grouped, int> make(Src &s) {
    const Grouped g = R<Grouped>::make(s);
    return std::pair<Grouped, int>(g, R<int>::make(s));
  }
  static std::string text(const std::pair<Grouped, int> &p) {
    return std::to_string(p.second) + " of g" + std::to_string(p.first.v);
  }
  static std::string name() { return "std::pair<c31::Grouped, int>"; }
};

#define C31_SEQ(TEMPL)                                                         \
  template <typename T> struct R<std::TEMPL<T>> {                              \
    static std::TEMPL<T> make(Src &s) {                                        \
      std::TEMPL<T> v;                                                         \
      for (size_t n = len(s); n > 0; n--)                                      \
        v.push_back(R<T>::make(s));                                            \
      return v;                                                                \
    }                                                                          \
    static std::string text(const std::TEMPL<T> &v) { return bracketed("[", v, "]"); } \
    static std::string name() { return "std::" #TEMPL "<" + R<T>::name() + ">"; } \
  };
C31_SEQ(vector)
C31_SEQ(deque)
C31_SEQ(list)
#undef C31_SEQ
template <typename T> struct R<std::forward_list<T>> {
  static std::forward_list<T> make(Src &s) {
    std::forward_list<T> v;
    for (size_t n = len(s); n > 0; n--)
      v.push_front(R<T>::make(s));
    return v;
  }
  static std::string text(const std::forward_list<T> &v) { return bracketed("[", v, "]"); }
  static std::string name() { return "std::forward_list<" + R<T>::name() + ">"; }
};
template <typename T, size_t N> struct R<std::array<T, N>> {
  static std::array<T, N> make(Src &s) {
    std::array<T, N> v{};
    for (auto &x : v)
      x = R<T>::make(s);
    return v;
  }
  static std::string text(const std::array<T, N> &v) { return bracketed("[", v, "]"); }
  static std::string name() {
    return "std::array<" + R<T>::name() + ", " + std::to_string(N) + ">";
  }
};
template <typename C> C setMake(Src &s) {
  C v;
  for (size_t n = len(s); n > 0; n--)
    v.insert(R<typename C::value_type>::make(s));
  return v;
}
#define C31_SET(TEMPL, ...)                                                    \
  template <typename T> struct R<std::TEMPL<T __VA_ARGS__>> {                  \
    using C = std::TEMPL<T __VA_ARGS__>;                                       \
    static C make(Src &s) { return setMake<C>(s); }                            \
    static std::string text(const C &v) { return bracketed("{", v, "}"); }     \
    static std::string name() { return "std::" #TEMPL "<" + R<T>::name() + ">"; } \
  };
C31_SET(set)
C31_SET(multiset)
C31_SET(unordered_set)
C31_SET(unordered_multiset)
C31_SET(unordered_set, , Hash)
#undef C31_SET
#define C31_MAP(TEMPL)                                                         \
  template <typename K, typename V> struct R<std::TEMPL<K, V>> {               \
    using C = std::TEMPL<K, V>;                                                \
    static C make(Src &s) {                                                    \
      C v;                                                                     \
      for (size_t n = len(s); n > 0; n--) {                                    \
        K k = R<K>::make(s);                                                   \
        v.insert(typename C::value_type(std::move(k), R<V>::make(s)));         \
      }                                                                        \
      return v;                                                                \
    }                                                                          \
    static std::string text(const C &v) { return bracketed("{", v, "}"); }     \
    static std::string name() {                                                \
      return "std::" #TEMPL "<" + R<K>::name() + ", " + R<V>::name() + ">";    \
    }                                                                          \
  };
C31_MAP(map)
C31_MAP(multimap)
C31_MAP(unordered_map)
C31_MAP(unordered_multimap)
#undef C31_MAP
template <typename A, typename B> struct R<std::pair<A, B>> {
  using D = typename std::remove_const<A>::type;
  static std::pair<A, B> make(Src &s) {
    D a = R<D>::make(s);
    return std::pair<A, B>(std::move(a), R<B>::make(s));
  }
  static std::string text(const std::pair<A, B> &p) {
    return "(" + R<D>::text(p.first) + ", " + R<B>::text(p.second) + ")";
  }
  static std::string name() { return "std::pair<" + R<A>::name() + ", " + R<B>::name() + ">"; }
};
template <typename TUP, size_t I, size_t N> struct TupText {
  static void text(const TUP &t, std::string &out) {
    if (I > 0)
      out += ", ";
    out += R<typename std::tuple_element<I, TUP>::type>::text(std::get<I>(t));
    TupText<TUP, I + 1, N>::text(t, out);
  }
  static void name(std::string &out) {
    if (I > 0)
      out += ", ";
    out += R<typename std::tuple_element<I, TUP>::type>::name();
    TupText<TUP, I + 1, N>::name(out);
  }
};
template <typename TUP, size_t N> struct TupText<TUP, N, N> {
  static void text(const TUP &, std::string &) {}
  static void name(std::string &) {}
};
template <typename... Ts> struct R<std::tuple<Ts...>> {
  using TUP = std::tuple<Ts...>;
  static TUP make(Src &s) {
    (void)s;
    return TUP{R<Ts>::make(s)...};
  }
  static std::string text(const TUP &t) {
    std::string out = "(";
    TupText<TUP, 0, sizeof...(Ts)>::text(t, out);
    return out + ")";
  }
  static std::string name() {
    std::string out = "std::tuple<";
    TupText<TUP, 0, sizeof...(Ts)>::name(out);
    return out + ">";
  }
};
#define C31_PTR(TEMPL)                                                         \
  template <typename T> struct R<std::TEMPL<T>> {                              \
    static std::TEMPL<T> make(Src &s) {                                        \
      if (s.draw(3) == 0)                                                      \
        return nullptr;                                                        \
      return std::TEMPL<T>(new T(R<T>::make(s)));                              \
    }                                                                          \
    static std::string text(const std::TEMPL<T> &p) {                          \
      return p ? R<T>::text(*p) + addr(p.get()) : "nullptr";                   \
    }                                                                          \
    static std::string name() { return "std::" #TEMPL "<" + R<T>::name() + ">"; } \
  };
C31_PTR(unique_ptr)
C31_PTR(shared_ptr)
#undef C31_PTR
// Raw pointers point to values kept alive for the case.
template <typename T> struct R<T *> {
  static T *make(Src &s) {
    static std::unique_ptr<T> keep;
    if (s.draw(3) == 0)
      return nullptr;
    keep.reset(new T(R<T>::make(s)));
    return keep.get();
  }
  static std::string text(T *p) { return p ? R<T>::text(*p) + addr(p) : "nullptr"; }
  static std::string name() {
    return R<T>::name() + (std::is_pointer<T>::value ? "*" : " *");
  }
};
template <typename T> struct R<rc::Maybe<T>> {
  static rc::Maybe<T> make(Src &s) {
    if (s.draw(2) == 0)
      return rc::Nothing;
    return rc::Maybe<T>(R<T>::make(s));
  }
  static std::string text(const rc::Maybe<T> &m) { return m ? R<T>::text(*m) : "Nothing"; }
  static std::string name() { return "rc::Maybe<" + R<T>::name() + ">"; }
};
template <typename T> struct R<const T> : R<T> {
  static std::string name() { return "const " + R<T>::name(); }
};

// Checks every way of displaying x.
template <typename T, bool NAME = true> void checkShow(Src &s, pbt::Ctx &c, bool plain = false) {
  using namespace pbt;
  T x = R<T>::make(s);
  floats() = false;
  const std::string want = R<T>::text(x);
  const bool usesPrecision = floats();
  REQ_EQ(rc::toString(x), want, R<T>::name());
  // A stream in any state is left in that state, and gets the same text.
  std::ostringstream os;
  const int prec = static_cast<int>(s.range(0, 12));
  const char fill = s.oneOf({' ', '*', '0'});
  if (!plain) {
    os.fill(fill);
    if (!usesPrecision)
      os.precision(prec);
    if (s.flag())
      os.setf(std::ios::boolalpha | std::ios::left);
  }
  const auto flags = os.flags();
  const auto precision = os.precision();
  rc::show(x, os);
  REQ_EQ(os.str(), want, R<T>::name(), " to a stream with other settings");
  REQ(os.flags() == flags && os.precision() == precision && os.fill() == (plain ? ' ' : fill),
      "showing a ", R<T>::name(), " changed the settings of the stream: ", want);
  // Two values in a row; nothing altered.
  std::ostringstream os2;
  rc::show(x, os2);
  os2 << '|';
  rc::show(static_cast<const T &>(x), os2);
  REQ_EQ(os2.str(), want + "|" + want, "shown twice");
  REQ_EQ(R<T>::text(x), want, "the value after being shown");
  // As a member and an element of something else.
  std::pair<const T *, bool> none(nullptr, true);
  REQ_EQ(rc::toString(none), "(nullptr, true)", "");
  const std::string asPtr = rc::toString(&x);
  if (!std::is_same<T, char>::value && !std::is_same<T, unsigned char>::value)
    REQ_EQ(asPtr, want + addr(&x), "pointer to ", R<T>::name());
  std::array<T, 1> one{{std::move(x)}};
  if (!std::is_pointer<T>::value) {
    const std::string held = R<T>::text(one[0]);
    REQ_EQ(rc::toString(one), "[" + held + "]", "array of one ", R<T>::name());
    std::ostringstream os3;
    rc::showCollection("(pre", "post)", one, os3);
    REQ_EQ(os3.str(), "(pre" + held + "post)", "showCollection of one ", R<T>::name());
    std::tuple<T, std::string, double> tup(std::move(one[0]), "\x01", 3.14159);
    REQ_EQ(rc::toString(tup), "(" + held + ", \"\\x01\", 3.14159)", "in a tuple");
    const auto any = rc::detail::Any::of(std::move(std::get<0>(tup)));
    std::ostringstream os4;
    any.showValue(os4);
    REQ_EQ(os4.str(), held, "type-erased ", R<T>::name());
    if (NAME) {
      std::ostringstream os5;
      any.showType(os5);
      REQ_EQ(os5.str(), R<T>::name(), "type of a type-erased value");
    }
  }
  if (NAME) {
    REQ_EQ(rc::detail::typeToString<T>(), R<T>::name(), "");
    REQ_EQ(rc::detail::typeToString<const T &>(), "const " + R<T>::name() + " &", "");
    REQ_EQ(rc::detail::typeToString<T &&>(), R<T>::name() + " &&", "");
    REQ_EQ(rc::detail::typeToString<volatile T>(), "volatile " + R<T>::name(), "");
    REQ_EQ(rc::detail::typeToString<const volatile T>(), "const volatile " + R<T>::name(), "");
    REQ_EQ((rc::detail::typeToString<std::tuple<std::pair<T, std::set<bool>>, std::stack<T>>>()),
           "std::tuple<std::pair<" + R<T>::name() + ", std::set<bool>>, std::stack<" +
               R<T>::name() + ">>",
           "");
  }
  c.count(6);
  c.label(R<T>::name());
  c.nontrivial(want.find(", ") != std::string::npos || want.find('\\') != std::string::npos ||
               want.find("nullptr") != std::string::npos);
  c.sample(cat(R<T>::name(), " ", want));
}
} // namespace c31

// World: values that reach the same or different states by different histories
// (inline or on the heap, with spare room, in recycled memory, in different
// encodings, by value or by reference) and are compared in every way with each
// other, against the order of what they stand for (C22).
#include <algorithm>
#include <compare>
#include <limits>
#include <memory>
#include "sums.h"
#include "textref.h"
#include "best/container/row.h"
#include "best/memory/span.h"

#ifndef CMP_PART
#define CMP_PART 0
#endif
#define STR2(x) #x
#define STR(x) STR2(x)

namespace sim {
namespace {
enum Rel { Less = -1, Same = 0, More = 1, None = 2 };
const char* rel_name(int r) { return r == Less ? "less" : r == Same ? "equal" : r == More ? "greater" : "unordered"; }
template <typename O> int rel_of(O o) { return o == 0 ? Same : o < 0 ? Less : o > 0 ? More : None; }
int flip(int r) { return r == None ? None : -r; }
template <typename A, typename B> concept Eq = requires(const A& a, const B& b) { { a == b } -> std::convertible_to<bool>; };
template <typename A, typename B> concept Ord = requires(const A& a, const B& b) { a <=> b; };
// `a` and `b` stand for values whose order is `want`.
template <typename A, typename B> void pair(const char* what, const A& a, const B& b, int want) {
  static_assert(Eq<A, B>);
  auto bad = [&](const char* op, bool got) { fail("C22", "comparison", "%s: %s is %s where the values are %s", what, op, got ? "true" : "false", rel_name(want)); };
  if ((a == b) != (want == Same)) return bad("==", a == b);
  if ((a != b) != (want != Same)) return bad("!=", a != b);
  if ((b == a) != (want == Same)) return bad("== the other way round", b == a);
  if constexpr (Ord<A, B>) {
    int got = rel_of(a <=> b);
    if (got != want) { fail("C22", "order", "%s: <=> says %s where the values are %s", what, rel_name(got), rel_name(want)); return; }
    got = rel_of(b <=> a);
    if (got != flip(want)) { fail("C22", "order", "%s: <=> the other way round says %s where the values are %s", what, rel_name(got), rel_name(want)); return; }
    if ((a < b) != (want == Less)) return bad("<", a < b);
    if ((a > b) != (want == More)) return bad(">", a > b);
    if ((a <= b) != (want == Less || want == Same)) return bad("<=", a <= b);
    if ((a >= b) != (want == More || want == Same)) return bad(">=", a >= b);
  }
  reach(want == Same ? "equal" : want == None ? "unordered" : "different");
}

// ----------------------------------------------------------- elements
// El<T>: the j-th value to choose from, and the order of two of them.
template <typename T> struct El;
// The same quantities in different units.
struct Ones { short v; explicit operator int() const { return v; } bool operator==(const Ones&) const = default; auto operator<=>(const Ones&) const = default; };
struct Tenths {
  short v; bool operator==(const Tenths&) const = default; auto operator<=>(const Tenths&) const = default;
  bool operator==(Ones o) const { return v == o.v * 10; } auto operator<=>(Ones o) const { return (int)v <=> o.v * 10; }
};
template <> struct El<Tenths> {
  static Tenths mk(i64 j) { static const short v[] = {0, 1, 10, -10, 100, 5, 20, 1000, -1, 50}; return {v[(u64)j % 10]}; }
  static int cmp(i64 a, i64 b) { short x = mk(a).v, y = mk(b).v; return x < y ? Less : x > y ? More : Same; }
};
template <std::integral T> struct El<T> {
  static T mk(i64 j) { static const T v[] = {T(0), T(1), T(-1), std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), T(2), T(0x0100ull & ~T(0)), T(0x7f), T(0x80), T(3)}; return v[(u64)j % 10]; }
  static int cmp(i64 a, i64 b) { T x = mk(a), y = mk(b); return x < y ? Less : x > y ? More : Same; }
};
template <> struct El<double> {
  static double mk(i64 j) { static const double v[] = {0.0, -0.0, 1.5, -1.5, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 5e-324, 1e300, 2}; return v[(u64)j % 10]; }
  static int cmp(i64 a, i64 b) { double x = mk(a), y = mk(b); return x < y ? Less : x > y ? More : x == y ? Same : None; }
};
template <typename T> requires requires(T t) { t.check(""); } || std::same_as<T, Wide> struct El<T> {
  static T mk(i64 j) { return T((j % 5) - 2); }
  static int cmp(i64 a, i64 b) { a %= 5; b %= 5; return a < b ? Less : a > b ? More : Same; }
};
// Texts of several lengths, some on the heap.
template <> struct El<best::strbuf> {
  static std::string text(i64 j) { static const char* v[] = {"", "a", "b", "aa", "a much longer text, on the heap", "a much longer text, on the heap!", "\x7f", "\xc3\xa9", "ab", "B"}; return v[(u64)j % 10]; }
  static best::strbuf mk(i64 j) { auto s = text(j); best::strbuf b; b.push(*best::str::from(best::span(s.data(), s.size()))); return b; }
  static int cmp(i64 a, i64 b) { int c = text(a).compare(text(b)); return c < 0 ? Less : c > 0 ? More : Same; }
};
template <> struct El<best::vec<u8>> {
  static best::vec<u8> mk(i64 j) { best::vec<u8> v; for (i64 k = 0; k < (j % 5) * 9; ++k) v.push((u8)(k * j)); return v; }
  static int cmp(i64 a, i64 b) { auto s = [](i64 j) { std::vector<u8> v; for (i64 k = 0; k < (j % 5) * 9; ++k) v.push_back((u8)(k * j)); return v; }; auto x = s(a), y = s(b); return x < y ? Less : y < x ? More : Same; }
};
template <> struct El<best::option<int>> {
  static best::option<int> mk(i64 j) { if (j % 4 == 0) return best::none; return (int)(j % 4) - 2; }
  static int cmp(i64 a, i64 b) { a %= 4; b %= 4; return a < b ? Less : a > b ? More : Same; }
};
template <> struct El<best::box<int>> {
  static best::box<int> mk(i64 j) { return best::box<int>((int)(j % 5) - 2); }
  static int cmp(i64 a, i64 b) { a %= 5; b %= 5; return a < b ? Less : a > b ? More : Same; }
};
template <> struct El<best::rune> {
  static best::rune mk(i64 j) { static const u32 v[] = {0, 'a', 'b', 0x7f, 0x80, 0xff, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff}; return *best::rune::from_int(v[(u64)j % 11]); }
  static int cmp(i64 a, i64 b) { a = (i64)((u64)a % 11); b = (i64)((u64)b % 11); return a < b ? Less : a > b ? More : Same; }
};
using Seq = std::vector<i64>;
template <typename T> int cmp_seq(const Seq& a, const Seq& b) {
  for (size_t i = 0; i < a.size() && i < b.size(); ++i) if (int c = El<T>::cmp(a[i], b[i]); c != Same) return c;
  return a.size() < b.size() ? Less : a.size() > b.size() ? More : Same;
}
// Elements that differ from themselves (NaN) are neither equal nor ordered.
template <typename T> bool eq_seq(const Seq& a, const Seq& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (El<T>::cmp(a[i], b[i]) != Same) return false;
  return true;
}

// ----------------------------------------------------------- arrays
#if CMP_PART == 0
// Another type whose elements can be compared with those of the first.
template <typename T> struct Other { using type = void; };
template <> struct Other<int> { using type = unsigned; };
template <> struct Other<u8> { using type = signed char; };
template <> struct Other<signed char> { using type = u8; };
template <> struct Other<char16_t> { using type = short; };
template <> struct Other<Tenths> { using type = Ones; };
template <typename T, typename U> int cmp_other(const std::vector<T>& a, const std::vector<U>& b) {
  for (size_t i = 0; i < a.size() && i < b.size(); ++i) if (!(a[i] == b[i])) return a[i] < b[i] ? Less : More;
  return a.size() < b.size() ? Less : a.size() > b.size() ? More : Same;
}
template <typename T> struct Arrays {
  best::option<best::vec<T>> a; best::option<best::vec<T, 0, SimAlloc>> b; best::option<best::vec<T, 7>> c;
  Seq m[3];
  static constexpr bool Copy = best::copyable<T>;
  template <typename F> void with(int k, F f) { if (k == 0) f(*a); else if (k == 1) f(*b); else f(*c); }
  void step(const Op& o) {
    set_op(&o);
    int k = (int)((u64)o.arg(0) % 3); Seq& s = m[k];
    with(k, [&](auto& v) {
      using V = std::remove_reference_t<decltype(v)>;
      i64 x = o.arg(1);
      if (o.kind == "push") { v.push(El<T>::mk(x)); s.push_back(x); }
      else if (o.kind == "pop") { if (!s.empty()) { (void)v.pop(); s.pop_back(); } }
      else if (o.kind == "drop") { if (!s.empty()) { size_t at = (size_t)x % s.size(); (void)v.remove(at); s.erase(s.begin() + at); } }
      else if (o.kind == "insert") { size_t at = (size_t)x % (s.size() + 1); v.insert(at, El<T>::mk(o.arg(2))); s.insert(s.begin() + at, o.arg(2)); }
      else if (o.kind == "cut") { size_t n = (size_t)x % (s.size() + 1); v.truncate(n); s.resize(n); }
      else if (o.kind == "room") v.reserve((size_t)x % 40);
      else if (o.kind == "spill") v.spill_to_heap();
      else if (o.kind == "tight") v.shrink_to_fit();
      else if (o.kind == "clear") { v.clear(); s.clear(); }
      else if (o.kind == "set") { if (!s.empty()) { size_t at = (size_t)x % s.size(); v[at] = El<T>::mk(o.arg(2)); s[at] = o.arg(2); } }
      else if (o.kind == "move") { V w(std::move(v)); v = std::move(w); }
      else if (o.kind == "like") {   // the same elements as another
        int j = (int)((u64)x % 3);
        if (j != k) { v.clear(); s = m[j]; for (i64 e : s) v.push(El<T>::mk(e)); }
      }
    });
  }
  void compare() {
    auto both = [&](const char* what, auto& x, auto& y, const Seq& s, const Seq& t) {
      int w = cmp_seq<T>(s, t);
      if (w == Same && !eq_seq<T>(s, t)) w = None;
      pair(what, x, y, w);
      best::span<const T> p(x), q(y);
      pair("views", p, q, w);
      pair("an array and a view", x, q, w);
      best::span<T> p2(x); pair("a view of const and one that is not", q, p2, flip(w));
      if (s.size() == 3) { best::span<const T, 3> f(p); pair("a view of fixed size and one that is not", f, q, w); }
    };
    both("arrays with room for different numbers of elements", *a, *b, m[0], m[1]); both("arrays with room for different numbers of elements", *b, *c, m[1], m[2]); both("arrays with room for different numbers of elements", *a, *c, m[0], m[2]);
    both("an array and itself", *a, *a, m[0], m[0]);
    if constexpr (Copy) { best::vec<T> d(*a); both("an array and its copy", *a, d, m[0], m[0]); best::box<T[]> bx = best::vec<T>(*a).to_box(); int w = cmp_seq<T>(m[0], m[1]); pair("an owned array and a view", *bx, best::span<const T>(*b), w); }
    if constexpr (using X = typename Other<T>::type; !std::is_void_v<X>) {
      best::vec<X> d; std::vector<X> e; std::vector<T> f;
      for (i64 k : m[0]) f.push_back(El<T>::mk(k));
      for (i64 k : m[1]) { X x; if constexpr (std::is_same_v<X, Ones>) x = {(short)(k % 2 ? El<T>::mk(k).v : El<T>::mk(k).v / 10)}; else x = (X)El<T>::mk(k); d.push(x); e.push_back(x); }
      pair("arrays of different elements", *a, d, cmp_other(f, e)); pair("views of different elements", best::span<const T>(*a), best::span<const X>(d), cmp_other(f, e));
    }
    // Parts of one array that share storage.
    if (m[0].size() >= 2) { best::span<const T> p(*a); Seq s(m[0].begin(), m[0].end() - 1), t(m[0].begin() + 1, m[0].end()); int w = cmp_seq<T>(s, t); pair("overlapping views", p[{.end = s.size()}], p[{.start = 1}], w);
      w = cmp_seq<T>(s, m[0]); pair("a view and its beginning", p[{.end = s.size()}], p, w); }
  }
};
template <typename T> void arrays(const Plan& p) {
  Arrays<T> w; w.a.emplace(); w.b.emplace(); w.c.emplace();
  for (auto& o : p.ops) { w.step(o); w.compare(); state(mix2((u64)p.get("elem"), mix2(w.a->is_inlined() * 4 + w.b->is_inlined() * 2 + w.c->is_inlined(), mix2(w.m[0].size(), (u64)cmp_seq<T>(w.m[0], w.m[2]) + 9)))); }
}

#elif CMP_PART == 1
// ----------------------------------------------------------- sums
template <typename T> using Val = std::conditional_t<std::is_same_v<T, void>, int, T>;
template <typename T> struct Sums {
  // Optionals: -1 none.
  best::option<T> o[2]; i64 m[2] = {-1, -1};
  using C = best::choice<int, T, best::strbuf, bool>;
  best::option<C> c[2]; int cw[2] = {0, 0}; i64 cm[2] = {0, 0};
  using R = best::result<T, best::row<best::strbuf, int>>;
  best::option<R> r[2]; bool rok[2] = {false, false}; i64 rm[2] = {0, 0};
  using W = best::row<u8, T, best::strbuf>;
  best::option<W> w[2]; i64 wm[2][3] = {};
  best::option<best::option<T>> oo[2]; i64 oom[2] = {-2, -2};   // -2 none, -1 some(none)

  static int cmp_or(i64 a, i64 b, i64 limit = 0) { if (a < limit || b < limit) return a < b ? Less : a > b ? More : Same; return El<T>::cmp(a, b); }
  void step(const Op& q) {
    set_op(&q);
    int k = (int)((u64)q.arg(0) & 1); i64 x = q.arg(1);
    switch ((u64)q.arg(2) % 5) {
      case 0: if (x % 4 == 0) { o[k] = best::none; m[k] = -1; } else if (x % 4 == 1 && o[k].has_value()) { *o[k] = El<T>::mk(x); m[k] = x; } else { o[k].emplace(El<T>::mk(x)); m[k] = x; } break;
      case 1: cw[k] = (int)(x % 4); cm[k] = q.arg(3);
        if (!c[k].has_value() || x % 3) c[k].emplace(best::index<0>, 0);
        switch (cw[k]) { case 0: c[k]->emplace(best::index<0>, El<int>::mk(cm[k])); break; case 1: c[k]->emplace(best::index<1>, El<T>::mk(cm[k])); break; case 2: c[k]->emplace(best::index<2>, El<best::strbuf>::mk(cm[k])); break; default: c[k]->emplace(best::index<3>, (bool)(cm[k] & 1)); cm[k] &= 1; }
        break;
      case 2: rok[k] = x & 1; rm[k] = q.arg(3); if (rok[k]) r[k].emplace(best::ok(El<T>::mk(rm[k]))); else r[k].emplace(best::err(El<best::strbuf>::mk(rm[k]), (int)(rm[k] % 3))); break;
      case 3: wm[k][0] = x; wm[k][1] = q.arg(3); wm[k][2] = q.arg(4); w[k].emplace(El<u8>::mk(x), El<T>::mk(q.arg(3)), El<best::strbuf>::mk(q.arg(4))); break;
      default: oom[k] = x % 5 == 0 ? -2 : x % 5 == 1 ? -1 : x; if (oom[k] == -2) oo[k] = best::none; else if (oom[k] == -1) oo[k].emplace(best::none); else oo[k].emplace(best::option<T>(El<T>::mk(x)));
    }
  }
  static int lex(std::initializer_list<int> l) { for (int x : l) if (x != Same) return x; return Same; }
  void compare() {
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) {
      int want = cmp_or(m[i], m[j]);
      pair("optionals", o[i], o[j], want);
      pair("an optional and nothing", o[i], best::none, m[i] < 0 ? Same : More);
      best::option<const T&> ref; if (o[j].has_value()) ref = best::option<const T&>(*o[j]);
      pair("an optional and a reference", o[i], ref, want);
      if (o[j].has_value()) {
        if constexpr (Eq<best::option<T>, T>) pair("an optional and a value", o[i], *o[j], want);
      }
      const Val<T>* at = o[i].has_value() ? std::addressof(*o[i]) : nullptr;
      pair("an optional reference and a pointer", ref, at, flip(want));
      pair("optionals of optionals", oo[i], oo[j], cmp_or(oom[i], oom[j]));
      if (c[i] && c[j]) {
        int e = cw[i] != cw[j] ? (cw[i] < cw[j] ? Less : More) : cw[i] == 0 ? El<int>::cmp(cm[i], cm[j]) : cw[i] == 1 ? El<T>::cmp(cm[i], cm[j]) : cw[i] == 2 ? El<best::strbuf>::cmp(cm[i], cm[j]) : (cm[i] < cm[j] ? Less : cm[i] > cm[j] ? More : Same);
        pair("variants", *c[i], *c[j], e);
      }
      if (r[i] && r[j]) {
        auto err_cmp = [&](i64 a, i64 b) { return lex({El<best::strbuf>::cmp(a, b), a % 3 < b % 3 ? Less : a % 3 > b % 3 ? More : Same}); };
        int e = rok[i] != rok[j] ? (rok[i] ? Less : More) : rok[i] ? El<T>::cmp(rm[i], rm[j]) : err_cmp(rm[i], rm[j]);
        if (rok[i] || rok[j] || e != None) pair("results", *r[i], *r[j], e);
        pair("a result and any success", *r[i], best::ok(), rok[i] ? Same : More);
        pair("a result and any failure", *r[i], best::err(), rok[i] ? Less : Same);
        if (rok[j]) { pair("a result and a value", *r[i], *r[j]->ok(), e); if constexpr (best::copyable<T>) pair("a result and a success", *r[i], best::ok(*r[j]->ok()), e); }
        else { pair("a result and an error value", *r[i], *r[j]->err(), e); }
      }
      if (w[i] && w[j]) {
        int e = lex({El<u8>::cmp(wm[i][0], wm[j][0]), El<T>::cmp(wm[i][1], wm[j][1]), El<best::strbuf>::cmp(wm[i][2], wm[j][2])});
        pair("rows", *w[i], *w[j], e);
        best::row<const u8&, const T&, const best::strbuf&> rr((*w[j])[best::index<0>], (*w[j])[best::index<1>], (*w[j])[best::index<2>]);
        pair("a row and a row of references", *w[i], rr, e);
      }
    }
  }
};
template <typename T> void sums(const Plan& p) {
  Sums<T> w;
  for (auto& o : p.ops) { w.step(o); w.compare(); state(mix2((u64)p.get("elem") + 100, mix2((u64)(w.m[0] + 2) * 16 + (u64)(w.m[1] + 2), (u64)w.cw[0] * 8 + (u64)w.cw[1] * 2 + w.rok[0]))); }
}

#else
// ----------------------------------------------------------- texts
struct Texts {
  best::textbuf<best::utf8> a; best::textbuf<best::utf16> b; best::textbuf<best::utf32> c; best::textbuf<best::wtf8> d; best::textbuf<best::ascii> e; best::textbuf<best::latin1> f;
  tref::Units m[6];
  template <typename F> void with(int k, F g) { switch (k) { case 0: g(a); break; case 1: g(b); break; case 2: g(c); break; case 3: g(d); break; case 4: g(e); break; default: g(f); } }
  static int cmp(const tref::Units& x, const tref::Units& y) { return x < y ? Less : y < x ? More : Same; }
  static u32 rune(i64 j, int k) {
    static const u32 v[] = {'a', 'b', 0, 0x7f, 0x80, 0xe9, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff, 'A'};
    u32 r = v[(u64)j % 18]; return tref::can((tref::Enc)k, r) ? r : 'a' + (u32)(j & 3);
  }
  void step(const Op& o) {
    set_op(&o);
    int k = (int)((u64)o.arg(0) % 6); i64 x = o.arg(1); auto& s = m[k];
    with(k, [&](auto& t) {
      using B = std::remove_reference_t<decltype(t)>;
      if (o.kind == "push" || o.kind == "insert" || o.kind == "set") { u32 r = rune(x, k); if (!t.push(*best::rune::from_int(r))) fail("C22", "push", "a rune was refused"); s.push_back(r); }
      else if (o.kind == "clear") { t.clear(); s.clear(); }
      else if (o.kind == "room") t.reserve((size_t)x % 60);
      else if (o.kind == "move") { B w(std::move(t)); t = std::move(w); }
      else if (o.kind == "cut" || o.kind == "pop") {
        if (s.empty()) return;
        size_t n = (size_t)x % s.size(); tref::Units u; for (size_t i = 0; i < n; ++i) tref::put((tref::Enc)k, s[i], u); t.truncate(u.size()); s.resize(n); }
      else if (o.kind == "like") { int j = (int)((u64)x % 6); if (j == k) return; t.clear(); s.clear(); for (u32 r : tref::Units(m[j])) { if (!tref::can((tref::Enc)k, r)) break; (void)t.push(*best::rune::from_int(r)); s.push_back(r); } }
    });
  }
  template <typename X, typename Y> void two(X& x, Y& y, const tref::Units& s, const tref::Units& t) {
    int w = cmp(s, t);
    pair("text buffers", x, y, w);
    auto p = x.as_text(); auto q = y.as_text();
    pair("texts", p, q, w); pair("a text buffer and a text", x, q, w); pair("unchecked texts", best::pretext(p), best::pretext(q), w); pair("a text and an unchecked text", p, best::pretext(q), w);
    if constexpr (std::same_as<X, Y>) { pair("a text and code units", p, q.as_codes(), lexi<X>() ? w : unit_cmp<X>(s, t)); }
  }
  template <typename X> static constexpr bool lexi() { return !std::same_as<X, best::textbuf<best::utf16>>; }
  template <typename X> static int unit_cmp(const tref::Units& s, const tref::Units& t) { tref::Units a, b; for (u32 r : s) tref::put(tref::Utf16, r, a); for (u32 r : t) tref::put(tref::Utf16, r, b); return cmp(a, b); }
  void compare(const Op& o) {
    int i = (int)((u64)o.arg(0) % 6);
    for (int j = 0; j < 6; ++j) with(i, [&](auto& x) { with(j, [&](auto& y) { two(x, y, m[i], m[j]); }); });
    with(i, [&](auto& x) {
      using B = std::remove_reference_t<decltype(x)>;
      // With another of the same encoding, its beginning and single runes.
      B y; tref::Units t; Rng r((u64)o.arg(2)); size_t n = m[i].empty() ? 0 : r.below(m[i].size() + 1);
      for (size_t k = 0; k < n; ++k) { u32 c = r.chance(90) ? m[i][k] : rune((i64)r.below(18), i); (void)y.push(*best::rune::from_int(c)); t.push_back(c); }
      two(x, y, m[i], t); two(y, x, t, m[i]);
      u32 c = r.chance(50) && !m[i].empty() ? m[i][0] : rune((i64)r.below(18), i);
      int w = cmp(m[i], tref::Units{c});
      pair("a text buffer and a rune", x, *best::rune::from_int(c), w); pair("a text and a rune", x.as_text(), *best::rune::from_int(c), w);
      // Ends with a zero: a literal.
      if (std::find(m[i].begin(), m[i].end(), 0u) == m[i].end()) {
        B z; (void)z.push(x.as_text()); (void)z.push(*best::rune::from_int(0)); const auto* lit = z.data();
        if (!(x == lit) || !(x.as_text() == lit)) fail("C22", "comparison", "a text and the literal of the same text: == is false");
        if (x <=> lit != 0) fail("C22", "order", "a text and the literal of the same text are not equal");
      }
    });
  }
};
void texts(const Plan& p) {
  Texts w;
  for (auto& o : p.ops) { w.step(o); w.compare(o); int i = (int)((u64)o.arg(0) % 6); state(mix2(mix2((u64)i + 200, w.m[i].size()), mix2(w.m[i].empty() ? 0 : w.m[i].back(), o.kind.size()))); }
}

#endif
void gen(Rng& r, Plan& p) {
  p.cfg["elem"] = (i64)r.below(12);
  static const char* kinds[] = {"push", "push", "push", "pop", "drop", "insert", "cut", "room", "spill", "tight", "clear", "set", "move", "like", "like"};
  std::vector<const char*> use; int keep = 30 + (int)r.below(70);
  for (auto k : kinds) if (r.chance(keep)) use.push_back(k);
  use.push_back("push"); use.push_back("like");
  i64 few = r.chance(60) ? 3 : 18;
  int n = 3 + (int)r.below(r.chance(50) ? 12 : 40);
  while (n--) p.add(r.pick(use), {(i64)r.below(6), (i64)r.below(r.chance(50) ? few : 40), (i64)r.below(40), (i64)r.below(few), (i64)r.below(few)});
}
void run(const Plan& p) {
  death_means("C22,C03");
  reg.clear(); heap::on_free(reg_freed);
  switch (p.get("elem")) {
#if CMP_PART == 0
    case 0: arrays<int>(p); break; case 1: arrays<u8>(p); break; case 2: arrays<signed char>(p); break; case 3: arrays<double>(p); break; case 4: arrays<best::strbuf>(p); break; case 5: arrays<best::vec<u8>>(p); break;
    case 6: arrays<best::option<int>>(p); break; case 7: arrays<Tracked>(p); break; case 8: arrays<best::box<int>>(p); break; case 9: arrays<char16_t>(p); break; case 10: if (p.get("salt") & 1) arrays<bool>(p); else arrays<Tenths>(p); break; default: arrays<Wide>(p); break;
#elif CMP_PART == 1
    case 0: sums<int>(p); break; case 1: case 8: sums<best::box<int>>(p); break; case 2: case 3: sums<best::vec<u8>>(p); break; case 4: case 5: sums<Tracked>(p); break; case 6: case 7: sums<double>(p); break; default: sums<best::rune>(p); break;
#else
    default: texts(p);
#endif
  }
  check_nothing_left("compared values");
  if (p.ops.size() >= 3) nontrivial();
}
RegisterWorld w1({"cmp" STR(CMP_PART), gen, run, 0});
}  // namespace
}  // namespace sim

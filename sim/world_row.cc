// World: histories of rows: joined, cut, spliced, gathered, scattered, referred
// to and assigned, with elements that are owned, moved only, referred to, or
// nothing at all (C23; also C02, C03).
#include <memory>
#include <vector>
#include "elems.h"
#include "best/container/object.h"
#include "best/container/row.h"
#include "best/text/format.h"
#include "best/text/strbuf.h"

namespace sim {
namespace {
constexpr i64 Nothing = -5, Gone = TrackedT<true>::Moved;
struct Two { i64 a, b; Two(i64 a, i64 b) : a(a), b(b) {} };
using Pair = best::row<Tracked, Handle>;
using Text = best::strbuf;

// What must not be copied, and says so only when it is.
struct Precious {
  Tracked t;
  explicit Precious(i64 v) : t(v) {}
  Precious(const Precious& o) : t(o.t) { fail("C23,C02", "copied", "an element that may be moved was copied"); }
  Precious(Precious&&) = default;
  Precious& operator=(const Precious& o) { t = o.t; fail("C23,C02", "copied", "an element that may be moved was assigned by copying"); return *this; }
  Precious& operator=(Precious&&) = default;
};
// What an element holds.
i64 value(i64 v) { return v; }
i64 value(int v) { return v; }
template <bool C> i64 value(const TrackedT<C>& v) { v.check("read"); return v.value; }
i64 value(const Precious& v) { return value(v.t); }
i64 value(const Handle& v) { v.check("read"); return v.value; }
i64 value(const Text& v) { if (v.is_empty()) return Gone; i64 x = 0; bool neg = false; for (char c : best::span<const char>(v.data(), v.size())) if (c == '-') neg = true; else x = x * 10 + (c - '0'); return neg ? -x : x; }
i64 value(best::empty) { return Nothing; }
i64 value(const Two& v) { return v.a * 1000 + v.b; }
i64 value(const Pair& v) { return value(v.first()) * 1000 + value(v.second()); }
template <typename T> T make(i64 v) {
  if constexpr (std::is_same_v<T, Text>) { if (v % 3 == 0) return best::format("{:040}", v); return best::format("{}", v); }
  else if constexpr (std::is_same_v<T, Pair>) return Pair(v / 1000, v % 1000);
  else return T(v);
}
// What is left of an element that was moved from.
template <typename T> i64 left(i64 v) {
  if constexpr (std::is_same_v<T, best::empty> || std::is_same_v<T, i64> || std::is_same_v<T, int> || std::is_same_v<T, Two> || std::is_void_v<T>) return v;
  else if constexpr (std::is_same_v<T, Pair>) return Gone * 1000 + Gone;
  else if constexpr (std::is_lvalue_reference_v<T>) return v;
  else return Gone;
}
template <typename R> std::vector<i64> values(const R& r) {
  std::vector<i64> out;
  r.each([&](auto&&... x) { if constexpr (sizeof...(x)) (out.push_back(value(x)), ...); else out.push_back(Nothing); });
  return out;
}
std::string show(const std::vector<i64>& v) { std::string s = "("; for (i64 x : v) s += (s.size() > 1 ? " " : "") + std::to_string(x); return s + ")"; }
template <typename... E> struct L {};
template <typename... E> L<E...> list_of(const best::row<E...>&);
template <typename... X, typename... Y> L<X..., Y...> cat(L<X...>, L<Y...>);
template <size_t from, typename... E, size_t... i> auto part_of(L<E...>, std::index_sequence<i...>) { return L<typename std::tuple_element_t<from + i, std::tuple<std::type_identity<E>...>>::type...>{}; }
template <size_t from, size_t to, typename... E> auto part(L<E...> l) { return part_of<from>(l, std::make_index_sequence<to - from>{}); }
// Whether row G is row R with the elements from `from` to `to` replaced.
template <typename G, typename R, size_t from, size_t to, typename... New> constexpr bool replaced =
  std::is_same_v<decltype(list_of(best::lie<G>)), decltype(cat(cat(part<0, from>(list_of(best::lie<R>)), L<New...>{}), part<to, R::size()>(list_of(best::lie<R>))))>;
template <size_t n, typename F> void at_place(u64 v, F f) { [&]<size_t... i>(std::index_sequence<i...>) { (void)((v % n == i ? (f(best::index<i>), true) : false) || ...); }(std::make_index_sequence<n>{}); }
template <typename R, typename... E> constexpr bool is = std::is_same_v<R, best::row<E...>>;

struct Shared {
  // What references refer to.
  Tracked t[3] = {Tracked(901), Tracked(902), Tracked(903)};
  i64 n[3] = {911, 912, 913};
};
// One type of row, of four elements; two of them, and what they should hold.
template <typename R> struct Rows;
template <typename A, typename B, typename C, typename D> struct Rows<best::row<A, B, C, D>> {
  using R = best::row<A, B, C, D>;
  static constexpr bool Copies = !std::is_same_v<A, Precious>;
  static constexpr bool Voids = std::is_void_v<A> || std::is_void_v<B> || std::is_void_v<C> || std::is_void_v<D>;
  using M = std::vector<i64>;
  Shared* sh;
  std::unique_ptr<R> r[2];
  M m[2];

  template <typename T> decltype(auto) element(i64 v) {
    if constexpr (std::is_void_v<T>) return best::empty{};
    else if constexpr (std::is_same_v<T, Tracked&>) return (sh->t[(u64)v % 3]);
    else if constexpr (std::is_same_v<T, const i64&>) return (sh->n[(u64)v % 3]);
    else return make<T>(v);
  }
  R fresh(i64 v, M& out) {
    out.clear();
    auto note_of = [&]<typename T>(std::type_identity<T>, i64 x) {
      if constexpr (std::is_void_v<T>) out.push_back(Nothing);
      else if constexpr (std::is_reference_v<T>) out.push_back(value(element<T>(x)));
      else out.push_back(x);
    };
    note_of(std::type_identity<A>{}, v); note_of(std::type_identity<B>{}, v + 1); note_of(std::type_identity<C>{}, v + 2); note_of(std::type_identity<D>{}, v + 3);
    return R(best::bind, element<A>(v), element<B>(v + 1), element<C>(v + 2), element<D>(v + 3));
  }
  void start(Shared* s) { sh = s; for (int i = 0; i < 2; ++i) { M x; r[i] = std::make_unique<R>(fresh(100 + 10 * i, x)); m[i] = x; } }
  void verify(const char* when) {
    for (int i = 0; i < 2; ++i) if (M got = values(*r[i]); got != m[i]) { fail("C23,C02", "row", "%s: a row holds %s, expected %s", when, show(got).c_str(), show(m[i]).c_str()); return; }
  }
  template <typename G> void result(const char* what, const G& got, const M& want) {
    if (M g = values(got); g != want) fail("C23,C02", "row-result", "%s of a row gave %s, expected %s", what, show(g).c_str(), show(want).c_str());
  }
  // The elements at the given places were moved out of row i.
  void gone(int i, std::initializer_list<int> at) {
    for (int k : at) m[i][k] = k == 0 ? left<A>(m[i][k]) : k == 1 ? left<B>(m[i][k]) : k == 2 ? left<C>(m[i][k]) : left<D>(m[i][k]);
  }
  // q: 0 the row itself, 1 as a constant, 2 to be moved out of.
  template <int q> decltype(auto) as(int i) {
    if constexpr (q == 0) return static_cast<R&>(*r[i]); else if constexpr (q == 1) return static_cast<const R&>(*r[i]); else return static_cast<R&&>(*r[i]);
  }
  template <int q> void op(const Op& o) {
    constexpr bool out = q == 2;
    int i = (u64)o.arg(2) % 2, j = 1 - i;
    i64 v = 1000 + (i64)((u64)o.arg(3) % 9000), w = v + 10;
    M x = m[i];
    u64 copies = reg.copies;
    using namespace best;
    best::row<Tracked, Tracked> two(v, w);
    auto pairs_left = [&](M want, const char* what) { if (values(two) != want) fail("C23,C02", "other-row", "%s: the other row holds %s, expected %s", what, show(values(two)).c_str(), show(want).c_str()); };
    bool counts = false;   // nothing may be copied
    auto typed = [&](bool right) { if (!right) fail("C23", "row-type", "operation %d on a row gave a row of other types", (int)((u64)o.arg(4) % 38)); };
    switch ((u64)o.arg(4) % 38) {
      case 0: { auto g = as<q>(i).join(two); typed(is<decltype(g), A, B, C, D, Tracked, Tracked>); if (out) gone(i, {0, 1, 2, 3}); x.push_back(v); x.push_back(w); result("join", g, x); pairs_left({v, w}, "join"); break; }
      case 1: { best::row<Handle> h(w + 1); auto g = as<q>(i).join(std::move(two), best::row<>(), std::move(h)); typed(is<decltype(g), A, B, C, D, Tracked, Tracked, Handle>); counts = out; if (out) gone(i, {0, 1, 2, 3}); x.insert(x.end(), {v, w, w + 1}); result("join of several", g, x); pairs_left({Gone, Gone}, "join"); reach("joined-several"); break; }
      case 2: { auto g = two + as<q>(i); typed(is<decltype(g), Tracked, Tracked, A, B, C, D>); if (out) gone(i, {0, 1, 2, 3}); x.insert(x.begin(), {v, w}); result("sum", g, x); pairs_left({v, w}, "sum"); break; }
      case 3: { auto g = as<q>(i)[vals<bounds{.start = 1, .count = 2}>]; typed(is<decltype(g), B, C>); counts = out; if (out) gone(i, {1, 2}); result("the middle", g, {x[1], x[2]}); break; }
      case 4: { auto g = as<q>(i).at(vals<bounds{.start = 0, .count = 0}>); typed(is<decltype(g)>); counts = true; result("no part", g, {}); break; }
      case 5: { auto g = as<q>(i).at(vals<bounds{.start = 2}>); typed(is<decltype(g), C, D>); counts = out; if (out) gone(i, {2, 3}); result("the rest", g, {x[2], x[3]}); break; }
      case 6: { auto g = as<q>(i).at(vals<bounds{.including_end = 2}>); typed(is<decltype(g), A, B, C>); counts = out; if (out) gone(i, {0, 1, 2}); result("the front", g, {x[0], x[1], x[2]}); break; }
      case 7: {
        // Access moves nothing by itself.
        counts = true;
        if (value(as<q>(i)[best::index<0>]) != x[0] || value(as<q>(i).at(best::index<3>)) != x[3] || value(as<q>(i).get(best::index<2>)) != x[2] || value(as<q>(i).first()) != x[0] || value(as<q>(i).second()) != x[1] || value(as<q>(i).last()) != x[3])
          fail("C23", "access", "an element of a row is not what it holds");
        if (std::addressof(*as<0>(i).object(best::index<1>)) != std::addressof(as<0>(i)[best::index<1>])) fail("C23", "access", "an element of a row is in another place than its object");
        size_t n = as<q>(i).apply([&](auto&&... e) { M all{value(e)...}; if (all != x) fail("C23", "apply", "a function applied to a row got %s, expected %s", show(all).c_str(), show(x).c_str()); return sizeof...(e); });
        if (n != 4) fail("C23", "apply", "apply gave another answer than the function");
        break;
      }
      case 8: { auto g = as<q>(i).push(Tracked(v)); typed(is<decltype(g), A, B, C, D, Tracked>); counts = out; if (out) gone(i, {0, 1, 2, 3}); x.push_back(v); result("push", g, x); break; }
      case 9: { auto g = as<q>(i).push(best::bind, sh->t[1]); typed(is<decltype(g), A, B, C, D, Tracked&>); counts = out; if (out) gone(i, {0, 1, 2, 3}); x.push_back(value(sh->t[1])); result("push of a reference", g, x); if (&g.last() != &sh->t[1]) fail("C23", "rebound", "a row refers to something else than what was pushed"); break; }
      case 10: { auto g = as<q>(i).push(types<Tracked>, v); typed(is<decltype(g), A, B, C, D, Tracked>); counts = out; if (out) gone(i, {0, 1, 2, 3}); x.push_back(v); result("push by type", g, x); break; }
      case 11: { auto g = as<q>(i).push(types<Two>, best::args(v, 7)); typed(is<decltype(g), A, B, C, D, Two>); counts = out; if (out) gone(i, {0, 1, 2, 3}); x.push_back(v * 1000 + 7); result("push of arguments", g, x); break; }
      case 12: at_place<5>(w, [&]<size_t n>(best::index_t<n>) { auto g = as<q>(i).insert(Tracked(v), best::index<n>); typed(replaced<decltype(g), R, n, n, Tracked>); counts = out; if (out) gone(i, {0, 1, 2, 3}); x.insert(x.begin() + n, v); result("insert", g, x); }); break;
      case 13: at_place<5>(w, [&]<size_t n>(best::index_t<n>) { auto g = as<q>(i).insert(best::bind, sh->t[2], best::index<n>); typed(replaced<decltype(g), R, n, n, Tracked&>); counts = out; if (out) gone(i, {0, 1, 2, 3}); x.insert(x.begin() + n, value(sh->t[2])); result("insert of a reference", g, x); if (&g.at(best::index<n>) != &sh->t[2]) fail("C23", "rebound", "a row refers to something else than what was inserted"); }); break;
      case 14: at_place<5>(w, [&]<size_t n>(best::index_t<n>) { auto g = as<q>(i).insert(types<Handle>, v, best::index<n>); typed(replaced<decltype(g), R, n, n, Handle>); counts = out; if (out) gone(i, {0, 1, 2, 3}); x.insert(x.begin() + n, v); result("insert by type", g, x); }); break;
      case 15: at_place<4>(w, [&]<size_t n>(best::index_t<n>) { auto g = as<q>(i).update(Tracked(v), best::index<n>); typed(replaced<decltype(g), R, n, n + 1, Tracked>); counts = out; if (out) for (int k = 0; k < 4; ++k) if (k != (int)n) gone(i, {k}); x[n] = v; result("update", g, x); }); break;
      case 16: at_place<4>(w, [&]<size_t n>(best::index_t<n>) { auto g = as<q>(i).update(best::bind, sh->t[0], best::index<n>); typed(replaced<decltype(g), R, n, n + 1, Tracked&>); counts = out; if (out) for (int k = 0; k < 4; ++k) if (k != (int)n) gone(i, {k}); x[n] = value(sh->t[0]); result("update with a reference", g, x); }); break;
      case 17: at_place<4>(w, [&]<size_t n>(best::index_t<n>) { auto g = as<q>(i).update(types<Handle>, v, best::index<n>); typed(replaced<decltype(g), R, n, n + 1, Handle>); counts = out; if (out) for (int k = 0; k < 4; ++k) if (k != (int)n) gone(i, {k}); x[n] = v; result("update by type", g, x); }); break;
      case 18: { auto g = as<q>(i).splice(two, vals<bounds{.start = 1, .count = 2}>); typed(is<decltype(g), A, Tracked, Tracked, D>); if (out) gone(i, {0, 3}); x[1] = v; x[2] = w; result("splice", g, x); pairs_left({v, w}, "splice"); break; }
      case 19: { auto g = as<q>(i).splice(types<Two, i64>, best::row(best::args(v, 2), 7), vals<bounds{.start = 1, .count = 2}>); typed(is<decltype(g), A, Two, i64, D>); counts = out; if (out) gone(i, {0, 3}); x[1] = v * 1000 + 2; x[2] = 7; result("splice by types", g, x); break; }
      case 20: { auto g = as<q>(i).splice(std::move(two), vals<bounds{.start = 3}>); typed(is<decltype(g), A, B, C, Tracked, Tracked>); counts = out; if (out) gone(i, {0, 1, 2}); x.pop_back(); x.push_back(v); x.push_back(w); result("splice of what may be moved", g, x); pairs_left({Gone, Gone}, "splice"); break; }
      case 21: { auto g = as<q>(i).splice(std::move(two), vals<bounds{.start = 2, .count = 0}>); typed(is<decltype(g), A, B, Tracked, Tracked, C, D>); counts = out; if (out) gone(i, {0, 1, 2, 3}); x.insert(x.begin() + 2, {v, w}); result("splice between", g, x); pairs_left({Gone, Gone}, "splice"); break; }
      case 22: at_place<4>(w, [&]<size_t n>(best::index_t<n>) { auto g = as<q>(i).remove(best::index<n>); typed(replaced<decltype(g), R, n, n + 1>); counts = out; if (out) for (int k = 0; k < 4; ++k) if (k != (int)n) gone(i, {k}); x.erase(x.begin() + n); result("remove", g, x); }); break;
      case 23: at_place<15>(w, [&]<size_t n>(best::index_t<n>) {
        constexpr size_t a = n < 5 ? 0 : n < 9 ? 1 : n < 12 ? 2 : n < 14 ? 3 : 4, b = n < 5 ? n : n < 9 ? n - 4 : n < 12 ? n - 7 : n < 14 ? n - 9 : 4;
        M want(x.begin() + a, x.begin() + b);
        auto g = as<q>(i).at(vals<bounds{.start = a, .end = b}>); typed(std::is_same_v<decltype(list_of(g)), decltype(part<a, b>(list_of(best::lie<R>)))>);
        counts = out; if (out) for (size_t k = a; k < b; ++k) gone(i, {(int)k}); result("part", g, want); }); break;
      case 24: at_place<15>(w, [&]<size_t n>(best::index_t<n>) {
        constexpr size_t a = n < 5 ? 0 : n < 9 ? 1 : n < 12 ? 2 : n < 14 ? 3 : 4, b = n < 5 ? n : n < 9 ? n - 4 : n < 12 ? n - 7 : n < 14 ? n - 9 : 4;
        M want = x; want.erase(want.begin() + a, want.begin() + b);
        auto g = as<q>(i).erase(vals<bounds{.start = a, .end = b}>); typed(replaced<decltype(g), R, a, b>);
        counts = out; if (out) for (size_t k = 0; k < 4; ++k) if (k < a || k >= b) gone(i, {(int)k}); result("erase", g, want); }); break;
      case 25: { auto g = as<q>(i).erase(vals<bounds{}>); typed(is<decltype(g)>); counts = true; result("erase of everything", g, {}); break; }
      case 26: { auto g = as<q>(i).template gather<3, 2, 1, 0>(); typed(is<decltype(g), D, C, B, A>); counts = out; if (out) gone(i, {0, 1, 2, 3}); result("gather", g, {x[3], x[2], x[1], x[0]}); break; }
      case 27: { auto g = as<q>(i).template gather<2, 0>(); typed(is<decltype(g), C, A>); counts = out; if (out) gone(i, {0, 2}); result("gather of two", g, {x[2], x[0]}); break; }
      case 28: { auto g = as<q>(i).template gather<>(); typed(is<decltype(g)>); counts = true; result("gather of nothing", g, {}); break; }
      case 29: if constexpr (q != 2) { auto g = as<q>(i).template gather<1, 3, 1>(); typed(is<decltype(g), B, D, B>); result("gather of one twice", g, {x[1], x[3], x[1]}); } break;
      case 30: { auto g = as<q>(i).template scatter<2, 0>(two); typed(is<decltype(g), Tracked, B, Tracked, D>); if (out) gone(i, {1, 3}); x[2] = v; x[0] = w; result("scatter", g, x); pairs_left({v, w}, "scatter"); break; }
      case 31: { auto g = as<q>(i).template scatter<1>(best::row<Tracked>(v)); counts = out; typed(is<decltype(g), A, Tracked, C, D>); if (out) gone(i, {0, 2, 3}); x[1] = v; result("scatter of one", g, x); break; }
      case 32: { auto g = as<q>(i).template scatter<3, 0>(types<Handle, Tracked>, best::row(v, w)); typed(is<decltype(g), Tracked, B, C, Handle>); if (out) gone(i, {1, 2}); x[3] = v; x[0] = w; result("scatter by types", g, x); break; }
      case 33: {
        counts = true;
        auto g = as<q>(i).as_ref(); result("as_ref", g, x);
        if (std::addressof(g.second()) != std::addressof(as<0>(i).second())) fail("C23", "rebound", "as_ref refers to something else");
        if constexpr (q == 0 && !std::is_reference_v<D> && std::is_same_v<D, Handle>) { g.last() = Handle(v); m[i][3] = v; reach("written-through"); }
        break;
      }
      case 34: {
        // Whatever the elements are, a row made of the same arguments is the same.
        counts = out;
        R g(best::bind, as<q>(i).get(best::index<0>), as<q>(i).get(best::index<1>), as<q>(i).get(best::index<2>), as<q>(i).get(best::index<3>));
        if (out) gone(i, {0, 1, 2, 3});
        result("a row of the elements", g, x); break;
      }
      case 35: { auto g = as<q>(i).select(types<Tracked>); counts = out; M want; int k = 0; auto each = [&]<typename E>(std::type_identity<E>) { if (std::is_same_v<E, Tracked>) { want.push_back(x[k]); if (out) gone(i, {k}); } ++k; }; each(std::type_identity<A>{}); each(std::type_identity<B>{}); each(std::type_identity<C>{}); each(std::type_identity<D>{}); result("select", g, want); break; }
      case 36: { R g(as<q>(i)); counts = out; if (out) gone(i, {0, 1, 2, 3}); result("another", g, x); break; }
      case 37: {
        auto g = as<q>(i).as_args(); counts = out;
        best::object<R> box(best::in_place, std::move(g)); if (out) gone(i, {0, 1, 2, 3});
        result("a row made of another's arguments", *box, x); break;
      }
    }
    (void)j;
    if (counts && reg.copies != copies) fail("C23,C02", "copied", "operation %d on a row that may be moved from copied %llu elements", (int)((u64)o.arg(4) % 38), (unsigned long long)(reg.copies - copies));
    reach(q == 0 ? "from-a-row" : q == 1 ? "from-a-constant-row" : "moved-out-of");
  }
  void other(const Op& o) {
    int i = (u64)o.arg(2) % 2, j = 1 - i;
    i64 v = 1000 + (i64)((u64)o.arg(3) % 9000);
    switch ((u64)o.arg(4) % 9) {
      case 0: { M x; *r[i] = fresh(v, x); m[i] = x; reach("assigned-new"); break; }
      case 1: if constexpr (Copies) { *r[i] = *r[j]; m[i] = m[j]; reach("assigned"); } break;
      case 2: *r[i] = std::move(*r[j]); m[i] = m[j]; gone(j, {0, 1, 2, 3}); reach("move-assigned"); break;
      case 3: if constexpr (Copies) { *r[i] = *&*r[i]; reach("self-assigned"); } break;
      case 4: { using std::swap; swap(*r[i], *r[j]); std::swap(m[i], m[j]); reach("swapped"); break; }
      case 5: { auto fresh_row = std::make_unique<R>(std::move(*r[i])); M x = m[i]; gone(i, {0, 1, 2, 3}); verify("moving"); r[i] = std::move(fresh_row); m[i] = x; break; }
      case 6: if constexpr (std::is_same_v<A, B> && std::is_same_v<B, C> && std::is_same_v<C, D>) {
        // Its own elements in another order.
        switch ((u64)v % 4) {
          case 0: *r[i] = std::move(*r[i]).template gather<3, 1, 0, 2>(); m[i] = M{m[i][3], m[i][1], m[i][0], m[i][2]}; break;
          case 1: *r[i] = r[i]->template gather<1, 1, 0, 3>(); m[i] = M{m[i][1], m[i][1], m[i][0], m[i][3]}; break;
          case 2: *r[i] = r[i]->template scatter<3, 1>(best::types<A, A>, best::row(best::bind, r[j]->second(), r[i]->first())); m[i] = M{m[i][0], m[i][0], m[i][2], m[j][1]}; break;
          case 3: *r[i] = (*r[i])[best::vals<best::bounds{.start = 2}>].join((*r[j])[best::vals<best::bounds{.start = 1, .count = 2}>]); m[i] = M{m[i][2], m[i][3], m[j][1], m[j][2]}; break;
        }
        reach("rearranged");
      } break;
      // An object takes a new value; one that refers refers to something else.
      case 7: if constexpr (std::is_same_v<C, Tracked&>) { r[i]->object(best::index<2>) = sh->t[(u64)v % 3]; m[i][2] = 901 + v % 3; if (&r[i]->at(best::index<2>) != &sh->t[(u64)v % 3]) fail("C23", "rebound", "a reference in a row does not refer to what was assigned"); reach("rebound"); } else if constexpr (std::is_same_v<C, Tracked>) { r[i]->object(best::index<2>) = Tracked(v); m[i][2] = v; } break;
      case 8: if constexpr (std::is_same_v<D, const i64&>) { r[i]->object(best::index<3>) = sh->n[(u64)v % 3]; m[i][3] = 911 + v % 3; } else if constexpr (std::is_same_v<D, Handle>) { r[i]->object(best::index<3>) = r[j]->object(best::index<3>); m[i][3] = m[j][3]; } break;
    }
  }
  void step(const Op& o) {
    if (o.kind == "assign") other(o);
    else switch ((u64)o.arg(1) % (Copies ? 3 : 1) + (Copies ? 0 : 2)) {
      case 0: if constexpr (Copies) op<0>(o); break;
      case 1: if constexpr (Copies) op<1>(o); break;
      case 2: op<2>(o); break;
    }
    verify(o.kind == "assign" ? "after an assignment" : "after an operation");
  }
};

// Rows of one and of two elements, which are stored in ways of their own.
template <typename A, typename B> struct Small {
  using M = std::vector<i64>;
  std::unique_ptr<best::row<A, B>> two;
  std::unique_ptr<best::row<B>> one;
  M m2, m1;
  static constexpr i64 keep(i64 v) { return std::is_void_v<B> ? Nothing : v; }
  static auto b(i64 v) { if constexpr (std::is_void_v<B>) return best::empty{}; else return make<B>(v); }
  void start(Shared*) { fill(7); }
  void fill(i64 v) {
    two = std::make_unique<best::row<A, B>>(best::bind, make<A>(v), b(v + 1)); one = std::make_unique<best::row<B>>(best::bind, b(v + 2));
    m2 = {v, keep(v + 1)}; m1 = {keep(v + 2)};
  }
  template <typename G> void result(const char* what, const G& got, const M& want) {
    if (M g = values(got); g != want) fail("C23,C02", "row-result", "%s of a small row gave %s, expected %s", what, show(g).c_str(), show(want).c_str());
  }
  void step(const Op& o) {
    using namespace best;
    i64 v = 1000 + (i64)((u64)o.arg(3) % 9000);
    M x = m2, y = m1; u64 copies = reg.copies;
    auto lost2 = [&] { m2 = {left<A>(m2[0]), left<B>(m2[1])}; };
    auto lost1 = [&] { m1 = {left<B>(m1[0])}; };
    auto& t = *two; auto& s = *one;
    bool counts = true;
    switch ((u64)o.arg(4) % 16) {
      case 0: fill(v); break;
      case 1: { auto g = std::move(t).join(std::move(s)); if (!is<decltype(g), A, B, B>) fail("C23", "row-type", "join"); lost2(); lost1(); result("join", g, {x[0], x[1], y[0]}); break; }
      case 2: { auto g = std::move(s) + std::move(t); if (!is<decltype(g), B, A, B>) fail("C23", "row-type", "sum"); lost2(); lost1(); result("sum", g, {y[0], x[0], x[1]}); break; }
      case 3: { auto g = std::move(t).remove(best::index<0>); if (!is<decltype(g), B>) fail("C23", "row-type", "remove"); m2[1] = left<B>(m2[1]); result("remove", g, {x[1]}); break; }
      case 4: { auto g = std::move(s).remove(best::index<0>); if (!is<decltype(g)>) fail("C23", "row-type", "remove"); result("remove", g, {}); break; }
      case 5: { auto g = std::move(s).insert(types<A>, make<A>(v), best::index<0>); if (!is<decltype(g), A, B>) fail("C23", "row-type", "insert"); lost1(); result("insert", g, {v, y[0]}); t = std::move(g); m2 = {v, y[0]}; break; }
      case 6: { auto g = std::move(t).update(types<A>, make<A>(v), best::index<0>); lost2(); m2[0] = x[0]; result("update", g, {v, x[1]}); break; }
      case 7: { auto g = std::move(t).template gather<1, 0>(); if (!is<decltype(g), B, A>) fail("C23", "row-type", "gather"); lost2(); result("gather", g, {x[1], x[0]}); break; }
      case 8: { auto g = std::move(t).template scatter<0>(best::row<A>(make<A>(v))); lost2(); m2[0] = x[0]; result("scatter", g, {v, x[1]}); break; }
      case 9: { auto g = std::move(t)[vals<bounds{.start = 1}>]; m2[1] = left<B>(m2[1]); result("the second", g, {x[1]}); s = std::move(g); m1 = {x[1]}; break; }
      case 10: { best::row<A, B> g(std::move(t)); lost2(); result("another", g, x); t = std::move(g); m2 = x; break; }
      case 11: { auto g = std::move(s).push(best::bind, t); if (!is<decltype(g), B, best::row<A, B>&>) fail("C23", "row-type", "push"); lost1(); if (std::addressof(g.last()) != two.get()) fail("C23", "rebound", "a row refers to something else than what was pushed"); break; }
      case 12: { if (value(t.get(best::index<0>)) != x[0] || value(t.get(best::index<1>)) != x[1] || value(s.get(best::index<0>)) != y[0]) fail("C23", "access", "an element of a small row is not what it holds"); std::as_const(t).apply([&](auto&& a, auto&& bb) { if (value(a) != x[0] || value(bb) != x[1]) fail("C23", "apply", "a function applied to a small row got other elements"); }); break; }
      case 13: { t.each([&](auto&&... e) { if constexpr (sizeof...(e)) ([&](auto& z) { if constexpr (std::is_same_v<std::remove_cvref_t<decltype(z)>, A>) z = make<A>(v); }(e), ...); }); m2[0] = v; if constexpr (std::is_same_v<A, B>) m2[1] = v; reach("written-through"); break; }
      case 14: { t.first() = make<A>(v); m2[0] = v; break; }
      case 15: { if (v % 2) *t.object(best::index<0>) = make<A>(v); else t.object(best::index<0>) = make<A>(v); m2[0] = v; if (std::addressof(t.first()) != std::addressof(t.at(best::index<0>))) fail("C23", "access", "first() and at(0) differ"); break; }
    }
    if (counts && reg.copies != copies) fail("C23,C02", "copied", "operation %d on a small row that may be moved from copied elements", (int)((u64)o.arg(4) % 16));
    if (M g = values(*two); g != m2) fail("C23,C02", "row", "a row of two holds %s, expected %s", show(g).c_str(), show(m2).c_str());
    if (M g = values(*one); g != m1) fail("C23,C02", "row", "a row of one holds %s, expected %s", show(g).c_str(), show(m1).c_str());
    reach("small");
  }
};

struct RowWorld {
  Shared sh;
#if KIND == 0
  Rows<best::row<Tracked, Tracked, Tracked, Tracked>> k0;
  Rows<best::row<Tracked, Tracked, Tracked&, const i64&>> k1;
#elif KIND == 1
  Rows<best::row<Tracked, i64, Tracked, Handle>> k0;
  Rows<best::row<Precious, Tracked, Precious, Handle>> k1;
#else
  Rows<best::row<Handle, Tracked, void, Tracked>> k0;
  Rows<best::row<i64, Text, Tracked, Pair>> k1;
#endif
  Small<Tracked, Handle> s0; Small<Precious, Precious> s1; 
#if KIND == 2
  Small<Tracked, void> s2;
#else
  Small<Tracked, Tracked> s2;
#endif
  Small<Text, Tracked> s3;
  RowWorld() { s0.start(&sh); s1.start(&sh); s2.start(&sh); s3.start(&sh); k0.start(&sh); k1.start(&sh); }
  void step(const Op& o) {
    switch ((u64)o.arg(0) % 8) {
      case 0: s0.step(o); break;
      case 1: s1.step(o); break;
      case 2: s2.step(o); break;
      case 3: s3.step(o); break;
      case 4: case 5: k0.step(o); break;
      case 6: case 7: k1.step(o); break;
    }
    for (int i = 0; i < 3; ++i) if (sh.t[i].value != 901 + i || sh.n[i] != 911 + i) { fail("C23", "referred-to", "what rows refer to was changed to %lld, %lld", (long long)sh.t[i].value, (long long)sh.n[i]); return; }
  }
};
void gen(Rng& r, Plan& p) {
  int n = 4 + r.below(40);
  u64 only = r.chance(50) ? r.below(8) : 99;
  while (n--) p.add(r.chance(25) ? "assign" : "op", {(i64)(only < 8 ? only : r.below(8)), (i64)r.below(3), (i64)r.below(2), (i64)r.below(9000), (i64)r.below(38 * 9 * 16)});
}
void run(const Plan& p) {
  death_means("C23,C02,C03");
  reg.clear(); reg.props = reg.bytewise = "C02,C23"; heap::on_free(reg_freed);
  int st = run_process([&] {
    RowWorld w;
    for (auto& op : p.ops) {
      set_op(&op); w.step(op);
      state(mix2((u64)op.arg(0) % 8 * 3 + (u64)op.arg(1) % 3, (u64)op.arg(4) % 38));
      
    }
    if (p.ops.size() >= 3) nontrivial();
  });
  if (st != -1) fail("C23", "ended", "an operation on rows ended the process with status %d: %s", st, err.data.c_str());
  check_nothing_left("rows");
}
#define NAME2(k) "row" #k
#define NAME(k) NAME2(k)
RegisterWorld w1({NAME(KIND), gen, run, 0});
}  // namespace
}  // namespace sim

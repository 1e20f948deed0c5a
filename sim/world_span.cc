// World: views of arrays placed flush against unreadable memory, narrowed step
// by step and accessed in every checked way, inside and outside what exists, as
// views of any and of a fixed size (C11; also C02, C03).
#include <array>
#include "elems.h"
#include "best/container/row.h"
#include "best/container/vec.h"
#include "best/memory/span.h"

#ifndef SPAN_PART
#define SPAN_PART 0
#endif
#define STR2(x) #x
#define STR(x) STR2(x)

namespace sim {
namespace {
constexpr size_t Max = ~size_t{0};
template <typename T> i64 norm(i64 v) { if constexpr (std::is_integral_v<T>) return (i64)(T)v; else return v; }
template <typename T> T make(i64 v) { if constexpr (std::is_integral_v<T>) return (T)v; else return T(v); }
template <typename T> i64 val(const T& x) {
  if constexpr (std::is_integral_v<T>) return (i64)x;
  else if constexpr (requires { x.t; }) { x.t.check("read"); return x.t.value; }
  else { x.check("read"); return x.value; }
}
size_t big(i64 v, size_t n) { return v == -1 ? Max : v == -2 ? Max - 1 : v == -3 ? Max >> 1 : v == -4 ? Max - n : v == -5 ? Max / 8 : (size_t)v; }

template <typename F> int attempt(F f) { err.data.clear(); return run_process(f); }

template <typename T> struct Views {
  struct Array { T* p = nullptr; size_t n = 0; std::vector<i64> m; };
  struct View { int a; size_t off, len; best::span<T> v; };
  Array arrays[3];
  View views[4];
  std::string now;

  void make_array(int i, size_t n, i64 base) {
    Array& a = arrays[i];
    a.p = (T*)heap::get(n ? n * sizeof(T) : 1, alignof(T), 50 + i, false);
    a.n = n; a.m.clear();
    for (size_t k = 0; k < n; ++k) { a.m.push_back(norm<T>(base + (i64)k)); new (a.p + k) T(make<T>(base + (i64)k)); }
  }
  void drop_array(int i) { Array& a = arrays[i]; for (size_t k = 0; k < a.n; ++k) a.p[k].~T(); if (a.p) heap::put(a.p); a = {}; }
  i64& model(View& w, size_t k) { return arrays[w.a].m[w.off + k]; }
  T* at(View& w, size_t k) { return arrays[w.a].p + w.off + k; }

  // Whether a view that was obtained covers what it should.
  template <typename S> bool covers(const S& s, View& w, size_t off, size_t len) {
    return s.size() == len && (!len || s.data().raw() == at(w, off));
  }
  void unchanged(const char* what) {
    for (auto& a : arrays) for (size_t k = 0; k < a.n; ++k)
      if (val(a.p[k]) != a.m[k]) { fail("C11", "altered", "%s altered element %zu of an array: %lld, expected %lld", what, k, (long long)val(a.p[k]), (long long)a.m[k]); a.m[k] = val(a.p[k]); }
    for (auto& w : views) if (w.v.size() != w.len || (w.len && w.v.data().raw() != at(w, 0))) { fail("C11", "view-changed", "%s changed a view: %zu elements, expected %zu", what, (size_t)w.v.size(), w.len); w.v = best::span<T>(at(w, 0), w.len); }
  }
  void verdict(const char* what, int st, bool exists) {
    if (exists) { if (st != -1) fail("C11", "refused", "%s: %s is refused though it exists", now.c_str(), what); return; }
    if (st == -1) { fail("C11", "not-refused", "%s: %s is not refused", now.c_str(), what); return; }
    if (st != 128) fail("C11,C10", "refused-status", "%s: %s ended the process with status %d", now.c_str(), what, st);
    else if (err.data.empty()) fail("C11,C10", "refused-silent", "%s: %s ended the process without a diagnostic", now.c_str(), what);
    reach("refused-access");
  }
  void presence(const char* what, bool got, bool exists) {
    if (got != exists) fail("C11", "presence", "%s: %s is %s", now.c_str(), what, got ? "present though it does not exist" : "absent though it exists");
    else if (!exists) reach("reported-absent");
  }
  void right(const char* what, bool ok) { if (!ok) fail("C11", "something-else", "%s: %s is something else", now.c_str(), what); }

  // Everything a view of any kind (of fixed size or not, const or not) can be asked.
  template <typename S> void ask(S s, View& w, const Op& o) {
    size_t n = w.len;
    i64 form = o.arg(1);
    size_t i = big(o.arg(2), n), j = big(o.arg(3), n);
    right("the view", covers(s, w, 0, n));
    switch ((u64)form % 9) {
      case 0: {
        i64 got = 0;
        int st = attempt([&] { got = val(s[i]); });
        verdict(fmt("[%zu]", i).c_str(), st, i < n);
        if (st == -1 && i < n) right(fmt("[%zu]", i).c_str(), got == model(w, i));
        auto x = s.at(i);
        presence(fmt("at(%zu)", i).c_str(), x.has_value(), i < n);
        if (x && i < n) right(fmt("at(%zu)", i).c_str(), &*x == at(w, i));
        break;
      }
      case 1: {   // by range
        best::bounds b; size_t st = i, e = 0; bool ok = false; int shape = (int)((u64)o.arg(4) % 5);
        b.start = st;
        switch (shape) {
          case 0: e = n; ok = st <= n; break;
          case 1: e = j; b.end = j; ok = st <= j && j <= n; break;
          case 2: e = j + 1; b.including_end = j; ok = st <= j && j < n; break;
          case 3: e = st + j; b.count = j; ok = st <= n && j <= n - st; break;
          // The first one given wins.
          default: e = j; b.end = j; b.including_end = st; b.count = Max; ok = st <= j && j <= n;
        }
        auto say = fmt("the range %zu, %zu (form %d)", i, j, shape);
        size_t len = 0; const T* p = nullptr;
        int r = attempt([&] { auto sub = s[b]; len = sub.size(); p = sub.data().raw(); });
        verdict(say.c_str(), r, ok);
        if (r == -1 && ok) right(say.c_str(), len == e - st && (!len || p == at(w, st)));
        auto x = s.at(b);
        presence(say.c_str(), x.has_value(), ok);
        if (x && ok) right(say.c_str(), covers(*x, w, st, e - st));
        if (ok) { auto y = s.at(best::unsafe("it was checked"), b); right(say.c_str(), covers(y, w, st, e - st)); }
        break;
      }
      case 2: {   // one from either end
        auto f = s.first(); auto l = s.last();
        presence("first()", f.has_value(), n > 0); presence("last()", l.has_value(), n > 0);
        if (f && n) right("first()", &*f == at(w, 0));
        if (l && n) right("last()", &*l == at(w, n - 1));
        auto sf = s.split_first(); auto sl = s.split_last();
        presence("split_first()", sf.has_value(), n > 0); presence("split_last()", sl.has_value(), n > 0);
        if (sf && n) right("split_first()", &sf->first() == at(w, 0) && covers(sf->second(), w, 1, n - 1));
        if (sl && n) right("split_last()", &sl->first() == at(w, n - 1) && covers(sl->second(), w, 0, n - 1));
        break;
      }
      case 3: some<0>(s, w, o); some<1>(s, w, o); some<2>(s, w, o); some<3>(s, w, o); some<7>(s, w, o); break;
      case 4: {
        bool ok = i <= n;
        auto x = s.split_at(i);
        presence(fmt("split_at(%zu)", i).c_str(), x.has_value(), ok);
        if (x && ok) right("split_at", covers((*x)[0], w, 0, i) && covers((*x)[1], w, i, n - i));
        break;
      }
      case 5:
        if constexpr (!S::is_const) {
          int st = attempt([&] { s.swap(i, j); });
          bool ok = i < n && j < n;
          verdict(fmt("swap(%zu, %zu)", i, j).c_str(), st, ok);
          if (ok && st == -1) std::swap(model(w, i), model(w, j));
        }
        break;
      case 6: {   // at positions fixed in the program
        at_index<0>(s, w); at_index<1>(s, w); at_index<3>(s, w); at_index<6>(s, w);
        at_range<best::bounds{.start = 1, .count = 2}>(s, w, 1, 3); at_range<best::bounds{.end = 3}>(s, w, 0, 3);
        at_range<best::bounds{.start = 2, .including_end = 3}>(s, w, 2, 4); at_range<best::bounds{.start = 4, .count = 0}>(s, w, 4, 4);
        break;
      }
      case 7: {   // iterating
        size_t k = 0; bool bad = false;
        for (auto& x : s) { if (k >= n || &x != at(w, k)) { bad = true; break; } ++k; }
        if (bad || k != n) fail("C11", "iterate", "%s: iterating visits something else, or %zu elements", now.c_str(), k);
        auto it = s.iter(); size_t taken = n ? i % (n + 1) : 0;
        for (size_t q = 0; q < taken; ++q) (void)it.next();
        right("the rest of an iterator", covers(it->rest(), w, taken, n - taken));
        break;
      }
      default: {
        // Does it begin or end with a part of another array?
        View& q = views[(u64)o.arg(4) % 4]; size_t a = q.len ? i % (q.len + 1) : 0, len = q.len ? j % (q.len - a + 1) : 0;
        best::span<const T> part((const T*)at(q, a), len);
        if constexpr (best::equatable<T>) {
          auto same = [&](size_t from) { if (len > n) return false; for (size_t k = 0; k < len; ++k) if (model(w, from + k) != model(q, a + k)) return false; return true; };
          bool starts = same(0), ends = len <= n && same(n - len);
          right("starts_with()", s.starts_with(part) == starts); right("ends_with()", s.ends_with(part) == ends);
          auto p = s.strip_prefix(part); presence("strip_prefix()", p.has_value(), starts); if (p && starts) right("strip_prefix()", covers(*p, w, len, n - len));
          auto x = s.strip_suffix(part); presence("strip_suffix()", x.has_value(), ends); if (x && ends) right("strip_suffix()", covers(*x, w, 0, n - len));
          best::option<size_t> f = s.find(part);
          size_t want = Max; for (size_t k = 0; k + len <= n; ++k) { bool eq = true; for (size_t z = 0; z < len && eq; ++z) eq = model(w, k + z) == model(q, a + z); if (eq) { want = k; break; } }
          presence("find()", f.has_value(), want != Max); if (f && want != Max) right("find()", *f == want);
        }
        break;
      }
    }
    unchanged("asking");
  }
  template <size_t k, typename S> void some(S s, View& w, const Op& o) {
    size_t n = w.len; bool ok = k <= n;
    if constexpr (S::is_dynamic || k <= best::static_size<S>.value_or(0)) {
      auto f = s.template first<k>(); auto l = s.template last<k>();
      presence(fmt("first<%zu>()", k).c_str(), f.has_value(), ok); presence(fmt("last<%zu>()", k).c_str(), l.has_value(), ok);
      if (f && ok) right("first<>()", covers(*f, w, 0, k));
      if (l && ok) right("last<>()", covers(*l, w, n - k, k));
      auto sf = s.template split_first<k>(); auto sl = s.template split_last<k>();
      presence(fmt("split_first<%zu>()", k).c_str(), sf.has_value(), ok); presence(fmt("split_last<%zu>()", k).c_str(), sl.has_value(), ok);
      if (sf && ok) right("split_first<>()", covers(sf->first(), w, 0, k) && covers(sf->second(), w, k, n - k));
      if (sl && ok) right("split_last<>()", covers(sl->first(), w, n - k, k) && covers(sl->second(), w, 0, n - k));
    }
  }
  template <size_t k, typename S> void at_index(S s, View& w) {
    if constexpr (requires { s[best::index<k>]; }) {
      const T* p = nullptr;
      int st = attempt([&] { p = &s[best::index<k>]; });
      verdict(fmt("[index<%zu>]", k).c_str(), st, k < w.len);
      if (st == -1 && k < w.len) right("[index<>]", p == at(w, k));
    }
  }
  template <best::bounds b, typename S> void at_range(S s, View& w, size_t st, size_t e) {
    if constexpr (requires { s[best::vals<b>]; }) {
      size_t len = 0; const T* p = nullptr;
      int r = attempt([&] { auto x = s[best::vals<b>]; len = x.size(); p = x.data().raw(); });
      bool ok = e <= w.len;
      verdict(fmt("[vals<%zu to %zu>]", st, e).c_str(), r, ok);
      if (r == -1 && ok) right("[vals<>]", len == e - st && (!len || p == at(w, st)));
    }
  }
  // The same through a view of a fixed size.
  template <size_t k> void fixed(View& w, const Op& o) {
    bool made = false; best::span<T, k>* out = nullptr; alignas(best::span<T, k>) char room[sizeof(best::span<T, k>)];
    int st = attempt([&] {
      if (o.arg(5) % 3 == 0) out = new (room) best::span<T, k>(w.v);
      else if (o.arg(5) % 3 == 1) out = new (room) best::span<T, k>(w.v.data(), w.v.size());
      else { best::span<const T, k> c(w.v); made = c.size() == k; out = new (room) best::span<T, k>(w.v); }
    });
    (void)made;
    verdict(fmt("making a view of %zu elements of it", k).c_str(), st, w.len == k);
    if (st == -1 && w.len == k) { reach("fixed-size"); ask(*out, w, o); }
  }

  void step(const Op& o) {
    set_op(&o);
    View& w = views[(u64)o.arg(0) % 4];
    size_t n = w.len;
    now = fmt("a view of %zu elements", n);
    size_t i = big(o.arg(2), n), j = big(o.arg(3), n);
    if (o.kind == "ask") ask(w.v, w, o);
    else if (o.kind == "askconst") ask(best::span<const T>(w.v), w, o);
    else if (o.kind == "fixed") switch ((u64)o.arg(6) % 6) { case 0: fixed<0>(w, o); break; case 1: fixed<1>(w, o); break; case 2: fixed<2>(w, o); break; case 3: fixed<4>(w, o); break; case 4: fixed<5>(w, o); break; default: exact(w, o); }
    else if (o.kind == "take") {
      bool front = o.arg(1) & 1, ok = i <= n;
      auto x = front ? w.v.take_first(i) : w.v.take_last(i);
      presence(front ? "take_first()" : "take_last()", x.has_value(), ok);
      if (ok && x) {
        right("what was taken", covers(*x, w, front ? 0 : n - i, i));
        if (front) w.off += i; w.len -= i;
        reach("narrowed");
      }
      unchanged(front ? "take_first()" : "take_last()");
    } else if (o.kind == "narrow") {
      if (n == 0) return;
      size_t st = i % (n + 1), len = j % (n - st + 1);
      w.v = w.v[{.start = st, .count = len}]; w.off += st; w.len = len;
      unchanged("narrowing");
    } else if (o.kind == "consume") {
      if constexpr (best::equatable<T>) {
        View& q = views[(u64)o.arg(4) % 4]; size_t len = q.len ? j % (q.len + 1) : 0; bool front = o.arg(1) & 1;
        size_t a = front ? 0 : q.len - len;
        best::span<const T> part((const T*)at(q, a), len);
        bool ok = len <= n; for (size_t k = 0; ok && k < len; ++k) ok = model(w, front ? k : n - len + k) == model(q, a + k);
        bool got = front ? w.v.consume_prefix(part) : w.v.consume_suffix(part);
        right("whether a part was consumed", got == ok);
        if (got && ok) { if (front) w.off += len; w.len -= len; }
        unchanged("consuming");
      }
    } else if (o.kind == "look") {   // look at something else
      int a = (int)((u64)o.arg(4) % 3); w.a = a; w.off = 0; w.len = arrays[a].n; w.v = best::span<T>(arrays[a].p, arrays[a].n);
    } else if (o.kind == "write") {
      T e = make<T>(o.uid * 100);
      int st = attempt([&] { w.v[i] = std::move(e); });
      verdict("writing", st, i < n);
      if (st == -1 && i < n) model(w, i) = norm<T>(o.uid * 100);
      unchanged("writing");
    } else if (o.kind == "reverse") {
      w.v.reverse();
      for (size_t a = 0, b = n; a + 1 < b; ++a) { --b; std::swap(model(w, a), model(w, b)); }
      unchanged("reversing");
    } else if (o.kind == "copy") {
      View& q = views[(u64)o.arg(4) % 4];
      if (q.a == w.a && q.off != w.off) return;   // overlapping parts
      w.v.copy_from(best::span<const T>(q.v));
      for (size_t k = 0; k < std::min(n, q.len); ++k) model(w, k) = model(q, k);
      unchanged("copying");
    } else if (o.kind == "emplace") {   // into memory with nothing in it
      size_t room = i % 9; if (!room) return;
      T* p = (T*)heap::get(room * sizeof(T), alignof(T), 60, false);
      best::span<T> to(p, room); to.emplace_from(best::span<const T>(w.v));
      size_t k = std::min(room, n);
      for (size_t z = 0; z < k; ++z) if (val(p[z]) != model(w, z)) { fail("C11,C02", "copied", "%s: a copy of element %zu is %lld", now.c_str(), z, (long long)val(p[z])); break; }
      best::span<T>(p, k).destroy();
      heap::put(p);
      unchanged("copying out");
    } else if (o.kind == "nul") {   // until the first zero
      if constexpr (std::is_integral_v<T>) {
        size_t z = 0; while (z < n && model(w, z) != 0) ++z;
        if (z == n) return;
        auto x = best::span<const T>::from_nul(at(w, 0)); right("from_nul()", covers(x, w, 0, z));
        reach("until-zero");
      }
    } else if (o.kind == "zero") {
      if (!n) return;
      size_t k = i % n; w.v[k] = make<T>(0); model(w, k) = 0;
    }
  }
  void exact(View& w, const Op& o) {
    switch (w.len) { case 0: fixed<0>(w, o); break; case 1: fixed<1>(w, o); break; case 2: fixed<2>(w, o); break; case 3: fixed<3>(w, o); break; case 4: fixed<4>(w, o); break; case 5: fixed<5>(w, o); break; }
  }
  static void go(const Plan& p) {
    death_means("C11,C02,C03");
    reg.clear(); heap::on_free(reg_freed);
    {
      Views s;
      for (int i = 0; i < 3; ++i) s.make_array(i, (size_t)p.get(i == 0 ? "n0" : i == 1 ? "n1" : "n2"), i == 2 ? 0 : 10 * i);
      for (int i = 0; i < 4; ++i) { s.views[i] = {i % 3, 0, s.arrays[i % 3].n, best::span<T>(s.arrays[i % 3].p, s.arrays[i % 3].n)}; }
      for (auto& o : p.ops) { s.step(o); auto& w = s.views[(u64)o.arg(0) % 4]; state(mix2(mix2(w.len, w.off), mix2((u64)p.get("elem"), (u64)o.arg(1) % 9 * 16 + o.kind.size()))); }
      Op fin; fin.kind = "teardown"; fin.uid = 999999; set_op(&fin);
      for (int i = 0; i < 3; ++i) s.drop_array(i);
    }
    check_nothing_left("views");
    if (p.ops.size() >= 3) nontrivial();
  }
};

void gen(Rng& r, Plan& p) {
  p.cfg["elem"] = (i64)r.below(3);
  size_t most = r.chance(70) ? 8 : 40;
  p.cfg["n0"] = (i64)r.below(most); p.cfg["n1"] = (i64)r.below(most); p.cfg["n2"] = (i64)r.below(6);
  static const char* kinds[] = {"ask", "ask", "ask", "askconst", "fixed", "fixed", "take", "take", "narrow", "consume", "look", "write", "reverse", "copy", "emplace", "nul", "zero"};
  std::vector<const char*> use; int keep = 30 + (int)r.below(70);
  for (auto k : kinds) if (r.chance(keep)) use.push_back(k);
  use.push_back("ask"); use.push_back("look");
  int n = 3 + (int)r.below(r.chance(50) ? 10 : 40);
  auto pos = [&]() -> i64 { return r.chance(15) ? -1 - (i64)r.below(5) : (i64)r.below(r.chance(80) ? 9 : 45); };
  while (n--) p.add(r.pick(use), {(i64)r.below(4), (i64)r.below(18), pos(), pos(), (i64)r.below(12), (i64)r.below(6), r.chance(50) ? 5 : (i64)r.below(6)});
}
#if SPAN_PART == 0
void run(const Plan& p) { switch (p.get("elem")) { case 0: Views<int>::go(p); break; case 1: Views<u8>::go(p); break; default: Views<char16_t>::go(p); } }
#else
void run(const Plan& p) { switch (p.get("elem")) { case 0: Views<Tracked>::go(p); break; case 1: Views<Wide>::go(p); break; default: Views<Handle>::go(p); } }
#endif
RegisterWorld w1({"span" STR(SPAN_PART), gen, run, 0});
}  // namespace
}  // namespace sim

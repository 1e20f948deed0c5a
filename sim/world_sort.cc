// World: sorting and searching sequences of every kind, with the memory
// sorting would like refused in part or whole (C18; also C02, C03).
#include <algorithm>
#include <memory>
#include "elems.h"
#include "best/container/vec.h"
#include "best/memory/span.h"
#include "best/memory/span_sort.h"
#include "best/text/strbuf.h"

#ifndef SORT_PART
#define SORT_PART 0
#endif
#define STR2(x) #x
#define STR(x) STR2(x)

namespace sim {
namespace {
// Elements have a key, which is all that orders them, and a tag that tells
// them apart.
constexpr int Shift = 20;
i64 key_of(i64 v) { return v >> Shift; }
i64 tag_of(i64 v) { return v & ((1 << Shift) - 1); }
template <typename B> struct Keyed : B {
  using B::B;
  Keyed(const Keyed&) = default; Keyed(Keyed&&) = default;
  Keyed& operator=(const Keyed&) = default; Keyed& operator=(Keyed&&) = default;
  void live(const char* w) const { if constexpr (requires { this->t; }) this->t.check(w); else this->check(w); }
  i64 get(const char* w = "read") const { live(w); if constexpr (requires { this->t; }) return this->t.value; else return this->value; }
  friend bool operator==(const Keyed& a, const Keyed& b) { return key_of(a.get("compare")) == key_of(b.get("compare")); }
  friend std::strong_ordering operator<=>(const Keyed& a, const Keyed& b) { return key_of(a.get("compare")) <=> key_of(b.get("compare")); }
};
struct Pod { std::int32_t key, tag;
  explicit Pod(i64 v) : key((std::int32_t)key_of(v)), tag((std::int32_t)tag_of(v)) {}
  friend bool operator==(const Pod& a, const Pod& b) { return a.key == b.key; }
  friend std::strong_ordering operator<=>(const Pod& a, const Pod& b) { return a.key <=> b.key; } };
// Text: the key in the first four bytes, the tag after it; sometimes too long
// to be stored inline.
struct Txt { best::strbuf s;
  explicit Txt(i64 v) { char b[64]; int n = snprintf(b, sizeof b, "%04lld:%lld%s", (long long)key_of(v) + 5000, (long long)tag_of(v), tag_of(v) % 3 ? "" : "......................................"); s.push(*best::str::from(best::span<const char>(b, (size_t)n))); }
  best::str key() const { return s[{.end = 4}]; }
  i64 get() const { i64 k = 0, t = 0; auto* p = (const char*)s.data(); for (int i = 0; i < 4; ++i) k = k * 10 + (p[i] - '0'); for (size_t i = 5; i < s.size() && p[i] != '.'; ++i) t = t * 10 + (p[i] - '0'); return ((k - 5000) << Shift) + t; }
  friend bool operator==(const Txt& a, const Txt& b) { return a.key() == b.key(); }
  friend std::strong_ordering operator<=>(const Txt& a, const Txt& b) { return a.key() < b.key() ? std::strong_ordering::less : b.key() < a.key() ? std::strong_ordering::greater : std::strong_ordering::equal; } };
// Plain values, whose value is the key: there is nothing to tell equals apart.
template <typename T> constexpr bool Plain = std::is_arithmetic_v<T>;
template <typename T> T make(i64 v) { if constexpr (Plain<T>) return (T)key_of(v); else return T(v); }
template <typename T> i64 value(const T& x) {
  if constexpr (Plain<T>) return ((i64)x) << Shift;
  else if constexpr (std::same_as<T, Pod>) return ((i64)x.key << Shift) + x.tag;
  else return x.get();
}
template <typename T> i64 kept(i64 v) { if constexpr (Plain<T>) return ((i64)(T)key_of(v)) << Shift; else return v; }

// Functions given to sorting: they own storage, to notice being used too late.
struct Fn { std::unique_ptr<i64> keep{new i64(7)}; Fn() = default; Fn(Fn&&) = default; Fn(const Fn&) : Fn() {}
  void called() const { if (!keep || *keep != 7) fail("C18,C02", "dead-function", "sorting calls a function that was moved away or destroyed"); } };
template <typename T> struct KeyFn : Fn { i64 operator()(const T& x) const { called(); return key_of(value(x)); } };
template <typename T> struct CmpFn : Fn { best::partial_ord operator()(const T& a, const T& b) const { called(); i64 x = key_of(value(a)), y = key_of(value(b)); return x <=> y; } };
template <typename T> struct BackFn : Fn { best::partial_ord operator()(const T& a, const T& b) const { called(); i64 x = key_of(value(a)), y = key_of(value(b)); return y <=> x; } };
// A comparison that sorts something else.
template <typename T> struct BusyFn : Fn { best::partial_ord operator()(const T& a, const T& b) const { called(); i64 v[3] = {key_of(value(a)), 0, key_of(value(b))}; best::span<i64>(v, 3).stable_sort(); return key_of(value(a)) <=> key_of(value(b)); } };

const char* names[] = {"sort()", "sort(key)", "sort(comparison)", "stable_sort()", "stable_sort(key)", "stable_sort(comparison)", "stable_sort(backwards)", "stable_sort(busy comparison)"};

template <typename T> void session(const Plan& p) {
  best::vec<T> v; std::vector<i64> m;
  bool sorted = true; int done = 0;
  auto same = [&](const char* what) {
    if (v.size() != m.size()) { fail("C18", "size", "%s changed the size from %zu to %zu", what, m.size(), (size_t)v.size()); return; }
    for (size_t i = 0; i < m.size(); ++i) if (value(v[i]) != m[i]) { fail("C18", "altered", "%s altered element %zu, which was not part of it", what, i); return; }
  };
  for (auto& op : p.ops) {
    set_op(&op);
    if (op.kind == "fill") {
      v.clear(); m.clear();
      size_t n = (size_t)op.arg(0); Rng r((u64)op.arg(2)); i64 few = op.arg(3);
      for (size_t i = 0; i < n; ++i) {
        i64 k;
        switch (op.arg(1)) {
          case 0: k = (i64)r.below(few); break;
          case 1: k = (i64)(i * few / (n ? n : 1)); break;
          case 2: k = (i64)((n - i) * few / (n ? n : 1)); break;
          case 3: k = (i64)((i < n / 2 ? i : n - i) * 2 * few / (n ? n : 1)); break;
          case 4: k = 3; break;
          case 5: k = (i64)(i * few / (n ? n : 1)); if (r.chance(5)) k = (i64)r.below(few); break;
          default: k = (i64)(i % (size_t)few); break;
        }
        k -= few / 3;  // some are negative
        i64 x = (k << Shift) + (i64)((i * 7919) & 0xfffff);
        x = kept<T>(x);
        m.push_back(x); v.push(make<T>(x));
      }
      sorted = false;
      note("fill %zu", n);
    } else if (op.kind == "sort") {
      size_t n = m.size(), a = 0, b = n;
      if (op.arg(1)) { a = n ? (size_t)op.arg(2) % (n + 1) : 0; b = a + (size_t)op.arg(3) % (n - a + 1); reach("part-sorted"); }
      auto how = op.arg(0); bool whole = a == 0 && b == n;
      heap::refuse_optional = (u64)op.arg(4); u64 granted = heap::optional;
      {
        best::span<T> s = v.as_span()[{.start = a, .end = b}];
        switch (how) {
          case 0: s.sort(); break;
          case 1: s.sort(KeyFn<T>()); break;
          case 2: { CmpFn<T> f; s.sort(f); f.called(); break; }
          case 3: s.stable_sort(); break;
          case 4: { KeyFn<T> f; s.stable_sort(f); f.called(); break; }
          case 5: s.stable_sort(CmpFn<T>()); break;
          case 6: s.stable_sort(BackFn<T>()); break;
          default: s.stable_sort(BusyFn<T>());
        }
      }
      if (how >= 3 && heap::optional != granted) reach("with-memory");
      if (how >= 3 && op.arg(4) >= 20 && heap::refuse_optional < (u64)op.arg(4)) reach("without-memory");
      heap::refuse_optional = 0;
      const char* what = names[how];
      if (v.size() != n) { fail("C18", "size", "%s changed the size from %zu to %zu", what, n, (size_t)v.size()); return; }
      for (size_t i = 0; i < n; ++i) if (i < a || i >= b) if (value(v[i]) != m[i]) { fail("C18", "altered", "%s altered element %zu, which was not part of it (%zu..%zu of %zu)", what, i, a, b, n); return; }
      std::vector<i64> got; for (size_t i = a; i < b; ++i) got.push_back(value(v[i]));
      // The same elements...
      std::vector<i64> x(m.begin() + (long)a, m.begin() + (long)b), y(got);
      std::map<i64, size_t> at; for (size_t i = 0; i < x.size(); ++i) at[x[i]] = i;  // where each was
      {
        std::map<i64, int> c; for (i64 e : x) ++c[e]; for (i64 e : y) if (--c[e] < 0) { fail("C18", "lost-or-duplicated", "%s of %zu elements left one that was not there as often (key %lld)", what, x.size(), (long long)key_of(e)); return; }
      }
      // ...in order...
      bool back = how == 6;
      for (size_t i = 1; i < got.size(); ++i) {
        i64 k0 = key_of(got[i - 1]), k1 = key_of(got[i]);
        if (back ? k0 < k1 : k0 > k1) { fail("C18", "out-of-order", "after %s of %zu elements, element %zu (key %lld) precedes one with key %lld", what, got.size(), i - 1, (long long)k0, (long long)k1); return; }
        // ...and equal ones as they were.
        if (how >= 3 && k0 == k1 && !Plain<T> && at[got[i - 1]] > at[got[i]]) { fail("C18", "unstable", "%s of %zu elements exchanged two equal ones (key %lld)", what, got.size(), (long long)k0); return; }
      }
      for (size_t i = a; i < b; ++i) m[i] = got[i - a];
      if (whole && !back) sorted = true; else if (a != b) { sorted = true; for (size_t i = 1; i < n; ++i) if (key_of(m[i - 1]) > key_of(m[i])) sorted = false; }
      note("sort %lld %zu..%zu", (long long)how, a, b);
      u64 st = (u64)how * 2 + !!op.arg(4); size_t z = b - a; int lg = 0; while (z) { z >>= 1; ++lg; } state(mix2(st, (u64)lg * 64 + (u64)p.get("kind")));
      if (++done == 1) nontrivial();
    } else if (op.kind == "find") {
      if (!sorted) continue;
      // Within a part of it, too.
      size_t n = m.size(), a = 0, b = n;
      if (op.arg(3)) { a = (size_t)op.arg(3) % (n + 1); b = a + (size_t)op.arg(4) % (n - a + 1); }
      i64 k = op.arg(1); if (n && op.arg(2) >= 0) k = key_of(m[(size_t)op.arg(2) % n]);
      if (std::same_as<T, u8>) k = (i64)(u8)k;
      best::span<const T> s = v.as_span()[{.start = a, .end = b}];
      T sought = make<T>(k << Shift); int calls = 0;
      auto r = op.arg(0) == 0 ? s.bisect(sought) : op.arg(0) == 1 ? s.bisect(k, KeyFn<T>()) : s.bisect([&](const T& x) -> best::partial_ord { ++calls; return key_of(value(x)) <=> k; });
      bool present = false; for (size_t i = a; i < b; ++i) present |= key_of(m[i]) == k;
      static const char* how[] = {"bisect(value)", "bisect(key)", "bisect(comparison)"}; const char* what = how[op.arg(0)];
      if (r.ok().has_value() != present) { fail("C18", present ? "not-found" : "found-absent", "%s of %zu elements: key %lld %s", what, b - a, (long long)k, present ? "is there but was not found" : "is not there but was found"); return; }
      size_t at = present ? *r.ok() : *r.err();
      if (at > b - a || (present && at == b - a)) { fail("C18", "position", "%s of %zu elements gives position %zu", what, b - a, at); return; }
      if (present ? key_of(m[a + at]) != k : ((at && key_of(m[a + at - 1]) >= k) || (a + at < b && key_of(m[a + at]) <= k))) { fail("C18", "position", "%s of %zu elements gives a wrong position %zu", what, b - a, at); return; }
      reach(present ? "found" : "not-found");
      same(what);
      note("find %lld %zu", (long long)k, at);
    }
  }
  set_op(nullptr);
}
void gen(Rng& r, Plan& p) {
  p.cfg["kind"] = (i64)r.below(5);
  int rounds = 1 + (int)r.below(3);
  while (rounds--) {
    static const size_t sizes[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 23, 24, 25, 30, 31, 32, 33, 64, 127, 128, 129, 130, 200, 256, 257};
    i64 n = r.chance(45) ? (i64)r.below(12) : r.chance(70) ? (i64)sizes[r.below(25)] : (i64)r.below(r.chance(15) ? 700 : 300);
    static const i64 few[] = {1, 2, 3, 5, 12, 40, 200, 1000};
    p.add("fill", {n, (i64)r.below(7), (i64)r.below(1 << 30), few[r.below(8)]});
    int sorts = 1 + (int)r.below(3);
    for (int i = 0; i < sorts; ++i) {
      p.add("sort", {(i64)r.below(8), r.chance(35), (i64)r.below(300), (i64)r.below(300), r.chance(35) ? 0 : r.chance(50) ? 64 : (i64)r.below(9)});
      for (u64 k = r.below(3); k--;) p.add("find", {(i64)r.below(3), r.range(-20, 60), r.chance(60) ? (i64)r.below(400) : -1, r.chance(30) ? (i64)r.below(300) : 0, (i64)r.below(300)});
    }
  }
}
void run(const Plan& p) {
  death_means("C18,C02,C03");
  reg.clear();
  switch (p.get("kind")) {
#if SORT_PART == 0
    case 0: session<i64>(p); break;
    case 1: session<u8>(p); break;
    case 2: session<Pod>(p); break;
    case 3: session<Txt>(p); break;
    default: session<Keyed<Handle>>(p); break;
#else
    case 0: case 1: session<Keyed<TrackedT<true>>>(p); break;
    case 2: session<double>(p); break;
    case 3: session<Keyed<TrackedT<false>>>(p); break;
    default: session<Keyed<Wide>>(p); break;
#endif
  }
  check_nothing_left("sorting");
}
RegisterWorld w1({"sort" STR(SORT_PART), gen, run, 0});
}  // namespace
}  // namespace sim

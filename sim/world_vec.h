// World: histories of growable arrays over a simulated allocator, against a
// plain-sequence model. Decides C01..C04 (and contributes C11).
#pragma once
#include <new>
#include <vector>
#include <algorithm>
#include "elems.h"
#include "best/container/vec.h"
#include "best/container/box.h"
#include "best/text/strbuf.h"

namespace sim {
template <typename T> struct Tr {
  static T make(i64 v) { return T(v); }
  static i64 val(const T& t) {
    if constexpr (requires { t.check(""); }) t.check("read");
    return t.value;
  }
  static i64 norm(i64 v) { return v; }
};
template <> struct Tr<int> { static int make(i64 v) { return (int)v; } static i64 val(int t) { return t; } static i64 norm(i64 v) { return (int)v; } };
template <> struct Tr<u8> { static u8 make(i64 v) { return (u8)v; } static i64 val(u8 t) { return t; } static i64 norm(i64 v) { return (u8)v; } };
template <> struct Tr<Wide> { static Wide make(i64 v) { return Wide(v); } static i64 val(const Wide& t) { t.t.check("read"); return t.t.value; } static i64 norm(i64 v) { return v; } };
template <> struct Tr<Large> { static Large make(i64 v) { return Large(v); } static i64 val(const Large& t) { t.t.check("read"); if (t.rest[12] != t.rest[0]) fail("C01", "contents", "an element is not whole"); return t.t.value; } static i64 norm(i64 v) { return v; } };
template <> struct Tr<best::strbuf> {
  static std::string text(i64 v) { std::string s = std::to_string(v); if (v % 3 == 0) s += "-a-much-longer-tail-that-needs-the-heap"; return s; }
  static best::strbuf make(i64 v) { std::string s = text(v); best::strbuf b; b.push(*best::str::from(best::span(s.data(), s.size()))); return b; }
  static i64 val(const best::strbuf& t) {
    std::string s((const char*)t.data(), t.size());
    char* e = nullptr; i64 v = strtoll(s.c_str(), &e, 10);
    return s == text(v) ? v : -999999;
  }
  static i64 norm(i64 v) { return v; }
};
template <> struct Tr<best::vec<int>> {
  static best::vec<int> make(i64 v) { best::vec<int> r; for (i64 i = 0; i <= v % 9; ++i) r.push(int(v)); return r; }
  static i64 val(const best::vec<int>& t) { if (t.is_empty()) return -999999; i64 v = t[0]; if (i64(t.size()) != v % 9 + 1) return -999998; for (int x : t) if (x != v) return -999997; return v; }
  static i64 norm(i64 v) { return v; }
};

template <typename T, size_t N, typename A>
struct VecWorld {
  using V = best::vec<T, N, A>;
  using X = Tr<T>;
  static constexpr int K = 4;
  static constexpr bool SimA = std::is_same_v<A, SimAlloc>;
  static constexpr const char* Props = "C01,C02,C03,C04,C11";
  struct Slot {
    V* v = nullptr;          // null: no array
    std::vector<i64> m;      // model
    i64 promise = 0;
    int alloc_id = 0;
  };
  Slot s[K];
  const Plan& plan;
  static inline VecWorld* cur;

  explicit VecWorld(const Plan& p) : plan(p) {}
  static A make_alloc(int id) { if constexpr (SimA) return SimAlloc{id}; else return A{}; }

  void* raw_slot() {
    void* p = ::operator new(sizeof(V), std::align_val_t(alignof(V)));
    memset(p, 0xEE, sizeof(V));
    return p;
  }
  template <typename F> void build(int i, F f) {
    drop(i);
    void* p = raw_slot();
    f(p);
    s[i].v = (V*)p;
    s[i].promise = 0;
  }
  void drop(int i) {
    if (!s[i].v) return;
    s[i].v->~V();
    reg_freed((u64)s[i].v, sizeof(V));
    ::operator delete(s[i].v, std::align_val_t(alignof(V)));
    s[i].v = nullptr;
    s[i].m.clear();
    s[i].promise = 0;
  }
  void need(int i) {
    if (!s[i].v) { build(i, [&](void* p) { new (p) V(make_alloc(s[i].alloc_id)); }); s[i].m.clear(); }
  }

  std::vector<i64> seq(i64 base, i64 n) { std::vector<i64> r; for (i64 k = 0; k < n; ++k) r.push_back(X::norm(base + k)); return r; }
  std::vector<T> ext(const std::vector<i64>& vs) { std::vector<T> r; r.reserve(vs.size()); for (i64 x : vs) r.push_back(X::make(x)); return r; }

  void verify(int i, const char* when) {
    V* v = s[i].v;
    if (!v) return;
    size_t n = v->size();
    note("slot %d size %zu cap %zu inl %d", i, n, v->capacity(), (int)v->is_inlined());
    if (n != s[i].m.size()) { fail("C01", "size", "%s: array %d has %zu elements, a plain sequence would have %zu", when, i, n, s[i].m.size()); resync(i); return; }
    if (v->capacity() < n) fail("C04", "capacity-below-size", "capacity %zu below size %zu", v->capacity(), n);
    if (v->is_empty() != (n == 0)) fail("C01", "is-empty", "is_empty() disagrees with size()");
    if (v->is_inlined() && n > 127) reach("long-inline");
    if (v->is_inlined() == v->is_on_heap()) fail("C01", "mode", "inline and heap modes are not exclusive");
    if (SimA && v->is_on_heap()) {
      Block* b = heap::find(v->data().raw());
      if (!b) fail("C03", "storage-not-live", "a heap-stored array's storage is not a live block");
      else {
        if (b->size != v->capacity() * sizeof(T)) fail("C03", "storage-size", "array of capacity %zu x %zu bytes holds a block of %zu bytes", v->capacity(), sizeof(T), b->size);
        if constexpr (SimA) if (b->owner != v->allocator().id) fail("C03", "storage-owner", "array with allocator %d holds a block of allocator %d", v->allocator().id, b->owner);
      }
    }
    const V& cv = *v;
    for (size_t k = 0; k < n; ++k) {
      i64 got = X::val(cv[k]);
      if (got != s[i].m[k]) {
        fail("C01", "element", "%s: array %d element %zu is %lld, a plain sequence would have %lld", when, i, k, (long long)got, (long long)s[i].m[k]);
        resync(i);
        return;
      }
    }
    state(mix2((n < 40 ? n : 40 + n / 16) * 4 + v->is_inlined() * 2 + (v->capacity() == n), (u64)plan.get("kind") * 64 + std::min<size_t>(v->capacity(), 63)));
  }
  void resync(int i) {
    s[i].m.clear();
    for (size_t k = 0; k < s[i].v->size(); ++k) s[i].m.push_back(X::val((*s[i].v)[k]));
  }

  // Expects `f` to end the process with status 128.
  template <typename F> void refused(int i, const char* what, F f) {
    size_t before = s[i].v ? s[i].v->size() : 0;
    err.data.clear();
    int st = run_process(f);
    if (st == -1) fail("C11", "not-refused", "%s with a non-existent position was not refused", what);
    else if (st != 128) fail("C11,C10", "refused-status", "%s ended the process with status %d", what, st);
    else if (err.data.empty()) fail("C11,C10", "refused-silent", "%s ended the process without a diagnostic", what);
    else fault("refused-access");
    (void)before;
  }

  struct B { best::bounds b; size_t start, end; bool ok; };
  // Range specification from three small integers; shape 0..3 chooses which end is given.
  B bounds(size_t n, i64 start, i64 shape, i64 len) {
    B r{};
    auto clampv = [&](i64 v) -> size_t { return v == -1 ? ~size_t{0} : v == -2 ? ~size_t{0} - 1 : v == -3 ? (~size_t{0} >> 1) : (size_t)v; };
    size_t st = clampv(start), l = clampv(len);
    r.b.start = st;
    switch (shape & 3) {
      case 0: r.start = st; r.end = n; r.ok = st <= n; break;
      case 1: { size_t e = len < 0 ? l : st + l; r.b.end = e; r.start = st; r.end = e; r.ok = st <= e && e <= n; break; }
      case 2: { size_t e = len < 0 ? l : st + l; r.b.including_end = e; r.start = st; r.end = e + 1; r.ok = e != ~size_t{0} && st <= e && e < n;
                break; }
      case 3: { r.b.count = l; r.start = st; r.end = st + l; r.ok = st <= n && l <= n - st; break; }
    }
    return r;
  }

  void step(const Op& o) {
    set_op(&o);
    const std::string& k = o.kind;
    int i = (int)((u64)o.arg(0) % K);
    i64 a = o.arg(1), b = o.arg(2), c = o.arg(3);
    i64 val = o.uid * 1000;
    constexpr bool Copy = best::copyable<T>;
    u64 allocs0 = heap::allocs + heap::resizes;

    if (k == "drop") { drop(i); return; }
    if (k == "new") {
      int id = (int)(b % 3);
      s[i].alloc_id = id;
      auto vs = seq(val, c % 40);
      switch (a % 6) {
        case 0: build(i, [&](void* p) { new (p) V(make_alloc(id)); }); s[i].m.clear(); break;
        case 1:
          if constexpr (Copy) {
            auto e = ext(vs);
            build(i, [&](void* p) { new (p) V(make_alloc(id), best::span<const T>(e.data(), e.size())); });
            s[i].m = vs;
          }
          break;
        case 2:
          if constexpr (Copy && std::is_copy_constructible_v<T>) {
            vs = seq(val, 3);
            build(i, [&](void* p) { new (p) V(make_alloc(id), {X::make(vs[0]), X::make(vs[1]), X::make(vs[2])}); });
            s[i].m = vs;
          }
          break;
        case 3: {  // from an iterator
          auto e = ext(vs);
          build(i, [&](void* p) { new (p) V(make_alloc(id), best::span<T>(e.data(), e.size()).iter().map([](T& t) -> T { return std::move(t); })); });
          s[i].m = vs;
          break;
        }
        case 4: {  // from an owning array pointer
          if constexpr (Copy) {
            if (vs.empty()) vs = seq(val, 1);
            auto e = ext(vs);
            best::box<T[], A> bx(make_alloc(id), best::in_place, best::span<const T>(e.data(), e.size()));
            T* where = bx.as_ptr()->data().raw();
            u64 moves0 = reg.moves, ctors0 = reg.ctors, al0 = heap::allocs + heap::resizes;
            build(i, [&](void* p) { 
              moves0 = reg.moves; ctors0 = reg.ctors; al0 = heap::allocs + heap::resizes;
              new (p) V(std::move(bx));
              if (reg.moves != moves0 || reg.ctors != ctors0 || heap::allocs + heap::resizes != al0)
                fail("C04", "box-to-vec-moves", "making an array from an owning pointer moved elements or allocated");
            });
            if (s[i].v->data().raw() != where) fail("C04", "box-to-vec-storage", "making an array from an owning pointer did not keep its storage");
            s[i].m = vs;
          }
          break;
        }
        case 5: {  // empty, then explicitly on the heap
          build(i, [&](void* p) { new (p) V(make_alloc(id)); });
          s[i].m.clear();
          s[i].v->spill_to_heap();
          break;
        }
      }
      verify(i, "after construction");
      return;
    }
    if (k == "copynew" || k == "movenew" || k == "copy" || k == "move" || k == "cmp" || k == "box") {
      int j = (int)((u64)a % K);
      need(j);
      if (k == "copynew") {
        if constexpr (Copy) {
          if (i == j) return;
          build(i, [&](void* p) { new (p) V((const V&)*s[j].v); });
          s[i].m = s[j].m; s[i].alloc_id = s[j].alloc_id;
          verify(j, "after being copied from");
        }
      } else if (k == "movenew") {
        if (i == j) return;
        T* where = s[j].v->data().raw(); bool heapy = s[j].v->is_on_heap();
        drop(i);
        u64 m0 = reg.moves, c0 = reg.ctors, al0 = heap::allocs + heap::resizes;
        build(i, [&](void* p) { new (p) V(std::move(*s[j].v)); });
        if (heapy) {
          if (reg.moves != m0 || reg.ctors != c0 || heap::allocs + heap::resizes != al0) fail("C04", "move-moves-elements", "moving a heap-stored array moved its elements or allocated");
          if (s[i].v->data().raw() != where) fail("C04", "move-storage", "moving a heap-stored array did not hand over its storage");
          reach("move-heap");
        } else reach("move-inline");
        s[i].m = s[j].m; s[j].m.clear(); s[j].promise = 0; s[i].alloc_id = s[j].alloc_id;
        verify(j, "moved-from array");
      } else if (k == "copy") {
        if constexpr (Copy) {
          need(i);
          if (i != j) { *s[i].v = (const V&)*s[j].v; s[i].m = s[j].m; s[i].promise = 0; }
          else { *s[i].v = (const V&)*s[i].v; reach("self-copy"); }
          verify(j, "after being copied from");
        }
      } else if (k == "move") {
        need(i);
        bool heapy = s[j].v->is_on_heap();
        T* where = s[j].v->data().raw();
        if (i == j) { V& r = *s[i].v; *s[i].v = std::move(r); reach("self-move"); }
        else {
          *s[i].v = std::move(*s[j].v);
          if (heapy && s[i].v->data().raw() != where) fail("C04", "move-storage", "move-assigning a heap-stored array did not hand over its storage");
          s[i].m = s[j].m; s[j].m.clear(); s[i].promise = s[j].promise = 0; s[i].alloc_id = s[j].alloc_id;
          verify(j, "moved-from array");
        }
      } else if (k == "cmp") {
        need(i);
        if constexpr (best::equatable<T, T>) {
          const V& x = *s[i].v; const V& y = *s[j].v;
          if ((x == y) != (s[i].m == s[j].m)) fail("C01", "equality", "equality of two arrays is wrong");
          if constexpr (best::comparable<T, T> && !std::is_same_v<T, best::strbuf> && !best::is_vec<T>) {
            auto r = x <=> y;
            int got = r < 0 ? -1 : r > 0 ? 1 : 0;
            int want = s[i].m < s[j].m ? -1 : s[i].m > s[j].m ? 1 : 0;
            if (got != want) fail("C01", "ordering", "ordering of two arrays is %d, a plain sequence gives %d", got, want);
          }
        }
        verify(j, "after comparison");
      } else if (k == "box") {
        need(i);
        // Through an owning array pointer and back (into another slot).
        {
          auto bx = std::move(*s[i].v).to_box();
          auto sp = bx.as_ptr();
          if (sp->size() != s[i].m.size()) fail("C01", "to-box-size", "owning pointer made from an array of %zu has %zu elements", s[i].m.size(), sp->size());
          size_t n = std::min(sp->size(), s[i].m.size());
          for (size_t q = 0; q < n; ++q)
            if (X::val(sp->data().raw()[q]) != s[i].m[q]) { fail("C01", "to-box-element", "element %zu changed when converting to an owning pointer", q); break; }
          auto m = s[i].m; s[i].m.clear(); s[i].promise = 0;
          verify(i, "array converted to an owning pointer");
          if (b % 3 != 0) {
            if (i != j || true) {
              int id = s[i].alloc_id;
              if (i == j) drop(i);
              build(j, [&](void* p) { new (p) V(std::move(bx)); });
              s[j].m = m; s[j].alloc_id = id;
              if (m.empty()) reach("vec-from-empty-box");
              verify(j, "array made from owning pointer");
            }
          }
        }
      }
      if (s[i].v) verify(i, k.c_str());
      return;
    }

    need(i);
    V& v = *s[i].v;
    auto& m = s[i].m;
    size_t n = m.size();
    if (v.size() != n) { resync(i); n = m.size(); }
    T* data0 = v.data().raw();
    size_t cap0 = v.capacity();
    bool heap0 = v.is_on_heap();
    i64 promise0 = s[i].promise;
    i64 inserted = -1;   // number of insertions made by this op
    if (n > 300 && (k == "push" || k == "insert" || k == "append" || k == "splice" || k == "splice_self" || k == "splice_other")) return;

    if (k == "push") {
      T e = X::make(X::norm(val));
      T& r = v.push(std::move(e));
      if (&r != v.data().raw() + n) fail("C01", "push-ref", "push returned a reference to something else");
      m.push_back(X::norm(val));
      inserted = 1;
    } else if (k == "insert") {
      size_t idx = (size_t)a % (n + 1);
      T e = X::make(X::norm(val));
      T& r = v.insert(idx, std::move(e));
      if (&r != v.data().raw() + idx) fail("C01", "insert-ref", "insert returned a reference to something else");
      m.insert(m.begin() + idx, X::norm(val));
      inserted = 1;
      if (idx < n) reach("insert-middle");
    } else if (k == "append" || k == "splice") {
      if constexpr (Copy) {
        size_t idx = k == "append" ? n : (size_t)a % (n + 1);
        auto vs = seq(val, b % 20 * (V::MaxInline > 100 ? 4 : 1));
        auto e = ext(vs);
        best::span<const T> sp(e.data(), e.size());
        if (k == "append") v.append(sp); else v.splice(idx, sp);
        m.insert(m.begin() + idx, vs.begin(), vs.end());
        inserted = vs.size();
      }
    } else if (k == "splice_self") {
      if constexpr (Copy) {
        size_t idx = (size_t)a % (n + 1);
        size_t st = (size_t)b % (n + 1);
        size_t ln = (size_t)c % (n - st + 1);
        std::vector<i64> vs(m.begin() + st, m.begin() + st + ln);
        if (o.arg(4) % 3 == 0) { vs = m; v.splice(idx, v); st = 0; ln = n; }
        else if (o.arg(4) % 3 == 1) { v.splice(idx, v[{.start = st, .count = ln}]); }
        else { best::span<const T> sp = ((const V&)v)[{.start = st, .count = ln}]; if (idx == n) v.append(sp); else v.splice(idx, sp); }
        m.insert(m.begin() + idx, vs.begin(), vs.end());
        inserted = vs.size();
        if (ln) reach(idx > st && idx < st + ln ? "splice-self-straddling" : idx <= st ? "splice-self-before" : "splice-self-after");
      }
    } else if (k == "splice_other") {
      if constexpr (Copy) {
        int j = (int)((u64)c % K);
        need(j);
        if (j == i) return;
        size_t idx = (size_t)a % (n + 1);
        auto vs = s[j].m;
        v.splice(idx, *s[j].v);
        m.insert(m.begin() + idx, vs.begin(), vs.end());
        inserted = vs.size();
        verify(j, "after being spliced from");
      }
    } else if (k == "pop") {
      auto r = v.pop();
      if (r.has_value() != (n > 0)) fail("C01", "pop", "pop of an array of %zu elements returned %s", n, r.has_value() ? "something" : "nothing");
      else if (r.has_value()) {
        i64 got = X::val(*r);
        if (got != m.back()) fail("C01", "pop-value", "pop returned %lld instead of %lld", (long long)got, (long long)m.back());
      }
      if (n) m.pop_back();
    } else if (k == "remove") {
      if (!n) return;
      size_t idx = (size_t)a % n;
      T r = v.remove(idx);
      i64 got = X::val(r);
      if (got != m[idx]) fail("C01", "remove-value", "remove returned %lld instead of %lld", (long long)got, (long long)m[idx]);
      m.erase(m.begin() + idx);
      if (idx + 1 < n) reach("remove-middle");
    } else if (k == "erase") {
      size_t st = (size_t)a % (n + 1);
      size_t ln = (size_t)c % (n - st + 1);
      i64 shape = b & 3;
      if (shape == 2 && ln == 0) shape = 1;
      B bb = bounds(n, st, shape, shape == 2 ? ln - 1 : ln);
      v.erase(bb.b);
      m.erase(m.begin() + bb.start, m.begin() + bb.end);
      if (bb.end < n && bb.end > bb.start) reach("erase-middle");
      if (v.capacity() != cap0) fail("C04", "erase-capacity", "erasing changed the capacity");
    } else if (k == "truncate") {
      size_t ln = (size_t)a % (n + 4);
      v.truncate(ln);
      if (ln < n) m.resize(ln);
      if (v.capacity() != cap0 || v.data().raw() != data0) fail("C04", "truncate-capacity", "truncating changed the capacity or storage");
    } else if (k == "clear") {
      v.clear();
      m.clear();
      if (v.capacity() != cap0 || v.data().raw() != data0) fail("C04", "clear-capacity", "clearing changed the capacity or storage");
    } else if (k == "reserve") {
      size_t ln = (size_t)a % 70;
      if (sizeof(T) <= 32 && (b & 15) == 7) { ln *= 40; reach("much-room"); }
      v.reserve(ln);
      if (v.capacity() - n < ln || v.capacity() < n) fail("C04", "reserve-capacity", "after asking for room for %zu more, capacity is %zu with %zu elements", ln, v.capacity(), n);
      if (ln <= cap0 - n && ((heap::allocs + heap::resizes != allocs0) || v.data().raw() != data0)) fail("C04", "reserve-needless", "asking for room that was there reallocated");
      s[i].promise = std::max<i64>(ln, promise0);
      verify(i, "reserve");
      return;
    } else if (k == "shrink") {
      v.shrink_to_fit();
      if (v.is_on_heap() && v.capacity() != n) fail("C04", "shrink-capacity", "after shrinking, heap capacity is %zu with %zu elements", v.capacity(), n);
      s[i].promise = 0;
      verify(i, "shrink");
      return;
    } else if (k == "spill") {
      if (a % 3 == 0) { v.spill_to_heap(); if (n && !v.is_on_heap()) fail("C01", "spill", "array did not move to the heap"); }
      else {
        size_t hint = 1 + (size_t)b % 60;
        v.spill_to_heap(hint, a % 3 == 2);
        if (!v.is_on_heap()) fail("C01", "spill", "array did not move to the heap");
        if (v.capacity() < hint && !(a % 3 == 2) && !(heap0 && hint < n)) fail("C04", "spill-capacity", "asked for at least %zu, capacity is %zu", hint, v.capacity());
        if (a % 3 == 2 && hint >= n && v.capacity() != hint) fail("C04", "spill-exact", "asked for exactly %zu, capacity is %zu", hint, v.capacity());
      }
      s[i].promise = 0;
      verify(i, "spill");
      return;
    } else if (k == "assign") {
      if constexpr (Copy) {
        int j = (int)((u64)b % K);
        if (a % 4 == 2) {
          // From an array with another inline capacity, larger or smaller.
          auto vs = seq(val, c % 12);
          auto from = [&]<size_t M>(std::integral_constant<size_t, M>) {
            best::vec<T, M, A> other(make_alloc((int)(b % 3)));
            for (i64 x : vs) other.push(X::make(x));
            if (o.arg(4) % 3 == 0) {
              if (n > 300) return;
              size_t idx = (size_t)o.arg(4) % (n + 1);
              v.splice(idx, other);
              m.insert(m.begin() + idx, vs.begin(), vs.end());
            } else { v.assign(other); m = vs; }
            for (size_t q = 0; q < vs.size(); ++q)
              if (other.size() != vs.size() || X::val(other[q]) != vs[q]) { fail("C01", "other-changed", "an array that was copied from changed"); break; }
          };
          switch ((o.arg(4) / 4) % 3) {
            case 0: from(std::integral_constant<size_t, N == 0 ? 4 : N + 2>{}); break;
            case 1: from(std::integral_constant<size_t, N == 0 ? 40 : N / 2>{}); break;
            case 2: from(std::integral_constant<size_t, N < 2 ? 8 : N - 2>{}); break;
          }
          reach("assign-other-inline");
        } else if (a % 4 == 3 && c % 2) {
          // From a piece of itself.
          size_t st = (size_t)b % (n + 1);
          size_t ln = (size_t)o.arg(4) % (n - st + 1);
          std::vector<i64> vs(m.begin() + st, m.begin() + st + ln);
          v.assign(((const V&)v)[{.start = st, .count = ln}]);
          m = vs;
          reach("assign-from-self");
        } else if (a % 2 == 0) {
          auto vs = seq(val, c % 40);
          auto e = ext(vs);
          v.assign(best::span<const T>(e.data(), e.size()));
          m = vs;
        } else {
          need(j);
          v.assign(*s[j].v);
          if (i != j) m = s[j].m;
          verify(j, "after being assigned from");
        }
        s[i].promise = 0;
      }
    } else if (k == "set") {
      if (!n) return;
      size_t idx = (size_t)a % n;
      v[idx] = X::make(X::norm(val));
      m[idx] = X::norm(val);
    } else if (k == "swap") {
      if (n < 2) return;
      size_t x = (size_t)a % n, y = (size_t)b % n;
      v->swap(x, y);
      std::swap(m[x], m[y]);
    } else if (k == "reverse") {
      v->reverse();
      std::reverse(m.begin(), m.end());
    } else if (k == "read") {
      const V& cv = v;
      auto f = cv.first(); auto l = cv.last();
      if (f.has_value() != (n > 0) || l.has_value() != (n > 0)) fail("C01", "first-last", "first()/last() presence is wrong");
      else if (n && (X::val(*f) != m.front() || X::val(*l) != m.back())) fail("C01", "first-last-value", "first()/last() value is wrong");
      size_t q = 0; bool bad = false;
      for (const T& t : cv) { if (q >= n || X::val(t) != m[q]) { bad = true; break; } ++q; }
      if (bad || q != n) fail("C01", "iterate", "iteration yields other elements than a plain sequence");
      size_t idx = (size_t)a % (n + 3);
      auto at = cv.at(idx);
      if (at.has_value() != (idx < n)) fail("C11,C01", "at", "at(%zu) of %zu elements is %s", idx, n, at.has_value() ? "present" : "absent");
      else if (at.has_value() && X::val(*at) != m[idx]) fail("C01", "at-value", "at() yields the wrong element");
      if (cv.as_span().size() != n || (n && cv.as_span().data() != cv.data())) fail("C01", "span", "the span does not cover the array");
      if (cv.spare_capacity().size() != cv.capacity() - n) fail("C04", "spare", "spare_capacity is wrong");
    } else if (k == "range") {
      // Ranges with overflowing ends included.
      i64 st = a < 0 ? a : a % (i64)(n + 3), ln = c < 0 ? c : c % (i64)(n + 3);
      B bb = bounds(n, st, b, ln);
      if (bb.ok) {
        auto sp = ((const V&)v)[bb.b];
        if (sp.size() != bb.end - bb.start || (sp.size() && sp.data().raw() != v.data().raw() + bb.start)) fail("C11,C01", "range", "a valid range yielded the wrong elements");
        auto osp = ((const V&)v).as_span().at(bb.b);
        if (!osp.has_value() || osp->size() != sp.size()) fail("C11,C01", "range-at", "at(range) of a valid range is wrong");
      } else {
        refused(i, "operator[range]", [&] { auto sp = ((const V&)v)[bb.b]; note("range gave %zu", sp.size()); });
        auto osp = ((const V&)v).as_span().at(bb.b);
        if (osp.has_value()) fail("C11", "range-at-oob", "at(range) of a non-existent range is present (%zu elements)", osp->size());
      }
    } else if (k == "bad") {
      // Access outside.
      i64 d = b;
      if (a % 6 == 5) {
        // Room for more than there can be: refused, never wrapped around.
        size_t much = d == -1 ? ~size_t{0} : d == -2 ? ~size_t{0} - n : ~size_t{0} - (size_t)(d & 7);
        if (much < (size_t(1) << 40)) return;
        refused(i, "reserve", [&] { v.reserve(much); });
        verify(i, "after a refused reserve");
        return;
      }
      size_t idx = d == -1 ? ~size_t{0} : d == -2 ? ~size_t{0} >> 1 : d == -3 ? (~size_t{0} / sizeof(T)) : n + (size_t)d % 5;
      switch (a % 5) {
        case 0: refused(i, "operator[]", [&] { i64 x = X::val(v[idx]); note("read %lld", (long long)x); }); break;
        case 1: { T e = X::make(X::norm(val)); size_t q = idx <= n && idx == n ? n + 1 : idx; refused(i, "insert", [&] { v.insert(q, std::move(e)); }); break; }
        case 2: refused(i, "remove", [&] { T t = v.remove(idx); }); break;
        case 3: {
          B bb = bounds(n, idx == n ? (i64)n + 1 : d < 0 ? d : (i64)idx, c & 3, o.arg(4));
          if (bb.ok) return;
          refused(i, "erase", [&] { v.erase(bb.b); }); break;
        }
        case 4: {
          const V& cv = v;
          if (cv.at(idx).has_value()) fail("C11", "at-oob", "at() of a non-existent index is present");
          break;
        }
      }
    }
    if (inserted >= 0) {
      if (inserted <= promise0) {
        if (heap::allocs + heap::resizes != allocs0 && SimA && !std::is_same_v<T, best::strbuf> && !best::is_vec<T>) fail("C04", "promise-alloc", "an insertion within the reserved room allocated");
        if (v.data().raw() != data0) fail("C04", "promise-move", "an insertion within the reserved room moved the elements");
        s[i].promise -= inserted;
        if (inserted) reach("promised-insert");
      } else s[i].promise = 0;
    }
    verify(i, k.c_str());
  }

  static void go(const Plan& p) {
    death_means(Props);
    VecWorld w(p);
    cur = &w;
    reg.clear();
    heap::on_free(reg_freed);
    for (auto& o : p.ops) w.step(o);
    Op fin; fin.kind = "teardown"; fin.uid = 999999;
    set_op(&fin);
    i64 order = p.get("order");
    for (int i = 0; i < K; ++i) w.drop(order ? K - 1 - i : i);
    check_nothing_left("arrays");
    if (p.ops.size() >= 3) nontrivial();
  }
};

inline void gen_vec(Rng& r, Plan& p, int kind) {
  p.cfg["kind"] = kind;
  p.cfg["order"] = r.below(2);
  // Swarm: per run, a random subset of operations with random weights.
  static const char* kinds[] = {"push", "push", "insert", "insert", "append", "splice", "splice_self", "splice_other", "pop", "remove", "erase", "truncate", "clear", "reserve", "shrink", "spill", "assign", "set", "swap", "reverse", "read", "range", "bad", "new", "copynew", "movenew", "copy", "move", "cmp", "box", "drop"};
  std::vector<const char*> use;
  int keep = 30 + r.below(70);
  for (auto k : kinds) if (r.chance(keep)) use.push_back(k);
  if (use.empty()) use = {"push", "insert", "remove"};
  use.push_back("push"); use.push_back("insert");
  int n = r.chance(50) ? 3 + r.below(10) : 10 + r.below(50);
  int slots = 1 + r.below(4);
  auto ext = [&]() -> i64 { return r.chance(10) ? -1 - (i64)r.below(3) : (i64)r.below(50); };
  for (int i = 0; i < n; ++i) {
    std::string k = r.pick(use);
    i64 a = (i64)r.below(64), b = (i64)r.below(64), c = (i64)r.below(64), d = (i64)r.below(64);
    if (k == "range") { a = ext(); c = ext(); }
    if (k == "bad") { b = r.chance(30) ? -1 - (i64)r.below(3) : (i64)r.below(5); d = r.chance(30) ? -1 - (i64)r.below(3) : (i64)r.below(5); }
    if (r.chance(30)) { b %= 4; c %= 4; }   // small amounts: overlapping shifts
    int reps = (k == "push" && r.chance(30)) ? 1 + r.below(12) : 1;
    i64 slot = (i64)r.below(slots);
    while (reps--) p.add(k, {slot, a, b, c, d});
  }
}
}  // namespace sim

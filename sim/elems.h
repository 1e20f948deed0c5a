// Instrumented element types and allocators shared by the worlds.
// Included by worlds (library objects), so it must not use redirected C
// functions for its own purposes.
#pragma once
#include <unordered_map>
#include <compare>
#include "sim.h"

#include "best/memory/allocator.h"
#include "best/container/box.h"
#include "best/container/option.h"

namespace sim {
// ----------------------------------------------------------- live registry
struct Registry {
  std::unordered_map<u64, int> live;    // address -> kind
  std::unordered_map<u64, int> handles; // handle -> state (1 live, 0 dead)
  u64 next_handle = 1;
  u64 ctors = 0, moves = 0, copies = 0, dtors = 0, assigns = 0;
  // The properties that misuse of objects breaks.
  const char *props = "C02", *bytewise = "C02,C01";
  u64 fuse = 0;
  void clear() { live.clear(); handles.clear(); next_handle = 1; ctors = moves = copies = dtors = assigns = 0; }
  size_t alive() const { size_t n = live.size(); for (auto& [h, s] : handles) n += s; return n; }
};
inline Registry reg;
inline void reg_freed(u64 addr, size_t size) {
  // A block is going away: nothing may live in it any more.
  for (u64 a = addr & ~7ull; a < addr + size; a += 4) {
    if (reg.live.count(a)) {
      fail(reg.props, "freed-with-live-object", "storage returned while an object still lives in it");
      reg.live.erase(a);
    }
  }
}

// Address-sensitive value: must be moved by its own constructor.
template <bool Copyable>
struct TrackedT {
  i64 value;
  const TrackedT* self;
  static constexpr i64 Moved = -777777;
  void born() {
    ++reg.ctors;
    if (!reg.live.emplace((u64)this, 1).second)
      fail(reg.props, "built-over-live", "an object was constructed over a live object (value %lld)", (long long)value);
    self = this;
  }
  void check(const char* what) const {
    if (!reg.live.count((u64)this))
      fail(reg.props, "use-of-dead", "%s of an object that is not alive", what);
    else if (self != this)
      fail(reg.bytewise, "moved-bytewise", "%s of an address-sensitive object that was copied bytewise", what);
  }
  explicit TrackedT(i64 v) : value(v) { born(); }
  TrackedT(const TrackedT& o) requires Copyable : value(o.value) { o.check("copy"); ++reg.copies; born(); }
  TrackedT(TrackedT&& o) : value(o.value) { o.check("move"); o.value = Moved; ++reg.moves; born(); }
  TrackedT& operator=(const TrackedT& o) requires Copyable { check("assign"); o.check("copy"); ++reg.assigns; value = o.value; return *this; }
  TrackedT& operator=(TrackedT&& o) {
    check("assign"); o.check("move"); ++reg.assigns;
    if (this != &o) { value = o.value; o.value = Moved; }
    return *this;
  }
  ~TrackedT() {
    ++reg.dtors;
    if (!reg.live.erase((u64)this))
      fail(reg.props, "double-destroy", "destruction of an object that is not alive");
    self = nullptr;
    value = -888888;
  }
  bool operator==(const TrackedT& o) const { check("compare"); o.check("compare"); return value == o.value; }
  auto operator<=>(const TrackedT& o) const { check("compare"); o.check("compare"); return value <=> o.value; }
};
using Tracked = TrackedT<true>;
using MoveOnly = TrackedT<false>;

// Over-aligned address-sensitive value.
struct alignas(64) Wide {
  Tracked t;
  explicit Wide(i64 v) : t(v) { aligned(); }
  Wide(const Wide& o) : t(o.t) { aligned(); }
  Wide(Wide&& o) : t(std::move(o.t)) { aligned(); }
  Wide& operator=(const Wide&) = default;
  Wide& operator=(Wide&&) = default;
  bool operator==(const Wide&) const = default;
  auto operator<=>(const Wide&) const = default;
  void aligned() { if ((u64)this % 64) fail("C03", "misaligned", "an over-aligned object was built at a misaligned address"); }
};

// Large address-sensitive value.
struct Large {
  Tracked t;
  i64 rest[13];
  explicit Large(i64 v) : t(v) { for (auto& x : rest) x = v; }
  bool operator==(const Large& o) const { return t == o.t; }
  auto operator<=>(const Large& o) const { return t <=> o.t; }
};

// Bytewise relocatable owner of a handle (like a pointer-owning type).
struct BEST_RELOCATABLE Handle {
  i64 value;
  u64 h;
  static u64 open() { ++reg.ctors; u64 h = reg.next_handle++; reg.handles[h] = 1; return h; }
  static void close(u64 h) {
    if (!h) return;
    ++reg.dtors;
    auto it = reg.handles.find(h);
    if (it == reg.handles.end() || it->second != 1) { fail(reg.props, "double-destroy", "a resource was released twice or never existed"); return; }
    it->second = 0;
  }
  void check(const char* what) const {
    if (!h) return;
    auto it = reg.handles.find(h);
    if (it == reg.handles.end() || it->second != 1) fail(reg.props, "use-of-dead", "%s of an object whose resource is gone", what);
  }
  explicit Handle(i64 v) : value(v), h(open()) {}
  Handle(const Handle& o) : value(o.value), h(o.h ? open() : 0) { o.check("copy"); ++reg.copies; }
  Handle(Handle&& o) : value(o.value), h(o.h) { o.check("move"); o.h = 0; o.value = TrackedT<true>::Moved; ++reg.moves; }
  Handle& operator=(const Handle& o) { check("assign"); o.check("copy"); ++reg.assigns; if (this != &o) { close(h); h = o.h ? open() : 0; value = o.value; } return *this; }
  Handle& operator=(Handle&& o) { check("assign"); o.check("move"); ++reg.assigns; if (this != &o) { close(h); h = o.h; value = o.value; o.h = 0; o.value = TrackedT<true>::Moved; } return *this; }
  ~Handle() { close(h); h = 0xdeadbeefdeadull; value = -888888; }
  bool operator==(const Handle& o) const { check("compare"); o.check("compare"); return value == o.value; }
  auto operator<=>(const Handle& o) const { check("compare"); o.check("compare"); return value <=> o.value; }
};

// ----------------------------------------------------------- allocator
// Instances with equal ids are interchangeable; others are not.
struct SimAlloc {
  int id = 0;
  bool operator==(const SimAlloc& o) const { return id == o.id; }
  static constexpr const char* All = "C01,C02,C03,C04,C06,C07,C08,C21";

  static void check_request(const char* fn, best::layout l) {
    if (l.size() == 0) fail("C03", "zero-size-request", "%s was asked for zero bytes", fn);
    if (l.align() == 0 || (l.align() & (l.align() - 1))) fail("C03", "bad-alignment-request", "%s: alignment %zu", fn, (size_t)l.align());
    if (l.size() > (size_t(1) << 28)) end_process(128, "allocator exhausted");
  }
  best::ptr<void> alloc(best::layout l) {
    sched::yield(20);
    check_request("alloc", l);
    if (heap::should_fail()) end_process(128, "allocator exhausted");
    return heap::get(l.size(), l.align(), id, false);
  }
  best::ptr<void> zalloc(best::layout l) {
    check_request("zalloc", l);
    if (heap::should_fail()) end_process(128, "allocator exhausted");
    return heap::get(l.size(), l.align(), id, true);
  }
  bool verify(const char* fn, void* p, best::layout old) {
    Block* b = heap::find(p);
    if (!b) {
      fail(All, "bad-return", "%s of %s", fn,
           !p ? "a null pointer" : heap::containing(p) ? "a pointer into the middle of a block"
           : heap::in_arena(p) ? "a block that is not live (returned twice?)" : "memory this allocator never produced");
      return false;
    }
    if (b->owner != id) fail("C03", "wrong-allocator", "%s through allocator %d of a block obtained from allocator %d", fn, id, b->owner);
    if (b->size != old.size() || b->align != old.align())
      fail("C03", "wrong-layout", "%s with size %zu align %zu of a block requested with size %zu align %zu", fn, (size_t)old.size(), (size_t)old.align(), b->size, b->align);
    return true;
  }
  best::ptr<void> realloc(best::ptr<void> p, best::layout old, best::layout l) {
    sched::yield(21);
    check_request("realloc", l);
    if (!verify("realloc", p.raw(), old)) return heap::get(l.size(), l.align(), id, false);
    if (heap::should_fail()) end_process(128, "allocator exhausted");
    return heap::resize(p.raw(), l.size(), l.align());
  }
  void dealloc(best::ptr<void> p, best::layout l) {
    sched::yield(22);
    if (!verify("dealloc", p.raw(), l)) return;
    heap::put(p.raw());
  }
};
static_assert(best::allocator<SimAlloc>);

// End-of-run accounting common to the container worlds.
inline void check_nothing_left(const char* where) {
  if (reg.alive())
    fail(reg.props, "leaked-object", "%zu objects are still alive after their owners are gone (%s)", reg.alive(), where);
  if (heap::live()) {
    size_t n = heap::live();
    heap::each_live([&](Block& b) { fail("C03", "leaked-block", "%zu blocks outstanding after all owners are gone, e.g. %zu bytes of allocator %d (%s)", n, b.size, b.owner, where); });
  }
}
}  // namespace sim

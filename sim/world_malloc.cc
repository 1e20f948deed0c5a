// World: histories of the default allocator over a simulated C heap (C05).
#include <cstring>
#include "sim.h"
#include "best/memory/allocator.h"
#include "best/memory/layout.h"

namespace sim {
namespace {
struct Held { void* p = nullptr; size_t size = 0, align = 1; u64 pat = 0; };
constexpr int K = 6;

best::layout lay(size_t size, size_t align) { return best::layout(best::unsafe("chosen by the plan"), size, align); }
u8 pat(u64 seed, size_t i) { return u8(mix2(seed, i / 8) >> (8 * (i % 8))); }

struct W {
  const Plan& p;
  Held h[K];
  u64 pats = 1;
  bool over = false;
  explicit W(const Plan& p) : p(p) {}

  void paint(Held& b, size_t from = 0) { for (size_t i = from; i < b.size; ++i) ((u8*)b.p)[i] = pat(b.pat, i); }
  void placed(Held& b, const char* fn) {
    if (!b.p) { fail("C05", "null", "%s returned a null pointer", fn); return; }
    if ((u64)b.p % b.align) fail("C05", "misaligned", "%s(%zu:%zu) returned an address with only %llu-byte alignment", fn, b.size, b.align, (unsigned long long)((u64)b.p & -(u64)b.p));
    Block* blk = heap::containing(b.p);
    if (!blk) { fail("C05", "nowhere", "%s returned memory that is not part of any heap block", fn); return; }
    if ((u64)b.p + b.size > blk->addr + blk->size) fail("C05", "under-allocated", "%s(%zu:%zu) returned memory with only %llu bytes behind it", fn, b.size, b.align, (unsigned long long)(blk->addr + blk->size - (u64)b.p));
    for (auto& o : h)
      if (&o != &b && o.p && (u64)o.p < (u64)b.p + b.size && (u64)b.p < (u64)o.p + o.size) fail("C05", "overlap", "%s returned memory that overlaps a live block", fn);
  }
  void intact(Held& b, size_t upto, const char* when) {
    for (size_t i = 0; i < upto; ++i)
      if (((u8*)b.p)[i] != pat(b.pat, i)) { fail("C05", "contents", "%s: byte %zu of a block of %zu:%zu changed", when, i, b.size, b.align); paint(b); return; }
  }
  void all_intact(const char* when) { for (auto& b : h) if (b.p) intact(b, b.size, when); }

  // Runs one allocator call which may legally end the process.
  template <typename F> bool survives(bool must_end, bool may_end, const char* what, F f) {
    err.clear();
    int st = run_process(f);
    if (st == -1) {
      if (must_end) fail("C05", "not-refused", "%s did not end the process", what);
      return true;
    }
    over = true;
    if (!must_end && !may_end) fail("C05", "process-end", "%s ended the process with status %d: %s", what, st, err.data.c_str());
    else if (st != 128) fail("C05,C10", "refused-status", "%s ended the process with status %d", what, st);
    else if (err.data.empty()) fail("C05,C10", "refused-silent", "%s ended the process without a diagnostic", what);
    reach(must_end ? "refused" : "exhausted");
    return false;
  }

  void step(const Op& o) {
    set_op(&o);
    if (over) return;
    Held& b = h[(u64)o.arg(0) % K];
    size_t align = size_t(1) << (o.arg(1) % 10);
    size_t units = (size_t)o.arg(2);
    size_t size = (units % 97 + 1) * align;
    if (align >= 256) size = (units % 5 + 1) * align;
    const std::string& k = o.kind;
    u64 before = heap::live();
    heap::fail_nth(0);
    if (o.arg(3) > 0 && o.arg(3) < 3) heap::fail_nth(o.arg(3));
    bool may_end = o.arg(3) > 0 && o.arg(3) < 3;
    if (k == "alloc" || k == "zalloc") {
      if (b.p) return;
      bool z = k == "zalloc";
      void* r = nullptr;
      if (survives(false, may_end, k.c_str(), [&] { r = (z ? best::malloc::zalloc(lay(size, align)) : best::malloc::alloc(lay(size, align))).raw(); })) {
        b.p = r; b.size = size; b.align = align; b.pat = ++pats;
        placed(b, k.c_str());
        if (z) for (size_t i = 0; i < size; ++i) if (((u8*)r)[i]) { fail("C05", "not-zero", "zalloc(%zu:%zu): byte %zu is %02x", size, align, i, ((u8*)r)[i]); break; }
        paint(b);
        if (heap::live() != before + 1) fail("C05", "block-count", "%s took %lld heap blocks", k.c_str(), (long long)(heap::live() - before));
      }
    } else if (k == "realloc") {
      if (!b.p) return;
      if (o.arg(4) % 3 == 0) { align = b.align; size = (units % 97 + 1) * align; }
      void* r = nullptr;
      u64 moved = heap::moved_resizes;
      if (survives(false, may_end, "realloc", [&] { r = best::malloc::realloc(b.p, lay(b.size, b.align), lay(size, align)).raw(); })) {
        size_t common = size < b.size ? size : b.size;
        Held old = b;
        b.p = r; b.size = size; b.align = align;
        placed(b, "realloc");
        intact(b, common, "after realloc");
        paint(b);
        if (heap::live() != before) fail("C05", "block-count", "realloc changed the number of heap blocks by %lld", (long long)(heap::live() - before));
        if (old.align > 16 || align > 16) reach("over-aligned-realloc");
        if (old.align != align) reach("realloc-changes-alignment");
        if (heap::moved_resizes != moved) reach("heap-moved"); else if (old.p == r) reach("heap-in-place");
      }
    } else if (k == "dealloc") {
      if (!b.p) return;
      intact(b, b.size, "before freeing");
      if (survives(false, false, "dealloc", [&] { best::malloc::dealloc(b.p, lay(b.size, b.align)); })) {
        b.p = nullptr;
        if (heap::live() != before - 1) fail("C05", "block-count", "dealloc returned %lld heap blocks", (long long)(before - heap::live()));
      }
    } else if (k == "mismatch") {
      // Only detected by builds with debug assertions.
      if (!best::is_debug() || !b.p) return;
      size_t s2 = b.size, a2 = b.align;
      switch (o.arg(1) % 4) {
        case 0: s2 += b.align * (1 + units % 3); break;
        case 1: if (s2 > b.align) s2 -= b.align; else s2 += b.align; break;
        case 2: a2 = b.align > 1 ? b.align / 2 : 2; if (s2 % a2) s2 = b.size * 2; break;
        case 3: a2 = b.align * 2; s2 = (b.size + a2 - 1) / a2 * a2; break;
      }
      all_intact("before a mismatched return");
      if (o.arg(4) % 2) survives(true, true, "dealloc with a wrong layout", [&] { best::malloc::dealloc(b.p, lay(s2, a2)); });
      else survives(true, true, "realloc with a wrong layout", [&] { (void)best::malloc::realloc(b.p, lay(s2, a2), lay(s2 * 2, a2)); });
    } else if (k == "nowhere") {
      void* q = o.arg(1) % 2 ? nullptr : (void*)(u64)(units % 4000 + 1);
      if (o.arg(4) % 2) survives(true, true, "dealloc of a null or dangling pointer", [&] { best::malloc::dealloc(q, lay(8, 8)); });
      else survives(true, true, "realloc of a null or dangling pointer", [&] { (void)best::malloc::realloc(q, lay(8, 8), lay(16, 8)); });
    } else if (k == "huge") {
      size_t al = size_t(1) << (o.arg(1) % 7);
      size_t s = ~size_t{0} - (size_t)(units % 130);
      if (o.arg(4) % 4 == 3) s = (~size_t{0} >> 1) - (size_t)(units % 130);
      s = s / al * al;
      switch (o.arg(4) % 3) {
        case 0: survives(true, true, "alloc of nearly the whole address space", [&] { (void)best::malloc::alloc(lay(s, al)); }); break;
        case 1: survives(true, true, "zalloc of nearly the whole address space", [&] { (void)best::malloc::zalloc(lay(s, al)); }); break;
        case 2: if (!b.p) return; survives(true, true, "realloc to nearly the whole address space", [&] { (void)best::malloc::realloc(b.p, lay(b.size, b.align), lay(s, al)); }); break;
      }
    } else if (k == "array") {
      // Sizes of arrays are computed without wrapping.
      size_t n = o.arg(4) % 2 ? ~size_t{0} / (8 * (1 + units % 4)) + units % 3 : (~size_t{0} >> (units % 4)) - units % 5;
      size_t want; bool of = __builtin_mul_overflow(n, sizeof(long), &want);
      best::layout l;
      if (survives(of, true, "the layout of an array that does not fit", [&] { l = best::layout::array<long>(n); })) {
        if (l.size() != want) fail("C05", "array-layout", "layout of %zu longs is %zu bytes", n, (size_t)l.size());
      } else over = false;
    }
    heap::fail_nth(0);
    if (!over) all_intact(k.c_str());
    size_t live = 0; for (auto& x : h) live += x.p != nullptr;
    note("live %zu blocks %zu", live, heap::live());
    state(mix2(live, mix2(b.align, b.size < 300 ? b.size : 300)));
  }
};

void run(const Plan& p) {
  death_means("C05");
  W w(p);
  for (auto& o : p.ops) w.step(o);
  if (!w.over) {
    Op fin; fin.kind = "teardown"; fin.uid = 999999; set_op(&fin);
    for (auto& b : w.h) if (b.p) best::malloc::dealloc(b.p, lay(b.size, b.align));
    if (heap::live()) fail("C05", "leaked-block", "%zu heap blocks left after everything was freed", heap::live());
  }
  if (p.ops.size() >= 3) nontrivial();
}

void gen(Rng& r, Plan& p) {
  int n = 3 + r.below(r.chance(50) ? 8 : 40);
  int slots = 1 + r.below(K);
  int maxal = r.chance(40) ? 5 : 10;
  int failpct = r.chance(50) ? 0 : 6;
  for (int i = 0; i < n; ++i) {
    static const char* ks[] = {"alloc", "alloc", "zalloc", "realloc", "realloc", "realloc", "dealloc"};
    std::string k = ks[r.below(7)];
    if (r.chance(3)) { static const char* es[] = {"mismatch", "nowhere", "huge", "array", "array"}; k = es[r.below(5)]; }
    i64 f = r.chance(failpct) ? 1 + (i64)r.below(2) : 0;
    p.add(k, {(i64)r.below(slots), (i64)r.below(maxal), r.chance(40) ? (i64)r.below(6) : (i64)r.below(200), f, (i64)r.below(12)});
  }
}
RegisterWorld w1({MALLOC_WORLD, gen, run, 0});
}  // namespace
}  // namespace sim

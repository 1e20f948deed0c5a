// World: threads working on their own objects and reading shared ones; what
// each observes must be what it observes working alone (C12).
#include <vector>
#include "sim.h"
#include "cliw.h"
#include "best/container/box.h"
#include "best/container/choice.h"
#include "best/container/option.h"
#include "best/container/result.h"
#include "best/container/row.h"
#include "best/container/vec.h"
#include "best/func/defer.h"
#include "best/func/dyn.h"
#include "best/func/fnref.h"
#include "best/func/tap.h"
#include "best/io/ioerr.h"
#include "best/iter/bounds.h"
#include "best/iter/iter.h"
#include "best/math/conv.h"
#include "best/math/overflow.h"
#include "best/memory/allocator.h"
#include "best/memory/span_sort.h"
#include "best/text/format.h"
#include "best/text/strbuf.h"
#include "best/text/utf16.h"
#include "best/text/utf32.h"

namespace threads_world {
struct Point { int x = 0; best::str name; best::vec<int> more; constexpr friend auto BestReflect(auto& m, Point*) { return m.infer(); } };
}
namespace sim {
namespace {
using threads_world::Point;
class Shape : public best::interface_base<Shape> {
 public:
  BEST_INTERFACE(Shape, (long, area, (), const), (void, grow, (long by)));
};
struct Square { long s; long area() const { return s * s; } void grow(long by) { s += by; } };
struct Named { best::strbuf n; long f; long area() const { return (long)n.size() * f; } void grow(long by) { f += by; n.push("+"); } };

// What a thread observes. Part of the program's own work: never under Quiet.
struct Log {
  u64 h = 1469598103934665603ull; std::string last;
  void bytes(const void* p, size_t n) { Quiet q; const u8* b = (const u8*)p; for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ull; h = mix(h + n); last.assign((const char*)p, n < 160 ? n : 160); }
  void s(best::str t) { bytes(t.data(), t.size()); }
  void n(i64 v) { Quiet q; h = mix2(h, (u64)v); last = std::to_string(v); }
};
const char* texts[] = {"", "plain", "caf\xc3\xa9", "\xe2\x82\xac 100", "\xf0\x9f\x90\x88 and \xf0\x9f\xa7\xb6", "a longer text that surely does not fit inline anywhere", "tab\there", "quote\"d", "zero", "line\nbreak"};
best::str pick(u64 v) { const char* t = texts[v % 10]; return *best::str::from(best::span(t, __builtin_strlen(t))); }
struct Shared {
  best::vec<best::strbuf> words;
  best::vec<int> sorted;
  best::strbuf text;
  best::option<best::strbuf> maybe;
  best::box<best::strbuf> boxed{best::in_place};
  best::textbuf<best::utf16> wide;
  best::choice<int, best::strbuf> pick{best::index<1>};
  Point point;
};
constexpr int Kinds = 16;
void work(int kind, u64 v, i64 len, const Shared& sh, Log& log) {
  int n = (int)(len % 12);
  u64 r = v;
  auto next = [&] { r = r * 6364136223846793005ull + 1442695040888963407ull; return r >> 33; };
  switch (kind) {
    case 0: {
      best::vec<int> a;
      for (int i = 0; i < n; ++i) { a.push((int)next() % 100); if (i % 3 == 2) a.insert(a.size() / 2, i); if (i % 5 == 4) a.remove(0); }
      a.reserve(n); best::vec<int> b = a; b.append(a); b.truncate(b.size() / 2 + 1); 
      for (int x : b) log.n(x);
      log.n(a.size()); break;
    }
    case 1: {
      best::vec<best::strbuf> a;
      for (int i = 0; i < n % 6; ++i) { a.push(best::strbuf(pick(next()))); a[a.size() - 1].push(pick(next())); if (i % 2) { best::strbuf c = a[a.size() - 1]; a.insert(0, c); } }
      for (auto& x : a) log.s(x);
      break;
    }
    case 2: {
      best::strbuf a; best::textbuf<best::utf16> w; best::textbuf<best::utf32> u;
      for (int i = 0; i < n % 6; ++i) { a.push(pick(next())); w.push(pick(next())); u.push(pick(next())); }
      log.n(a.push(w)); log.n(w.push(u)); a.push_lossy(w);
      log.s(a); log.bytes(w.data(), w.size() * 2); log.bytes(u.data(), u.size() * 4); break;
    }
    case 3: log.s(best::format("{:05}|{:#x}|{:>12}|{:?}|{:^9}|{:+<7}", (int)(next() % 90000), (unsigned)next(), (int)(next() % 100), pick(next()), pick(next()), (int)(next() % 100))); break;
    case 4: {
      Point p{(int)(next() % 1000), pick(next()), {}};
      for (int i = 0; i < n % 4; ++i) p.more.push((int)(next() % 50));
      log.s(best::format("{:?} {:#?}", p, p)); break;
    }
    case 5: {
      best::strbuf out("seed ");
      best::format(out, "{}-{}-{}", pick(next()), best::rune('x'), (long long)next());
      best::strbuf c = out; best::format(out, "<{:*<10}>", c); log.s(out); break;
    }
    case 6: {
      using D = best::dyn<Shape>;
      best::box<D> a = best::box<Square>(best::in_place, (long)(next() % 9));
      best::box<D> b = best::box<Named>(best::in_place, best::strbuf(pick(next())), (long)n);
      auto c = b.try_copy(); log.n((bool)c); if (c) { (*c)->grow(3); log.n((*c)->area()); a = std::move(*c); } a->grow(1); b->grow(2);
      log.n(a->area()); log.n(b->area()); break;
    }
    case 7: {
      best::ioerr e((int)(next() % 140) + 1);
      log.s(best::format("{} {:?}", e, e)); if (auto m = e.name()) log.s(*m); break;
    }
    case 8: {
      std::vector<std::string> av;
      { Quiet q; for (const char* f : {"--alpha", "-B", "--gee", "--delta", "--epsilon"}) if (next() % 8) { av.push_back(f); av.push_back(std::to_string(next() % 1000)); } if (n & 1) av.push_back("rest"); if (n == 7) av.insert(av.begin(), "--help"); }
      std::string s = cliw::parse_0("prog", av);
      log.bytes(s.data(), s.size()); break;
    }
    case 9: {
      best::vec<int> a; for (int i = 0; i < n; ++i) a.push((int)(next() % 30));
      size_t total = 0; for (auto [i, x] : a.iter().enumerate()) total += i * (size_t)x;
      log.n(total);
      for (int x : a.iter().map([](int x) { return x * 2 + 1; }).take(5)) log.n(x);
      for (int x : a.iter().rev()) log.n(x);
      for (size_t i : best::bounds{.start = 3, .count = (size_t)n}.iter()) log.n(i);
      break;
    }
    case 10: {
      best::vec<int> a; for (int i = 0; i < n * 3; ++i) a.push((int)(next() % 40));
      best::vec<int> b = a; a->sort(); b->stable_sort([](const int& x) { return x % 7; });
      for (int x : a) log.n(x); for (int x : b) log.n(x);
      auto f = a->bisect((int)(next() % 40)); log.n(f ? (i64)*f.ok() : -1 - (i64)*f.err()); break;
    }
    case 11: {
      best::strbuf a; for (int i = 0; i < 4; ++i) a.push(pick(next()));
      best::str t = a; if (auto f = t.find('e')) log.n(*f);
      if (auto p = t.split_once(best::str("a"))) { log.s(p->first()); log.s(p->second()); }
      for (auto x : t.split(' ')) log.s(x);
      for (best::rune x : t.runes()) log.n(x.to_int());
      break;
    }
    case 12: {
      int hits = 0;
      auto add = [&](int x) { hits += x; return hits * 2; };
      best::fnref<int(int)> f = add;
      for (int i = 0; i < n; ++i) { best::defer d = [&] { hits += i; }; log.n(f((int)(next() % 9))); if (i % 3 == 0) d.cancel(); }
      log.n(hits); log.n(n->*best::tap([](auto&& x) { return x + 1; })); break;
    }
    case 13: {
      best::vec<best::strbuf> all = sh.words; best::box<best::strbuf> mine = sh.boxed; mine->push(pick(next()));
      log.s(*mine); log.s(*sh.boxed); for (auto& w : sh.words) log.s(w); log.n(all == sh.words);
      auto f = sh.sorted->bisect((int)(next() % 60)); log.n(f ? (i64)*f.ok() : -1 - (i64)*f.err());
      break;
    }
    case 14: {
      log.s(best::format("{} {:?} {:#?} {}", sh.text, sh.maybe, sh.point, sh.sorted.size()));
      best::strbuf t; log.n(t.push(sh.wide)); log.s(t);
      sh.pick.index_match([&](best::index_t<0>, const auto& x) { log.n(1); }, [&](best::index_t<1>, const auto& x) { log.s(x); });
      for (auto w : sh.text->split(' ')) log.s(w);
      for (auto& w : sh.words.iter().rev()) log.n(w.size());
      break;
    }
    case 15: {
      best::malloc m; size_t sz = 1 + next() % 90, al = 1u << (next() % 7);
      best::layout l(best::unsafe("power of two"), sz, al), l2(best::unsafe("power of two"), sz * 2, al);
      char* p = (char*)m.alloc(l).raw(); for (size_t i = 0; i < sz; ++i) p[i] = (char)(i * v);
      p = (char*)m.realloc(p, l, l2).raw(); log.bytes(p, sz); m.dealloc(p, l2);
      best::overflow<int> o = (int)(next() % 100000); auto q = o * 99999; log.n(q.value); log.n(q.overflowed);
      if (auto x = best::atoi<int>(best::format("{}", (int)(next() % 100000)))) log.n(*x);
      break;
    }
  }
}
void gen(Rng& r, Plan& p) {
  int n = p.cfg["threads"] = 2 + r.below(2);
  bool same = r.chance(50); i64 k0 = r.below(Kinds);
  int k = n + r.below(5);
  for (int i = 0; i < k; ++i) p.add("work", {(i64)(i < n ? i : r.below(n)), same && r.chance(80) ? k0 : (i64)r.below(Kinds), (i64)r.below(1 << 20), (i64)r.below(12)});
}
void run(const Plan& p) {
  death_means("C12");
  int n = (int)p.get("threads", 2); if (n < 1) n = 1;
  out.clear(); err.clear();
  struct Job { const Op* op; u64 h = 0; std::string last; bool done = false; };
  std::vector<std::vector<Job>> jobs(n);
  for (auto& op : p.ops) jobs[(u64)op.arg(0) % n].push_back({&op});
  {
    Shared sh;
    for (int i = 0; i < 7; ++i) sh.words.push(best::strbuf(pick(i * 3 + 1)));
    for (int i = 0; i < 40; i += 1 + i % 3) sh.sorted.push(i);
    sh.text.push("the quick \xf0\x9f\x90\x88 jumps over the lazy caf\xc3\xa9");
    sh.maybe.emplace(best::strbuf("perhaps"));
    sh.boxed->push("boxed up text, long enough for the heap");
    sh.wide.push("wide \xe2\x82\xac text");
    sh.pick.emplace(best::index<1>, best::strbuf("alternative"));
    sh.point = Point{7, "shared point", {}};
    sh.point.more.push(1); sh.point.more.push(2);
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < n; ++t)
      bodies.push_back([&, t] {
        for (auto& j : jobs[t]) {
          Log log;
          work((int)((u64)j.op->arg(1) % Kinds), (u64)j.op->arg(2), j.op->arg(3), sh, log);
          Quiet q;
          j.h = log.h; j.last = log.last; j.done = true;
        }
      });
    bool ok = sched::run(bodies, p.sw);
    if (!ok) { fail("C12", "deadlock", "the threads wait for one another for ever"); return; }
    nontrivial();
    state(mix2(sched::switches > 20 ? 20 : sched::switches, n));
    if (sched::switches > (u64)n) reach("interleaved-threads");
    if (sched::ended_by >= 0) { fail("C12", "ended", "a thread working on its own objects ended the process with status %d: %s", sched::ended_status, err.data.c_str()); return; }
    // Alone.
    for (auto& js : jobs) for (auto& j : js) {
      set_op(j.op);
      Log log;
      int st = run_process([&] { work((int)((u64)j.op->arg(1) % Kinds), (u64)j.op->arg(2), j.op->arg(3), sh, log); });
      if (st != -1) { fail("C12", "ended", "the same work done alone ended the process with status %d: %s", st, err.data.c_str()); return; }
      note("%016llx", (unsigned long long)log.h);
      if (log.h != j.h) { fail("C12", "influenced", "work of kind %d observed other results with other threads around than alone (last: '%s' / '%s')", (int)((u64)j.op->arg(1) % Kinds), j.last.c_str(), log.last.c_str()); return; }
    }
    if (!out.data.empty() || !err.data.empty()) fail("C12", "printed", "work that prints nothing printed something");
  }
  if (heap::live(kCHeap)) {
    size_t leaked = heap::live(kCHeap);
    // Statics built on first use may keep blocks; a second sweep tells.
    note("kept %zu", leaked);
  }
}
RegisterWorld w1({"threads", gen, run, 12});
}  // namespace
}  // namespace sim

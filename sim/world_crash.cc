// World: fatal failures of every kind, from one or several threads at once,
// with messages of any length and failing streams (C10).
#include <pthread.h>
#include <vector>
#include "sim.h"
#include "best/container/choice.h"
#include "best/container/option.h"
#include "best/container/result.h"
#include "best/container/vec.h"
#include "best/log/wtf.h"
#include "best/memory/allocator.h"
#include "best/memory/ptr.h"
#include "best/memory/span.h"
#include "best/math/overflow.h"
#include "best/text/format.h"

namespace crash_world {
// An error that is whatever text it is.
struct Raw {
  std::string s;
  friend void BestFmt(auto& f, const Raw& r) { f.write(*best::str::from(best::span(r.s.data(), r.s.size()))); }
  friend constexpr void BestFmtQuery(auto& q, Raw*) { q.requires_debug = false; }
};
}  // namespace crash_world
namespace sim {
namespace {
using crash_world::Raw;
struct What {
  std::string msg;        // complete message, when it is the caller's own
  std::vector<std::string> facts;
  int line = 0;           // of the failing operation, when it is tracked
  bool came_back = false; // the failing operation returned
  bool keep = false;      // record msg and facts (not from threads, which may end at any point)
};
std::string text(i64 len, u64 salt, bool plain) {
  static const char* bits[] = {"a", "word ", "%s", "%n", "{}", "\n", "\"", "\\", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x90\x88", "x", "\x1b[0m", "%", "0"};
  Quiet q;
  std::string s;
  Rng r(salt);
  while ((i64)s.size() < len) s += plain ? std::string(1, (char)('a' + r.below(26))) : r.chance(4) ? std::string(1, '\0') : std::string(bits[r.below(15)]);
  return s;
}
best::str view(const std::string& s) { return *best::str::from(best::span(s.data(), s.size())); }

__attribute__((noinline)) void wtf_at(const std::string& s, What& w) {
  w.line = __LINE__; best::wtf("{}", view(s));
}
constexpr int Kinds = 19;
// Fails. Everything the failure needs is on this thread's own stack.
void blow(int kind, i64 len, u64 salt, What& w) {
  switch (kind) {
    case 0: case 1: { std::string s = text(kind == 0 ? len : len % 40 + 1, salt, false); if (w.keep) w.msg = s; wtf_at(s, w); }
    case 2: { std::string s = text(len, salt, false); if (w.keep) w.msg = "100% of {" + s + fmt("}; %lld left", (long long)len); w.line = __LINE__; best::wtf("100% of {{{}}}; {} left", view(s), (long long)len); }
    case 3: { w.line = __LINE__; best::wtf(); }
    case 4: {
      int a[8] = {}; size_t n = salt % 8, i = n + len;
      if (w.keep) w.facts = {fmt("%zu", i), fmt("%zu", n)};
      best::span<int> sp(a, n);
      w.line = __LINE__; int x = sp[i];
      note("%d", x); w.came_back = true; return;
    }
    case 5: {
      best::vec<int> v; size_t n = salt % 12, i = n + len;
      for (size_t k = 0; k < n; ++k) v.push((int)k);
      if (w.keep) w.facts = {fmt("%zu", i), fmt("%zu", n)};
      w.line = __LINE__; int x = v[i];
      note("%d", x); w.came_back = true; return;
    }
    case 6: {
      int a[8] = {}; size_t n = salt % 8, i = n + 1 + len;
      best::span<int> sp(a, n);
      if (w.keep) w.facts = {fmt("%zu", i), fmt("%zu", n)};
      w.line = __LINE__; auto x = sp[{.start = i}];
      note("%zu", x.size()); w.came_back = true; return;
    }
    case 7: {
      best::option<int> o;
      w.line = __LINE__; int x = o.value();
      note("%d", x); w.came_back = true; return;
    }
    case 8: {
      std::string s = text(len, salt, true);
      best::strbuf b; b.push(view(s));
      best::result<int, best::strbuf> r = best::err(std::move(b));
      if (w.keep) w.facts = {s};
      int x = *r;
      note("%d", x); w.came_back = true; return;
    }
    case 9: {
      volatile int big = 2147483647;
      best::overflow<int> o(big);
      auto sum = o + 1 + (int)(len % 7);
      w.line = __LINE__; int x = sum.strict();
      note("%d", x); w.came_back = true; return;
    }
    case 10: {
      best::ptr<int> p = nullptr;
      int x = *p;
      note("%d", x); w.came_back = true; return;
    }
    case 11: {
      best::vec<int> v; v.push(1); v.push(2);
      size_t i = 3 + len;
      if (w.keep) w.facts = {fmt("%zu", i)};
      v.insert(i, 5);
      w.came_back = true; return;
    }
    case 12: {
      std::string s = text(len % 300, salt, true);
      best::str t = view(s);
      size_t i = s.size() + 1 + len % 1000;
      if (w.keep) w.facts = {fmt("%zu", i)};
      auto q = t[{.start = i}];
      note("%zu", q.size()); w.came_back = true; return;
    }
    case 13: {
      best::choice<int, char, best::strbuf> c(best::index<0>, (int)len);
      if (salt % 2) c = best::choice<int, char, best::strbuf>(best::index<2>, view(text(len, salt, true)));
      if (w.keep) w.facts = {"1", salt % 2 ? "2" : "0"};
      char x = c[best::index<1>];
      note("%d", x); w.came_back = true; return;
    }
    case 14: {
      std::string s = text(len % 200, salt, true) + "\xf0\x9f\x90\x88" + text(salt % 50, len, true);
      size_t i = len % 200 + 1 + salt % 3;
      best::str t = view(s);
      if (w.keep) w.facts = {fmt("%zu", i)};
      w.line = __LINE__; auto q = t[{.start = i}];
      note("%zu", q.size()); w.came_back = true; return;
    }
    case 15: {
      best::vec<int> v; for (int k = 0; k < 5; ++k) v.push(k);
      size_t i = salt % 5, n = 6 - i + len;
      if (w.keep) w.facts = {fmt("%zu", n), "5"};
      v.erase({.start = i, .count = n});
      w.came_back = true; return;
    }
    case 16: {
      volatile int zero = 0;
      best::overflow<int> a((int)len), b(zero);
      w.line = __LINE__; auto x = best::div(a, b);
      note("%d", x.quot.value); w.came_back = true; return;
    }
    case 17: {
      std::string s = text(len, salt, false);
      best::result<int, Raw> r = best::err(Raw{s});
      if (w.keep) w.facts = {s};
      int x = *r;
      note("%d", x); w.came_back = true; return;
    }
    case 18: {
      // As the library itself fails, by a printf-style message.
      std::string s = text(salt % 3 == 0 ? 510 + len % 5 : len, salt, true);
      if (w.keep) w.msg = s;
      w.line = __LINE__; best::crash_internal::crash("%s", s.c_str());
    }
  }
}
std::string show(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size() && i < 300; ++i) { char c = s[i]; if (c >= 32 && c < 127) o += c; else o += fmt("\\x%02x", (unsigned)(u8)c); }
  return o + (s.size() > 300 ? "..." : "");
}
bool swap_in(std::string& s, const std::string& a, const std::string& b) {
  size_t at = s.find(a);
  if (at == s.npos) return false;
  s.replace(at, a.size(), b);
  return true;
}
constexpr const char* Ref = "reference-thr";

// What the failure says when it happens alone, in a thread called Ref.
bool alone(int kind, i64 len, u64 salt, std::string& said) {
  What w; w.keep = true;
  err.clear(); out.clear();
  pthread_setname_np(pthread_self(), Ref);
  int st = run_process([&] { blow(kind, len, salt, w); });
  said = err.data;
  if (st == -1 || w.came_back) { fail("C10", "came-back", "a fatal failure (kind %d) returned to the operation that failed", kind); return false; }
  if (st != 128) fail("C10", "status", "a fatal failure ended the process with status %d", st);
  if (!out.data.empty()) fail("C10", "on-stdout", "a diagnostic went to standard output");
  if (said.find(Ref) == said.npos) { fail("C10", "no-thread", "the diagnostic does not name the failing thread: %s", show(said).c_str()); return false; }
  if (w.line) {
    std::string here = __FILE__;
    size_t at = said.find(here);
    if (at == said.npos || said.compare(at + here.size(), fmt(":%d", w.line).size(), fmt(":%d", w.line)) || isdigit((u8)said[at + here.size() + fmt(":%d", w.line).size()]))
      fail("C10", "no-location", "the diagnostic does not name the failing caller's location (kind %d, line %d): %s", kind, w.line, show(said).c_str());
  }
  if (!w.msg.empty() && said.find(w.msg) == said.npos)
    fail("C10", "incomplete", "the diagnostic does not hold the complete message of %zu bytes: %s", w.msg.size(), show(said).c_str());
  for (auto& f : w.facts) if (said.find(f) == said.npos) fail("C10", "incomplete", "the diagnostic (kind %d) does not mention %s: %s", kind, show(f).c_str(), show(said).c_str());
  if (w.msg.size() > 511) reach("long-message");
  if (kind == 0 && !w.msg.empty()) {
    // The same failure with another message differs only in the message.
    What q; std::string other;
    err.clear();
    run_process([&] { q.msg = "Q!"; wtf_at(q.msg, q); });
    other = err.data;
    if (swap_in(other, "Q!", w.msg) && other != said)
      fail("C10", "extra-bytes", "the diagnostic holds bytes that are not part of it (%zu instead of %zu): %s", said.size(), other.size(), show(said).c_str());
  }
  err.clear();
  return true;
}

// The same failure when memory runs out on the way.
void starved(int kind, i64 len, u64 salt, u64 nth) {
  What w; w.keep = true;
  err.clear(); out.clear();
  pthread_setname_np(pthread_self(), Ref);
  heap::fail_nth(nth);
  int st = run_process([&] { blow(kind, len, salt, w); });
  bool refused = !heap::pending();
  heap::fail_nth(0);
  std::string said = err.data;
  err.clear();
  if (st == -1 || w.came_back) { fail("C10", "came-back", "a fatal failure (kind %d) returned to the operation that failed, when memory ran out", kind); return; }
  if (st != 128) fail("C10", "status", "a fatal failure ended the process with status %d, when memory ran out", st);
  if (said.find(Ref) == said.npos) fail("C10", "no-thread", "the diagnostic does not name the failing thread, when memory ran out: %s", show(said).c_str());
  if (kind == 18 && said.find(w.msg.substr(0, 400)) == said.npos)
    fail("C10", "incomplete", "the diagnostic does not even begin the message, when memory ran out: %s", show(said).c_str());
  if (refused) reach("out-of-memory");
}

void gen(Rng& r, Plan& p) {
  p.cfg["threads"] = 1 + r.below(3);
  auto len = [&]() -> i64 { return r.chance(25) ? r.range(500, 530) : r.chance(12) ? r.range(531, 1500) : r.range(1, 200); };
  int n = p.cfg["threads"];
  for (int t = 0; t < n; ++t) {
    int before = r.below(3);
    for (int k = 0; k < before; ++k) p.add("noise", {t, r.range(1, 60), (i64)r.below(1000)});
    if (t == 0 || r.chance(85)) p.add("fail", {t, (i64)r.below(Kinds), len(), (i64)r.below(100000), (i64)r.below(15)});
  }
  if (r.chance(25)) p.add("starve", {(i64)(r.chance(50) ? 18 : r.below(Kinds)), len(), (i64)r.below(100000), (i64)r.below(4)});
  if (r.chance(25)) { int k = 1 + r.below(3); while (k--) p.add("stream", {(i64)r.below(8), 1 + (i64)r.below(2), (i64)r.below(20)}); }
}
void run(const Plan& p) {
  death_means("C10");
  int n = (int)p.get("threads", 1); if (n < 1) n = 1;
  struct Job { const Op* op; std::string said; std::string name; What w; bool started = false; };
  std::vector<std::vector<Job>> jobs(n);
  std::vector<const Op*> faults;
  int noise = 0;
  for (auto& op : p.ops) {
    set_op(&op);
    if (op.kind == "starve") { starved((int)((u64)op.arg(0) % Kinds), op.arg(1), op.arg(2), 1 + (u64)op.arg(3) % 8); continue; }
    if (op.kind == "stream") { faults.push_back(&op); continue; }
    int t = (int)((u64)op.arg(0) % n);
    Job j; j.op = &op;
    if (op.kind == "noise") { j.said = fmt("noise-%d-%s\n", noise++, std::string((size_t)op.arg(1) % 80, '.').c_str()); }
    else {
      int kind = (int)((u64)op.arg(1) % Kinds);
      if (!alone(kind, op.arg(2), op.arg(3), j.said)) return;
      j.name = fmt("t%d", t) + std::string((size_t)op.arg(4) % 13, 'a' + t);
      swap_in(j.said, Ref, j.name);
    }
    jobs[t].push_back(j);
  }
  set_op(nullptr);
  err.clear(); out.clear();
  for (auto* f : faults) err.faults[f->arg(0)] = {(int)f->arg(1), f->arg(2)};
  std::vector<std::function<void()>> bodies;
  bool any = false;
  for (int t = 0; t < n; ++t)
    bodies.push_back([&, t] {
      for (auto& j : jobs[t]) {
        if (j.op->kind == "noise") { j.started = true; std::string s = j.said.substr(0, j.said.size() - 1); best::eprintln("{}", view(s)); continue; }
        pthread_setname_np(pthread_self(), j.name.c_str());
        j.started = true;
        blow((int)((u64)j.op->arg(1) % Kinds), j.op->arg(2), j.op->arg(3), j.w);
        j.w.came_back = true;
        return;
      }
    });
  for (auto& js : jobs) for (auto& j : js) any |= j.op->kind == "fail";
  bool ok = sched::run(bodies, p.sw);
  if (!ok) { fail("C10", "deadlock", "the failing threads wait for one another for ever"); return; }
  nontrivial();
  int failing = 0;
  for (auto& js : jobs) for (auto& j : js) {
    if (j.w.came_back) { fail("C10", "came-back", "a fatal failure returned to the operation that failed"); return; }
    if (j.op->kind == "fail" && j.started) ++failing;
  }
  if (failing > 1) reach("failing-together");
  state(mix2(failing, mix2(n, err.pieces.size())));
  if (!any) return;
  if (sched::ended_by < 0) { fail("C10", "status", "no failure ended the process"); return; }
  if (sched::ended_status != 128) fail("C10", "status", "a fatal failure ended the process with status %d", sched::ended_status);
  if (faults.empty()) {
    // Standard error is a sequence of complete texts, the last possibly cut
    // off by the end of the process; the one that ended it is complete.
    std::vector<Job*> left;
    for (auto& js : jobs) for (auto& j : js) left.push_back(&j);
    size_t at = 0; bool own = false;
    while (at < err.data.size()) {
      Job* hit = nullptr;
      for (auto* j : left) if (!j->said.empty() && err.data.compare(at, j->said.size(), j->said) == 0) { hit = j; break; }
      if (hit) {
        at += hit->said.size();
        if (hit->op->kind == "fail" && (int)((u64)hit->op->arg(0) % n) == sched::ended_by) own = true;
        left.erase(std::find(left.begin(), left.end(), hit));
        continue;
      }
      bool cut = false;
      for (auto* j : left) if (j->said.compare(0, err.data.size() - at, err.data, at) == 0) cut = true;
      if (cut) { reach("cut-off-by-end"); break; }
      fail("C10", "mixed", "standard error holds something that is not any failure's diagnostic, at byte %zu: %s", at, show(err.data.substr(at > 40 ? at - 40 : 0)).c_str());
      return;
    }
    if (!own) fail("C10", "missing", "the process ended without the complete diagnostic of the failure that ended it: %s", show(err.data).c_str());
  } else {
    // Whatever the stream accepted belongs to some diagnostic.
    for (auto& pc : err.pieces) {
      if (!pc.len) continue;
      std::string s = err.data.substr(pc.off, pc.len);
      bool found = false;
      for (auto& js : jobs) for (auto& j : js) if (j.said.find(s) != j.said.npos) found = true;
      if (!found) { fail("C10", "extra-bytes", "standard error holds bytes of no diagnostic: %s", show(s).c_str()); return; }
    }
  }
}
RegisterWorld w1({"crash", gen, run, 12});
}  // namespace
}  // namespace sim

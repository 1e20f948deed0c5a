// World: deferred actions, function references and taps over histories of
// creation, triggering, cancelling, re-entry, reassignment and early exits of
// every kind (C17; also C02, C03).
#include <memory>
#include <stdexcept>
#include <string>
#include "elems.h"
#include "best/func/call.h"
#include "best/func/defer.h"
#include "best/func/fnref.h"
#include "best/func/tap.h"
#include "best/container/vec.h"
#include "best/text/strbuf.h"

namespace sim {
namespace {
using T = TrackedT<true>;
using M = TrackedT<false>;

// ---------------------------------------------------------------- deferral
struct Action { const Op* op; int id; int runs = 0; bool pending = true; bool cancelled = false; bool due = false; bool bound = false; std::function<void()> run, cancel; };
struct Left : std::exception {};
struct Scopes {
  const Plan& p; size_t at = 0; int next = 0;
  std::vector<std::unique_ptr<Action>> all;   // every action, ever
  std::vector<Action*> live;                  // whose defer exists
  std::vector<std::pair<int, int>> order;     // (depth, id) of actions run at scope end
  int leave = 0, depth = 0;
  explicit Scopes(const Plan& p) : p(p) {}

  void trigger(Action* a) {
    bool want = a->pending && !a->cancelled; int before = a->runs;
    if (want) a->due = true;
    a->run();
    if (a->runs != before + want) fail("C17", want ? "not-run" : "ran-again", "triggering a deferred action that %s ran it %d times", want ? "was pending" : a->cancelled ? "was cancelled" : "had run", a->runs - before);
  }
  void cancel(Action* a) { a->cancel(); if (a->pending) a->cancelled = true; }
  // The action itself.
  void called(Action* a) {
    ++a->runs;
    if (a->cancelled) fail("C17", "cancelled-ran", "a deferred action ran after it was cancelled");
    if (!a->due) fail("C17", a->runs > 1 ? "ran-again" : "ran-unasked", "a deferred action ran %d times, or when nobody asked", a->runs);
    a->due = false; a->pending = false;
    if (a->runs > 3) return;  // reported already
    note("run %d", a->id);
    Action* o = live.empty() ? nullptr : live[(size_t)a->op->arg(2) % live.size()];
    switch (a->op->arg(1)) {
      case 1: reach("runs-itself"); a->run(); break;
      case 2: reach("cancels-itself"); a->cancel(); break;
      case 3: if (o && o != a && !o->due) { reach("runs-another"); trigger(o); } break;
      case 4: if (o && o != a) cancel(o); break;
      case 5: { int n = 0; { best::defer d = [&] { ++n; }; } if (n != 1) fail("C17", "not-run", "a deferred action inside another ran %d times", n); break; }
      case 6: a->cancel(); a->run(); break;
      default: break;
    }
  }
  // Called right before and right after a defer is destroyed.
  struct Before { Scopes& s; Action* a; ~Before() { if (a->pending && !a->cancelled) a->due = true; } };
  struct After { Scopes& s; Action* a; int depth;
    ~After() {
      bool want = !a->cancelled;
      if (a->runs != want) fail("C17", a->runs > (int)want ? "ran-again" : "not-run", "a deferred action that was %s ran %d times by the end of its scope", a->cancelled ? "cancelled" : "not cancelled", a->runs);
      for (size_t i = 0; i < s.live.size(); ++i) if (s.live[i] == a) { s.live.erase(s.live.begin() + (long)i); break; }
    } };
  template <typename D> void under(D& d, Action* a, const std::function<void()>& rest) {
    a->run = [&d] { d.run(); }; a->cancel = [&d] { d.cancel(); };
    live.push_back(a);
    Before b{*this, a};
    rest();
  }
  static Action* current; static Scopes* self;
  static void plain() { self->called(current); }
  void defer(const Op& op, const std::function<void()>& rest) {
    all.push_back(std::make_unique<Action>()); Action* a = all.back().get(); a->op = &op; a->id = next++;
    After after{*this, a, depth};
    switch (op.arg(0)) {
      case 0: { best::defer d = [this, a] { called(a); }; under(d, a, rest); break; }
      case 1: { best::defer d = [this, a, keep = std::make_unique<i64>(9)] { if (!keep || *keep != 9) fail("C17,C02", "dead-function", "a deferred action ran after it was destroyed"); called(a); }; under(d, a, rest); break; }
      case 2: { struct F { Scopes* s; Action* a; T t{4}; void operator()() { t.check("call"); s->called(a); } }; best::defer d = F{this, a}; under(d, a, rest); break; }
      case 3: { auto f = [this, a, n = 0]() mutable { ++n; if (n > 1 && a->runs < 1) fail("C17", "copied-function", "a function given by reference was copied"); called(a); }; best::defer d(best::bind, f); under(d, a, rest); break; }
      default: { struct F { Scopes* s; Action* a; void operator()() const { s->called(a); } }; const F f{this, a}; best::defer d(best::bind, f); under(d, a, rest); break; }
    }
  }
  // Runs operations until the scope closes.
  void body() {
    while (at < p.ops.size() && !leave) {
      const Op& op = p.ops[at++];
      set_op(&op);
      if (op.kind == "defer") {
        if (live.size() > 24) continue;
        defer(op, [&] { body(); });
        return;  // the rest of this scope ran under it
      }
      if (op.kind == "open") {
        if (depth > 6) continue;
        ++depth;
        if (op.arg(0)) { int was = depth; ++catching; try { body(); } catch (const Left&) { reach("left-by-exception"); leave = 0; depth = was; } --catching; }
        else body();
        --depth;
        if (leave) { --leave; if (leave) reach("left-several"); }
        continue;
      }
      if (op.kind == "close") { if (depth) return; }
      else if (op.kind == "leave") { if (depth) { leave = 1 + (int)op.arg(0) % depth; return; } }
      else if (op.kind == "throw") { if (catching) throw Left(); }
      else if (op.kind == "run") { if (!live.empty()) trigger(live[(size_t)op.arg(0) % live.size()]); }
      else if (op.kind == "cancel") { if (!live.empty()) cancel(live[(size_t)op.arg(0) % live.size()]); }
      else other(op);
      if (++done == 3) nontrivial();
      int pend = 0; for (auto* a : live) pend += a->pending && !a->cancelled;
      state(mix2((u64)depth * 32 + live.size(), (u64)pend));
    }
  }
  int done = 0, catching = 0;

  // ------------------------------------------------------- function references
  struct Got { int who; i64 arg; };
  std::vector<Got> got;      // what was invoked, with what
  using Fn = best::fnref<i64(i64)>; using CFn = best::fnref<i64(i64) const>;
  i64 counts[8] = {};
  struct Counter { Scopes* s; int who; i64 n = 0; T t{1}; i64 operator()(i64 x) { t.check("call"); s->got.push_back({who, x}); return x * 10 + ++n; } };
  struct Const { Scopes* s; int who; T t{1}; i64 operator()(i64 x) const { t.check("call"); s->got.push_back({who, x}); return x * 10 + who; } };
  Counter c0{this, 0}, c1{this, 1}; Const k2{this, 2}, k3{this, 3};
  static i64 free4(i64 x) { self->got.push_back({4, x}); return x - 4; }
  static i64 free5(i64 x) { self->got.push_back({5, x}); return x - 5; }
  struct Slot { std::unique_ptr<Fn> f; std::unique_ptr<CFn> c; int who = -1; };
  Slot slots[4];
  i64 expect(int who, i64 x) { switch (who) { case 0: case 1: return x * 10 + ++counts[who]; case 2: case 3: return x * 10 + who; case 4: case 5: return x - who; case 6: return x + 6; default: return 0; } }
  int extra = -1;  // what callable 7 does to the slot it is called through
  void set(Slot& s, int who, bool cst) {
    auto seven = [](i64 x) { self->got.push_back({6, x}); return x + 6; };
    if (!cst) {
      switch (who) { case -1: s.f.reset(new Fn(nullptr)); break; case 0: s.f.reset(new Fn(c0)); break; case 1: s.f.reset(new Fn(c1)); break; case 2: s.f.reset(new Fn(k2)); break; case 3: s.f.reset(new Fn(std::as_const(k3))); break;
        case 4: s.f.reset(new Fn(free4)); break; case 5: s.f.reset(new Fn(&free5)); break; default: s.f.reset(new Fn(+seven)); }
      s.c.reset();
    } else {
      if (who == 0 || who == 1) who += 2;
      switch (who) { case -1: s.c.reset(new CFn(nullptr)); break; case 2: s.c.reset(new CFn(k2)); break; case 3: s.c.reset(new CFn(std::as_const(k3))); break;
        case 4: s.c.reset(new CFn(free4)); break; case 5: s.c.reset(new CFn(&free5)); break; default: s.c.reset(new CFn(+seven)); }
      s.f.reset();
    }
    s.who = who;
  }
  void check_call(const char* what, int who, i64 x, i64 out) {
    if (got.size() != 1) { fail("C17", "calls", "%s invoked %zu callables", what, got.size()); return; }
    if (got[0].who != who) fail("C17", "wrong-callable", "%s invoked callable %d instead of %d", what, got[0].who, who);
    else if (got[0].arg != x) fail("C17", "argument", "%s passed %lld instead of %lld", what, (long long)got[0].arg, (long long)x);
    else if (i64 w = expect(who, x); out != w) fail("C17", "result", "%s returned %lld instead of %lld", what, (long long)out, (long long)w);
    got.clear();
  }
  void call(Slot& s, i64 x) {
    if (!s.f && !s.c) return;
    bool null = s.f ? *s.f == nullptr : *s.c == nullptr, truth = s.f ? bool(*s.f) : bool(*s.c);
    if (null != (s.who < 0) || truth == null) { fail("C17", "emptiness", "a function reference that refers to %s compares equal to null: %d", s.who < 0 ? "nothing" : "something", null); return; }
    if (null) return;
    got.clear();
    i64 out = s.f ? (*s.f)(x) : (*s.c)(x);
    check_call("a function reference", s.who, x, out);
  }
  // Passed down by value, as a parameter.
  static i64 down(Fn f, i64 x, int n) { return n ? down(f, x, n - 1) : f(x); }
  static i64 cdown(CFn f, i64 x, int n) { return n ? cdown(f, x, n - 1) : f(x); }

  void other(const Op& op) {
    size_t k = (size_t)op.arg(0) % 4; Slot& s = slots[k]; i64 x = op.arg(2);
    if (op.kind == "refer") { set(s, (int)op.arg(1) % 8 - 1, op.arg(3) & 1); }
    else if (op.kind == "copy") { Slot& o = slots[(size_t)op.arg(1) % 4]; if (&o != &s) { s.f.reset(o.f ? new Fn(*o.f) : nullptr); s.c.reset(o.c ? new CFn(*o.c) : nullptr); s.who = o.who; } }
    else if (op.kind == "assign") { Slot& o = slots[(size_t)op.arg(1) % 4]; if (s.f && o.f) { *s.f = *o.f; s.who = o.who; reach("reassigned"); } else if (s.c && o.c) { *s.c = *o.c; s.who = o.who; reach("reassigned"); } }
    else if (op.kind == "call") call(s, x);
    else if (op.kind == "pass") { if (s.who >= 0 && (s.f || s.c)) { got.clear(); int n = (int)op.arg(1) % 5; i64 out = s.f ? down(*s.f, x, n) : cdown(*s.c, x, n); check_call("a function reference passed down", s.who, x, out); } }
    else if (op.kind == "wrap") {
      // A reference to a reference (of another signature).
      if (s.who >= 0 && (s.f || s.c)) {
        got.clear(); i64 out;
        if (s.f) { best::fnref<long long(long)> g(*s.f); out = g(x); } else { best::fnref<long long(long) const> g(*s.c); out = g(x); }
        check_call("a reference to a function reference", s.who, x, out);
      }
    }
    else if (op.kind == "swap") {  // the callable reassigns the reference it is called through
      Fn f(nullptr); int seen = 0; i64 v = 0; auto second = [&](i64 y) -> i64 { seen += 10; v = y; return y + 2; };
      auto first = [&](i64 y) -> i64 { ++seen; f = Fn(second); i64 r = y > 0 ? f(y - 1) : 0; return r + 100; };
      f = Fn(first); reach("reassigned-while-called");
      i64 a = f(x), b = f(x);
      i64 want_a = x > 0 ? x + 1 + 100 : 100;
      if (a != want_a || b != x + 2 || seen != 1 + (x > 0) * 10 + 10 || v != x) fail("C17", "reassigned", "a function reference reassigned by its own callable returned %lld and %lld", (long long)a, (long long)b);
    }
    else if (op.kind == "args") {
      // Arguments and results arrive as what they were.
      T t(x); M m(x + 1); std::string str(40, 'x'); int n = 0;
      auto f = [&](T& a, const T& b, M c, std::string&& d, T e) -> T& { ++n; if (&a != &t || &b != &t) fail("C17", "argument", "a reference argument refers to another object"); if (c.value != x + 1 || d.size() != 40 || e.value != x) fail("C17", "argument", "an argument was altered on the way"); std::string moved = std::move(d); a.value = x + 5; return a; };
      best::fnref<T&(T&, const T&, M, std::string&&, T)> g(f);
      T& r = g(t, t, std::move(m), std::move(str), t);
      if (n != 1 || &r != &t || t.value != x + 5 || !str.empty()) fail("C17", "argument", "a call through a reference did not do what the call does");
      best::fnref<void(T&) const> h = f2; i64 before = t.value; h(t); if (t.value != before + 1) fail("C17", "result", "a call through a reference to a plain function did not do what the call does");
      auto bytes = [&](M mm) -> M { mm.value += 2; return mm; };
      best::fnref<M(M)> mv(bytes); M back = mv(M(x)); if (back.value != x + 2) fail("C17", "result", "a result was altered on the way");
    }
    else if (op.kind == "member") {
      // best::call on members.
      struct S { T t{3}; i64 f(i64 y) { t.check("call"); return y + 1; } i64 g(i64 y) const { t.check("call"); return y + 2; } } o;
      const S& co = o;
      if (best::call(&S::f, o, x) != x + 1 || best::call(&S::f, &o, x) != x + 1 || best::call(&S::g, co, x) != x + 2) fail("C17", "result", "calling a member function gave a wrong result");
      if (&best::call(&S::t, o) != &o.t || &best::call(&S::t, &o) != &o.t) fail("C17", "result", "calling a member did not give the member");
    }
    else if (op.kind == "tap") {
      int n = 0; T t(x);
      best::tap add = [&](auto&& v) { ++n; return [&n, v = v.value](i64 y) { ++n; return v + y; }; };
      i64 r = t->*add(4);
      if (r != x + 4 || n != 2) fail("C17", "tap", "a bound tap returned %lld after %d calls", (long long)r, n);
      std::vector<T> vs; for (int i = 0; i < 4; ++i) vs.push_back(T(i * 10));
      best::tap self_ = [&](auto&& v) -> decltype(auto) { ++n; return BEST_FWD(v); };
      n = 0; size_t at = (size_t)x % 4; T& e = vs->*self_[at];
      if (&e != &vs[at] || n != 1) fail("C17", "tap", "an indexed tap gave another element");
      n = 0; auto see = [&](auto& v) { n += (int)v.size(); v.push_back(T(77)); };
      auto& back = vs->*best::inspect(see)->*best::inspect(best::bind, see);
      if (&back != &vs || n != 9 || vs.size() != 6) fail("C17", "tap", "inspecting changed what was inspected");
      auto adder = [&](auto&& v) { ++n; return [&n, v = v.value](i64 y, i64 z) { ++n; return v + y - z; }; };
      auto pick = [&](auto&& v) -> decltype(auto) { ++n; return BEST_FWD(v); };
      const best::tap cadd(best::bind, adder); const best::tap cpick(best::bind, pick);
      n = 0; i64 u = t->*cadd(4, 1) + t->*BEST_MOVE(cadd)(5, 2) + t->*best::tap(best::bind, adder)(6, 3);
      if (u != 3 * x + 9 || n != 6) fail("C17", "tap", "bound taps returned %lld after %d calls", (long long)u, n);
      n = 0; T* three[] = {&(vs->*cpick[at]), &(vs->*BEST_MOVE(cpick)[at]), &(vs->*best::tap(best::bind, pick)[at])};
      for (T* q : three) if (q != &vs[at] || n != 3) fail("C17", "tap", "an indexed tap gave another element");
      n = 0; i64 c = 5->*best::tap([&](i64 y) { ++n; return y + 1; })->*best::tap([&](i64 y) { ++n; return y * 2; });
      if (c != 12 || n != 2) fail("C17", "tap", "chained taps gave %lld", (long long)c);
    }
  }
  static void f2(T& t) { ++t.value; }
};
Action* Scopes::current; Scopes* Scopes::self;

void gen(Rng& r, Plan& p) {
  int n = 3 + (int)r.below(34), open = 0;
  bool funcs = r.chance(45);
  for (int i = 0; i < n; ++i) {
    if (funcs && r.chance(60)) {
      static const char* ops[] = {"refer", "refer", "call", "call", "call", "copy", "assign", "pass", "wrap", "swap", "args", "member", "tap"};
      p.add(ops[r.below(13)], {(i64)r.below(4), (i64)r.below(8), (i64)r.below(50), (i64)r.below(2)});
      continue;
    }
    switch (r.below(11)) {
      case 0: case 1: case 2: case 3: p.add("defer", {(i64)r.below(5), r.chance(45) ? 0 : (i64)r.below(7), (i64)r.below(20)}); break;
      case 4: case 5: p.add("run", {(i64)r.below(20)}); break;
      case 6: p.add("cancel", {(i64)r.below(20)}); break;
      case 7: p.add("open", {r.chance(40)}); ++open; break;
      case 8: if (open) { p.add("close", {}); --open; } break;
      case 9: p.add("leave", {(i64)r.below(6)}); break;
      default: p.add("throw", {}); break;
    }
  }
}
void run(const Plan& p) {
  death_means("C17,C02,C03");
  reg.clear();
  {
    Scopes s(p); Scopes::self = &s;
    while (s.at < p.ops.size()) { s.leave = 0; s.body(); }
    for (auto& a : s.all) if (a->runs != !a->cancelled) fail("C17", "not-run", "a deferred action that was %s ran %d times in all", a->cancelled ? "cancelled" : "not cancelled", a->runs);
    set_op(nullptr);
  }
  check_nothing_left("functions");
}
RegisterWorld w1({"func", gen, run, 0});
}  // namespace
}  // namespace sim

// World: histories of results over pairs of payloads of every kind (C07; also
// C02, C03, C11).
#include <new>
#include <vector>
#include "sums.h"

namespace sim {
namespace {
constexpr int K = 4;
template <typename T, typename E> struct ResWorld {
  using X = best::result<T, E>;
  using RT = Tr<T>; using RE = Tr<E>;
  template <typename U> static constexpr bool copy1 = Tr<U>::ref || Tr<U>::isvoid || std::is_copy_constructible_v<U>;
  static constexpr bool Copy = copy1<T> && copy1<E>;
  struct M { bool up = false, ok = false; i64 v = 0; };
  char room[K][sizeof(X) + 136];
  X* o[K] = {};
  M m[K];
  const Plan& plan;
  explicit ResWorld(const Plan& p) : plan(p) {}
  static bool hollow(const M& x) { return x.ok ? RT::hollow(x.v) : RE::hollow(x.v); }
  static i64 norm(bool ok, i64 v) { return ok ? RT::norm(v) : RE::norm(v); }

  void verify(int i, const char* when) {
    if (!m[i].up) return;
    X& x = *o[i]; const X& c = x;
    bool ok = c.is_ok();
    if (ok == c.is_err() || ok != (bool)c || c.ok().has_value() != ok || c.err().has_value() == ok || x.ok().has_value() != ok)
      fail("C07,C11", "tag-disagrees", "%s: the ways to ask result %d for its state disagree", when, i);
    if (ok != m[i].ok) { fail("C07", "wrong-alternative", "%s: result %d is %s, expected otherwise", when, i, ok ? "ok" : "an error"); m[i].ok = ok; return; }
    if (ok) {
      if constexpr (!RT::isvoid) {
        i64 a = RT::rd(*c), b = RT::rd(*c.ok()), d = RT::rd(*x), e = RT::rd(*x.ok());
        if (a != b || a != d || a != e) fail("C07", "accessors-disagree", "%s: accessors of result %d disagree", when, i);
        if (a != m[i].v) fail("C07", "wrong-value", "%s: result %d holds %lld, expected %lld", when, i, (long long)a, (long long)m[i].v);
      } else { *c; }
    } else if constexpr (!RE::isvoid) {
      i64 a = RE::rd(*c.err()), b = RE::rd(*x.err());
      if (a != b) fail("C07", "accessors-disagree", "%s: accessors of result %d disagree", when, i);
      if (a != m[i].v) fail("C07", "wrong-value", "%s: result %d holds error %lld, expected %lld", when, i, (long long)a, (long long)m[i].v);
    }
  }
  void all(const char* when) { for (int i = 0; i < K; ++i) verify(i, when); }
  void gone(int i) { if (m[i].up) { o[i]->~X(); m[i] = {}; } }
  void moved_from(int i) {
    if (o[i]->is_ok() != m[i].ok) { fail("C07", "wrong-alternative", "moving from result %d changed its alternative", i); m[i].ok = o[i]->is_ok(); }
    auto look = [&]<typename R>(R, auto&& p) {
      if constexpr (!R::isvoid && !R::inert) {
        i64 v = R::rd(p);
        if (v != m[i].v && !R::hollow(v)) fail("C07", "wrong-value", "a moved-from result holds %lld, which was never stored in it", (long long)v);
        m[i].v = v;
      }
    };
    if (m[i].ok) { if constexpr (!RT::isvoid) look(RT{}, *o[i]->ok()); } else { if constexpr (!RE::isvoid) look(RE{}, *o[i]->err()); }
  }
  static X fresh(bool ok, i64 v) {
    if (ok) { if constexpr (RT::isvoid) return best::ok(); else return best::ok(RT::mk(v)); }
    if constexpr (RE::isvoid) return best::err(); else return best::err(RE::mk(v));
  }
  void run_op(const Op& op) {
    set_op(&op);
    int i = (int)(op.arg(0) % K), j = (int)(op.arg(1) % K);
    i64 val = op.arg(2), how = op.arg(3);
    bool ok = op.arg(4) & 1;
    const std::string& k = op.kind;
    if (k == "new") {
      gone(i);
      char* p = room[i] + (64 - (u64)room[i] % 64) % 64;
      if (alignof(X) <= 8 && how % 2) p += 8;
      bool have_j = i != j && m[j].up;
      M n; n.up = true;
      switch ((how / 2) % 5) {
        case 1: if constexpr (Copy) { if (have_j && !hollow(m[j])) { o[i] = new (p) X((const X&)*o[j]); n.ok = m[j].ok; n.v = m[j].v; m[i] = n; reach("copied"); all("after construction"); return; } } break;
        case 2: if (have_j) { o[i] = new (p) X(std::move(*o[j])); n.ok = m[j].ok; n.v = m[j].v; m[i] = n; moved_from(j); reach("moved"); all("after construction"); return; } break;
        case 3:
          if (ok) { if constexpr (RT::isvoid) o[i] = new (p) X(best::index<0>); else o[i] = new (p) X(best::index<0>, RT::mk(val)); }
          else { if constexpr (RE::isvoid) o[i] = new (p) X(best::index<1>); else o[i] = new (p) X(best::index<1>, RE::mk(val)); }
          n.ok = ok; n.v = norm(ok, val); m[i] = n; nontrivial(); all("after construction"); return;
        default: break;
      }
      o[i] = new (p) X(fresh(ok, val));
      n.ok = ok; n.v = norm(ok, val); m[i] = n;
      all("after construction");
      return;
    }
    if (k == "drop") { gone(i); return; }
    if (!m[i].up) return;
    X& x = *o[i]; const X& c = x;
    if (k == "set") {
      if (how % 2) { x = fresh(ok, val); }
      else if (ok) { if constexpr (RT::isvoid) x = best::ok(); else x = best::ok(RT::mk(val)); }
      else { if constexpr (RE::isvoid) x = best::err(); else x = best::err(RE::mk(val)); }
      reach(ok == m[i].ok ? "assign-in-place" : "replace-alternative");
      m[i].ok = ok; m[i].v = norm(ok, val);
    } else if (k == "copy") {
      if constexpr (Copy) {
        if (!m[j].up || hollow(m[j])) return;
        x = (const X&)*o[j];
        if (i == j) reach("self-copy");
        m[i].ok = m[j].ok; m[i].v = m[j].v;
      }
    } else if (k == "move") {
      if (!m[j].up) return;
      M src = m[j];
      x = std::move(*o[j]);
      if (i == j) reach("self-move"); else { m[i].ok = src.ok; m[i].v = src.v; moved_from(j); }
    } else if (k == "swap") {
      if (!m[j].up || i == j) return;
      using std::swap; swap(x, *o[j]); std::swap(m[i].ok, m[j].ok); std::swap(m[i].v, m[j].v);
    } else if (k == "map") {
      if (hollow(m[i])) return;
      int calls = 0; i64 seen = m[i].v;
      auto rd = [&]<typename R>(R, const auto&... a) -> i64 { ++calls; if constexpr (sizeof...(a) > 0) seen = (R::rd(a), ...); return 4242; };
      bool on_ok = how % 2 == 0;
      if constexpr (Copy) {
        auto expect = [&](const auto& r, bool called_when_ok) {
          if (r.is_ok() != m[i].ok) { fail("C07", "map-result", "mapping changed the alternative"); return; }
          bool called = m[i].ok == called_when_ok;
          if (calls != (called ? 1 : 0)) fail("C07", "callback-count", "a function for the %s case was called %d times on %s", called_when_ok ? "ok" : "error", calls, m[i].ok ? "an ok result" : "an error");
          if (called && seen != m[i].v) fail("C07", "callback-value", "a function was called with %lld instead of %lld", (long long)seen, (long long)m[i].v);
        };
        auto fo = [&](const auto&... a) { return rd(RT{}, a...); };
        auto fe = [&](const auto&... a) { return rd(RE{}, a...); };
        switch (how % 8) {
          case 0: { auto r = c.map(fo); expect(r, true); if (r.is_ok()) { if (*r.ok() != 4242) fail("C07", "map-result", "mapping lost the mapped value"); } else if constexpr (!RE::isvoid) { if (RE::rd(*r.err()) != m[i].v) fail("C07", "map-result", "mapping changed the error"); } break; }
          case 1: { auto r = c.map_err(fe); expect(r, false); if (r.is_err()) { if (*r.err() != 4242) fail("C07", "map-result", "mapping lost the mapped error"); } else if constexpr (!RT::isvoid) { if (RT::rd(*r.ok()) != m[i].v) fail("C07", "map-result", "mapping changed the value"); } break; }
          case 2: { auto r = x.map(fo); expect(r, true); break; }
          case 3: { auto r = x.map_err(fe); expect(r, false); break; }
          case 4: { using U = best::result<int, E>; auto r = c.then([&](const auto&... a) -> U { rd(RT{}, a...); return best::ok((int)9); }); expect(r, true); if (r.is_ok() && *r.ok() != 9) fail("C07", "map-result", "chaining lost the value"); break; }
          case 5: { using U = best::result<int, E>; auto r = x.then([&](const auto&... a) -> U { rd(RT{}, a...); return best::ok((int)9); }); expect(r, true); break; }
          case 6: { auto r = std::move(x).map(fo); expect(r, true); moved_from(i); break; }
          case 7: { auto r = std::move(x).map_err(fe); expect(r, false); moved_from(i); break; }
        }
      }
      (void)on_ok;
    } else if (k == "options") {
      // Turning the sides into optionals and back.
      if (hollow(m[i])) return;
      if constexpr (Copy) {
        if constexpr (!RT::isvoid && !RT::ref) {
          best::option<T> s = c.ok().copy();
          if (s.has_value() != m[i].ok || (m[i].ok && RT::rd(*s) != m[i].v)) fail("C07,C11", "to-option", "ok() gives another value");
        }
        if constexpr (!RE::isvoid && !RE::ref) {
          best::option<E> s = c.err().copy();
          if (s.has_value() == m[i].ok || (!m[i].ok && RE::rd(*s) != m[i].v)) fail("C07,C11", "to-option", "err() gives another value");
        }
      }
    } else if (k == "steal") {
      i64 want = m[i].v;
      if (m[i].ok) { if constexpr (!RT::isvoid && !RT::ref) { T t(*std::move(x)); if (RT::rd(t) != want && !RT::hollow(want)) fail("C07", "wrong-value", "moving out of a result gave another value"); moved_from(i); } }
      else { if constexpr (!RE::isvoid && !RE::ref) { E t(*std::move(x).err()); if (RE::rd(t) != want && !RE::hollow(want)) fail("C07", "wrong-value", "moving out of a result gave another error"); moved_from(i); } }
    } else if (k == "cmp") {
      if (!m[j].up || hollow(m[i]) || hollow(m[j])) return;
      if constexpr (!RT::isvoid && !RT::ref && !RE::isvoid && !RE::ref) {
        const X& d = *o[j];
        if constexpr (best::equatable<T, T> && best::equatable<E, E>)
          if ((c == d) != (m[i].ok == m[j].ok && m[i].v == m[j].v)) fail("C07", "comparison", "equality of results is wrong");
        if constexpr (std::is_same_v<T, Tracked> || std::is_same_v<T, Handle>) {
          T probe(val);
          if ((c == best::ok((const T&)probe)) != (m[i].ok && m[i].v == val)) fail("C07", "comparison", "comparison with an ok value is wrong");
        }
        if ((c == best::ok()) != m[i].ok || (c == best::err()) == m[i].ok) fail("C07", "comparison", "comparison with ok()/err() is wrong");
      }
    } else if (k == "bad") {
      if (m[i].ok) return;
      if constexpr (RT::isvoid) sum_refused("* of an error", [&] { *c; });
      else switch (how % 3) {
        case 0: sum_refused("* of an error", [&] { note("%lld", (long long)RT::rd(*c)); }); break;
        case 1: sum_refused("* of an error", [&] { note("%lld", (long long)RT::rd(*x)); }); break;
        default: sum_refused("* of an rvalue error", [&] { auto&& q = *std::move(x); note("%lld", (long long)RT::rd(q)); });
      }
    } else return;
    u64 key = mix2(std::hash<std::string>()(k), how % 12);
    for (int q = 0; q < K; ++q) key = mix2(key, m[q].up ? 1 + m[q].ok : 0);
    state(key);
    all("after the operation");
  }
  void run() {
    pool_up();
    int n = 0;
    for (auto& op : plan.ops) { run_op(op); if (++n == 3) nontrivial(); }
    set_op(nullptr);
    all("at the end");
    for (int i = 0; i < K; ++i) gone(i);
    pool_down();
    sum_leaks("results");
  }
};

void gen_res(Rng& r, Plan& p) {
  p.cfg["kind"] = r.below(6);
  int n = 3 + r.below(40);
  const char* kinds[] = {"new", "set", "copy", "move", "swap", "map", "options", "steal", "cmp", "bad", "drop"};
  int w[] = {10, 18, 12, 12, 5, 12, 4, 4, 4, 4, 2};
  for (auto& x : w) if (r.chance(15)) x = 0;
  w[0] += 2; w[1] += 2;
  int tot = 0; for (int x : w) tot += x;
  for (int i = 0; i < K; ++i) p.add("new", {i, (i64)r.below(K), r.range(0, 20), (i64)r.below(16), (i64)r.below(60)});
  for (int i = 0; i < n; ++i) {
    int t = r.below(tot), k = 0; while (t >= w[k]) t -= w[k++];
    i64 a = r.below(K), b = r.chance(20) ? a : (i64)r.below(K);
    p.add(kinds[k], {a, b, r.chance(50) ? r.range(0, 20) : r.range(-100000, 100000), (i64)r.below(48), (i64)r.below(60)});
  }
}
void run_res(const Plan& p) {
  reg.clear(); reg.props = reg.bytewise = "C02,C07";
  death_means("C07,C02,C03,C11");
  heap::on_free(reg_freed);
  switch (p.get("kind") % 6) {
    case 0: ResWorld<Tracked, Handle>(p).run(); break;
    case 1: ResWorld<void, Tracked>(p).run(); break;
    case 2: ResWorld<best::strbuf, void>(p).run(); break;
    case 3: ResWorld<Tracked&, best::strbuf>(p).run(); break;
    case 4: ResWorld<NoAssign, Bx>(p).run(); break;
    case 5: if (p.get("salt") & 1) ResWorld<MoveOnly, Wide>(p).run(); else ResWorld<Wide, Tracked&>(p).run(); break;
  }
}
RegisterWorld w1({"res", gen_res, run_res, 0});
}  // namespace
}  // namespace sim

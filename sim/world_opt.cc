// World: histories of optionals over payloads of every kind (C07; also C02,
// C03, C11).
#include <new>
#include <vector>
#include "sums.h"

namespace sim {
namespace {
constexpr int K = 4;
const char* OnDeath = "C07,C02,C03,C11";

// A type an optional of T can be converted from.
template <typename T> struct Conv { using type = void; };
template <> struct Conv<int> { using type = short; };
template <> struct Conv<Tracked> { using type = i64; };
template <> struct Conv<MoveOnly> { using type = i64; };
template <> struct Conv<Handle> { using type = i64; };
template <> struct Conv<NoAssign> { using type = i64; };
template <> struct Conv<Wide> { using type = i64; };
i64 conv(i64 v) { return v; }

template <typename T> struct OptWorld {
  using O = best::option<T>;
  using R = Tr<T>;
  static constexpr bool Ref = R::ref, Void = R::isvoid;
  static constexpr bool Copy = Ref || Void || std::is_copy_constructible_v<T>;
  struct M { bool up = false, has = false; i64 v = 0; };
  alignas(64) char room[K][sizeof(O) + 136];
  O* o[K] = {};
  M m[K];
  const Plan& plan;
  explicit OptWorld(const Plan& p) : plan(p) {}

  static auto&& pay(const auto& x) { return x; }
  // Reads through every accessor.
  void verify(int i, const char* when) {
    if (!m[i].up) return;
    const O& c = *o[i];
    bool has = c.has_value();
    if (has == c.is_empty() || has != (bool)c) fail("C07,C11", "tag-disagrees", "%s: is_empty(), has_value() and the boolean conversion disagree", when);
    if ((c == best::none) == has) fail("C07,C11", "tag-disagrees", "%s: comparison with none disagrees with has_value()", when);
    if (has != m[i].has) { fail("C07", "wrong-alternative", "%s: optional %d %s a value, expected %s", when, i, has ? "has" : "lacks", m[i].has ? "one" : "none"); m[i].has = has; return; }
    if constexpr (!Void) {
      if ((c.as_ptr() != nullptr) != has) fail("C07,C11", "tag-disagrees", "%s: as_ptr() disagrees with has_value()", when);
      if (!has) return;
      i64 a = R::rd(*c), b = R::rd(c.value()), d = R::rd(*o[i]->as_ptr()), e = R::rd(*c.as_ref()), f = R::rd(c.value(best::unsafe("present")));
      if (a != b || a != d || a != e || a != f) fail("C07", "accessors-disagree", "%s: accessors of optional %d disagree", when, i);
      if (a != m[i].v && m[i].v != Vague) fail("C07", "wrong-value", "%s: optional %d holds %lld, expected %lld", when, i, (long long)a, (long long)m[i].v);
      if (&*c != &*c.as_ptr()) fail("C07", "accessors-disagree", "%s: accessors of optional %d give different objects", when, i);
    }
  }
  void all(const char* when) { for (int i = 0; i < K; ++i) verify(i, when); }
  void gone(int i) { if (m[i].up) { o[i]->~O(); m[i] = {}; } }
  // After moving out of slot i: its value is unspecified, but it must be one state.
  void moved_from(int i) {
    bool has = o[i]->has_value();
    if (R::inert) { return; }
    if constexpr (!Void) {
      m[i].has = has;
      if (has) {
        {
          i64 v = R::rd(**o[i]);
          if (v != m[i].v && !R::hollow(v)) fail("C07", "wrong-value", "a moved-from optional holds %lld, which was never stored in it", (long long)v);
          m[i].v = v;
        }
      }
    }
  }
  static bool hollow(const M& x) { return x.has && R::hollow(x.v); }

  void run_op(const Op& op) {
    set_op(&op);
    int i = (int)(op.arg(0) % K), j = (int)(op.arg(1) % K);
    i64 val = op.arg(2), how = op.arg(3);
    const std::string& k = op.kind;
    i64 nv = R::norm(val);
    if (k == "new") {
      gone(i);
      void* p = room[i] + (64 - (u64)room[i] % 64) % 64;
      if (alignof(O) <= 8 && how % 2) p = (char*)p + 8;   // no more alignment than asked for
      bool have_j = i != j && m[j].up;
      M n; n.up = true;
      switch ((how / 2) % 8) {
        case 0: o[i] = new (p) O(); break;
        case 1: o[i] = new (p) O(best::none); break;
        case 2:
          if constexpr (Void) o[i] = new (p) O(best::in_place); else { if constexpr (Ref || std::is_same_v<T, best::strbuf>) o[i] = new (p) O(best::in_place, R::mk(val)); else o[i] = new (p) O(best::in_place, R::mk(val)); }
          n.has = true; n.v = nv; break;
        case 3:
          if constexpr (Void) o[i] = new (p) O(best::in_place);
          else if constexpr (Ref) { if (val & 1) o[i] = new (p) O(R::mk(val)); else o[i] = new (p) O(&R::mk(val)); }
          else if constexpr (std::is_same_v<T, bool>) o[i] = new (p) O(R::mk(val));
          else o[i] = new (p) O(best::bind, R::mk(val));
          n.has = true; n.v = nv; break;
        case 4:
          if constexpr (Copy) { if (have_j && !hollow(m[j])) { o[i] = new (p) O((const O&)*o[j]); n.has = m[j].has; n.v = m[j].v; reach("copied"); break; } }
          o[i] = new (p) O(); break;
        case 5:
          if (have_j) { o[i] = new (p) O(std::move(*o[j])); n.has = m[j].has; n.v = m[j].v; moved_from(j); reach("moved"); break; }
          o[i] = new (p) O(); break;
        case 6: {
          using C = typename Conv<T>::type;
          if constexpr (!std::is_void_v<C>) {
            best::option<C> c; if (val % 3) c.emplace((C)val);
            if (val & 8) o[i] = new (p) O(c); else o[i] = new (p) O(std::move(c));
            n.has = val % 3; n.v = R::norm((C)val); reach("converted"); break;
          }
          o[i] = new (p) O(); break;
        }
        default:
          if constexpr (!Ref && !Void && !std::is_same_v<T, bool>) { T t = R::mk(val); o[i] = new (p) O(std::move(t)); n.has = true; n.v = nv; }
          else o[i] = new (p) O();
      }
      m[i] = n;
      nontrivial();
      all("after construction");
      return;
    }
    if (k == "drop") { gone(i); return; }
    if (!m[i].up) return;
    O& x = *o[i];
    bool was = m[i].has;
    if (k == "set") {
      switch (how % 4) {
        case 0: x = best::none; m[i].has = false; break;
        case 1: x.reset(); m[i].has = false; break;
        case 2:
          if constexpr (Void) { x.emplace(); }
          else if constexpr (Ref) { auto& r = x.emplace(R::mk(val)); if (R::rd(r) != nv) fail("C07", "emplace-result", "emplace() returned another object"); }
          else { auto& r = x.emplace(R::mk(val)); if (&r != x.as_ptr()) fail("C07", "emplace-result", "emplace() returned another object"); }
          m[i].has = true; m[i].v = nv; break;
        case 3:
          if constexpr (Void) { x = O(best::in_place); m[i].has = true; }
          else if constexpr (Ref) { x = &R::mk(val); m[i].has = true; m[i].v = nv; if (val % 7 == 0) { x = (decltype(&R::mk(0)))nullptr; m[i].has = false; } }
          else { T t = R::mk(val); x = O(std::move(t)); m[i].has = true; m[i].v = nv; }
          break;
      }
      if (was && m[i].has) reach("assign-in-place");
    } else if (k == "or_emplace") {
      if constexpr (Void) x.or_emplace();
      else { auto&& r = x.or_emplace(R::mk(val)); i64 got = R::rd(r); if (was ? (got != m[i].v && m[i].v != Vague) : got != nv) fail("C07", "or-emplace", "or_emplace() gave %lld", (long long)got); }
      if (!was) { m[i].has = true; m[i].v = nv; }
    } else if (k == "copy") {
      if constexpr (Copy) {
        if (!m[j].up || hollow(m[j])) return;
        if (hollow(m[i]) && std::is_same_v<T, Bx>) return;
        x = (const O&)*o[j];
        if (i == j) reach("self-copy");
        m[i].has = m[j].has; m[i].v = m[j].v;
      }
    } else if (k == "move") {
      if (!m[j].up) return;
      if (i == j) {
        x = std::move(*o[j]);
        reach("self-move");
        // Self-assignment changes nothing.
      } else {
        M src = m[j];
        x = std::move(*o[j]);
        m[i].has = src.has; m[i].v = src.v;
        moved_from(j);
      }
    } else if (k == "conv") {
      using C = typename Conv<T>::type;
      if constexpr (!std::is_void_v<C>) {
        best::option<C> c; if (val % 3) c.emplace((C)val);
        if (how & 1) x = c; else x = std::move(c);
        m[i].has = val % 3; m[i].v = R::norm((C)val);
        reach("converted");
      }
    } else if (k == "swap") {
      if (!m[j].up || i == j) return;
      if constexpr (std::is_move_constructible_v<O> && std::is_move_assignable_v<O>) {
        using std::swap; swap(x, *o[j]); std::swap(m[i].has, m[j].has); std::swap(m[i].v, m[j].v);
      }
    } else if (k == "map") {
      // Callbacks: once if there is a value, never otherwise; with that value.
      int calls = 0; i64 seen = Vague;
      auto see = [&](const auto&... a) { ++calls; if constexpr (sizeof...(a) > 0) ((seen = R::rd(a)), ...); };
      bool expect_out = was, out_has = false; i64 out_v = 0; bool out_checked = true;
      const O& c = x;
      if (hollow(m[i])) return;
      if constexpr (Void) {
        switch (how % 8) {
          case 0: { auto r = c.map([&] { see(); return 77; }); out_has = r.has_value(); if (out_has) out_v = *r; break; }
          case 1: { auto r = x.then([&] { see(); return best::option<int>(77); }); out_has = r.has_value(); if (out_has) out_v = *r; break; }
          case 2: { c.inspect([&] { see(); }); out_checked = false; break; }
          case 3: { out_has = c.has_value([&] { see(); return true; }); out_v = 77; break; }
          case 4: { out_v = c.map(55, [&] { see(); return 77; }); out_has = true; expect_out = true; break; }
          case 5: { auto r = c.filter([&] { see(); return (val & 1) != 0; }); out_has = r.has_value(); out_v = 77; expect_out = was && (val & 1); break; }
          default: { auto r = std::move(x).map([&] { see(); return 77; }); out_has = r.has_value(); if (out_has) out_v = *r; break; }
        }
        i64 want = how % 8 == 4 && !was ? 55 : 77;
        if (out_checked && (out_has != expect_out || (out_has && out_v != want))) fail("C07", "map-result", "mapping gave the wrong result");
        if (calls != (was ? 1 : 0)) fail("C07", "callback-count", "a function was called %d times on an optional that %s a value", calls, was ? "has" : "lacks");
      } else {
        auto rd = [&](const auto& a) { see(a); return R::rd(a) + 1; };
        switch (how % 16) {
          case 12: { out_v = std::move(x).map((i64)-55, rd); out_has = expect_out = true; if (!was) { if (out_v != -55) fail("C07", "map-result", "mapping with a default gave the wrong result"); out_checked = false; } break; }
          case 13: { auto r = std::move(x).then([&](const auto& a) { i64 q = rd(a); return (val & 1) ? best::option<i64>(q) : best::option<i64>(); }); out_has = r.has_value(); if (out_has) out_v = *r; expect_out = was && (val & 1); break; }
          case 14: { O&& r = std::move(x).inspect([&](const auto& a) { see(a); }); if (&r != &c) fail("C07", "inspect-result", "inspect() returned another optional"); out_checked = false; break; }
          case 15: { out_v = c.map([&] { ++calls; return (i64)-55; }, rd); out_has = expect_out = true; if (!was) { if (out_v != -55 || calls != 1) fail("C07", "map-result", "mapping with a computed default gave the wrong result"); calls = 0; out_checked = false; } break; }
          case 0: { auto r = c.map(rd); out_has = r.has_value(); if (out_has) out_v = *r; break; }
          case 1: { auto r = x.map(rd); out_has = r.has_value(); if (out_has) out_v = *r; break; }
          case 2: { auto r = std::move(x).map(rd); out_has = r.has_value(); if (out_has) out_v = *r; break; }
          case 3: { auto r = c.then([&](const auto& a) { i64 q = rd(a); return (val & 1) ? best::option<i64>(q) : best::option<i64>(); }); out_has = r.has_value(); if (out_has) out_v = *r; expect_out = was && (val & 1); break; }
          case 4: { auto r = x.then([&](auto& a) { return best::option<i64>(rd(a)); }); out_has = r.has_value(); if (out_has) out_v = *r; break; }
          case 5: { const O& r = c.inspect([&](const auto& a) { see(a); }); if (&r != &c) fail("C07", "inspect-result", "inspect() returned another optional"); out_checked = false; break; }
          case 6: { O& r = x.inspect([&](auto& a) { see(a); }); if (&r != &x) fail("C07", "inspect-result", "inspect() returned another optional"); out_checked = false; break; }
          case 7: { out_has = c.has_value([&](const auto& a) { see(a); return (val & 1) != 0; }); out_v = m[i].v + 1; expect_out = was && (val & 1); break; }
          case 8: { out_v = c.map((i64)-55, rd); out_has = expect_out = true; if (!was) { if (out_v != -55) fail("C07", "map-result", "mapping with a default gave the wrong result"); out_checked = false; } break; }
          case 9: if constexpr (Copy) { auto r = c.filter([&](const auto& a) { see(a); return (val & 1) != 0; }); out_has = r.has_value(); expect_out = was && (val & 1); if (out_has) out_v = R::rd(*r) + 1; } else return; break;
          case 10: {
            M src = m[i];
            auto r = std::move(x).filter([&](const auto& a) { see(a); return (val & 1) != 0; }); out_has = r.has_value(); expect_out = was && (val & 1); if (out_has) out_v = R::rd(*r) + 1;
            if (out_has && src.v != Vague && out_v != src.v + 1) fail("C07", "map-result", "filtering gave another value");
            if (out_has != expect_out) fail("C07", "map-result", "filter() kept or dropped a value against its predicate");
            if (calls != (was ? 1 : 0)) fail("C07", "callback-count", "a function was called %d times on an optional that %s a value", calls, was ? "has" : "lacks");
            if (out_has) moved_from(i);
            all("after filtering"); return;
          }
          default: {
            if constexpr (Copy) { auto r = c.copy(); auto r2 = c.as_ref(); out_has = r.has_value(); if (out_has) { see(*r); out_v = R::rd(Ref ? *r2 : *r) + 1; if constexpr (!Ref) if (R::rd(*r2) + 1 != out_v) fail("C07", "copy", "copy() gave another value");
                if constexpr (Ref) seen = m[i].v; } }
            else return;
          }
        }
        if (m[i].v == Vague) out_checked = out_checked && !was;
        if (out_checked && (out_has != expect_out || (out_has && out_v != m[i].v + 1))) fail("C07", "map-result", "mapping gave the wrong result (%d %lld)", out_has, (long long)out_v);
        if (calls != (was ? 1 : 0)) fail("C07", "callback-count", "a function was called %d times on an optional that %s a value", calls, was ? "has" : "lacks");
        if (calls && m[i].v != Vague && seen != m[i].v) fail("C07", "callback-value", "a function was called with %lld instead of %lld", (long long)seen, (long long)m[i].v);
      }
    } else if (k == "or") {
      if constexpr (!Void) {
        if (hollow(m[i])) return;
        if (how % 8 == 0) {
          if constexpr (Copy && !Ref) {
            T r = ((const O&)x).value_or(R::mk(val)); i64 g = R::rd(r);
            if (g != (was ? m[i].v : nv)) fail("C07", "value-or", "value_or() gave %lld", (long long)g);
          }
        } else if (how % 8 == 1) {
          if constexpr (!Ref) {
            i64 want = was ? m[i].v : nv; int calls = 0;
            T r = std::move(x).value_or([&] { ++calls; return R::mk(val); }); i64 g = R::rd(r);
            if (g != want) fail("C07", "value-or", "value_or() gave %lld", (long long)g);
            if (calls != !was) fail("C07", "callback-count", "the default was computed %d times", calls);
            if (was) moved_from(i);
          }
        } else if (how % 8 == 2) {
          if constexpr (Copy) {
            if (!m[j].up || hollow(m[j])) return;
            O r = (const O&)x | (const O&)*o[j]; const M& w = was ? m[i] : m[j];
            if (r.has_value() != w.has || (w.has && R::rd(*r) != w.v)) fail("C07", "or-result", "operator| gave the wrong optional");
          }
        } else if (how % 8 == 3) {
          if constexpr (Copy) {
            if (!m[j].up || hollow(m[j])) return;
            O r = (const O&)x & (const O&)*o[j];
            if (r.has_value() != (was && m[j].has) || (r.has_value() && R::rd(*r) != m[j].v)) fail("C07", "and-result", "operator& gave the wrong optional");
          }
        } else if (how % 8 == 4) {
          if constexpr (Copy && !Ref) {
            int calls = 0;
            T r = ((const O&)x).value_or([&] { ++calls; return R::mk(val); }); i64 g = R::rd(r);
            if (g != (was ? m[i].v : nv)) fail("C07", "value-or", "value_or() gave %lld", (long long)g);
            if (calls != !was) fail("C07", "callback-count", "the default was computed %d times", calls);
          }
        } else if (how % 8 < 7 + (val & 1)) {
          // Those that may be moved from: only the one that is used.
          if (i == j || !m[j].up || hollow(m[j])) return;
          M a = m[i], b = m[j], w;
          int which = how % 8 == 5 ? 0 : how % 8 == 6 ? 1 : 2;
          if constexpr (std::is_move_constructible_v<O>) {
            O r = which == 0 ? std::move(x) | std::move(*o[j]) : which == 1 ? std::move(x) ^ std::move(*o[j]) : x & std::move(*o[j]);
            if (which == 0) w = a.has ? a : b;
            else if (which == 1) { if (a.has != b.has) w = a.has ? a : b; }
            else if (a.has) w = b;
            if (r.has_value() != w.has || (w.has && R::rd(*r) != w.v && w.v != Vague)) fail("C07", "or-result", "an operator on optionals that may be moved from gave the wrong optional");
            if (w.has && which < 2 && a.has) moved_from(i);
            else if (w.has) moved_from(j);
            reach("moved-into-result");
          }
        } else {
          if constexpr (Copy) {
            if (!m[j].up || hollow(m[j])) return;
            O r = (const O&)x ^ (const O&)*o[j];
            bool want = was != m[j].has;
            if (r.has_value() != want || (want && R::rd(*r) != (was ? m[i].v : m[j].v))) fail("C07", "xor-result", "operator^ gave the wrong optional");
          }
        }
      }
    } else if (k == "okor") {
      // Making a result out of a named optional must leave the optional alone.
      if (hollow(m[i])) return;
      {
        int calls = 0;
        M src = m[i];
        auto look = [&](auto&& r, bool okside) {
          bool ok = r.is_ok() == okside;
          if (ok != was) { fail("C07", "ok-or", "the result has the wrong alternative"); return; }
          i64 got = 0;
          if constexpr (!Void) {
            if (was) {
              if (okside) { if constexpr (requires { R::rd(*r.ok()); }) got = R::rd(*r.ok()); } else { if constexpr (requires { R::rd(*r.err()); }) got = R::rd(*r.err()); }
              if (got != src.v && src.v != Vague) fail("C07", "ok-or", "the result holds %lld instead of %lld", (long long)got, (long long)src.v);
            }
          }
          if (!was) {
            i64 other = -1;
            if (okside) { if constexpr (std::is_integral_v<typename best::as_auto<decltype(r)>::err_type>) other = *r.err(); } else { if constexpr (std::is_integral_v<typename best::as_auto<decltype(r)>::ok_type>) other = *r.ok(); }
            if (other != 1) fail("C07", "ok-or", "the result holds %lld instead of what was given", (long long)other);
          }
        };
        const O& c = x;
        auto one = [&] { ++calls; return (char)1; };
        bool by_call = how % 12 == 2 || how % 12 == 5 || how % 12 == 8 || how % 12 == 9, moves = how % 12 > 5 && how % 12 < 12;
        if constexpr (Copy) {
          switch (how % 12) {
            case 0: look(c.ok_or((char)1), true); break;
            case 1: if (val & 1) look(x.ok_or((char)1), true); else look(c.template ok_or<long>(1), true); break;
            case 2: if (val & 1) look(x.ok_or(one), true); else look(c.ok_or(one), true); break;
            case 3: look(c.err_or((char)1), false); break;
            case 4: if (val & 1) look(x.err_or((char)1), false); else look(x.template err_or<long>(1), false); break;
            case 5: if (val & 1) look(x.err_or(one), false); else look(c.err_or(one), false); break;
          }
        }
        switch (how % 12) {
          case 6: look(std::move(x).ok_or((char)1), true); break;
          case 7: look(std::move(x).err_or((char)1), false); break;
          case 8: look(std::move(x).ok_or(one), true); break;
          case 9: look(std::move(x).err_or(one), false); break;
          case 10: look(std::move(x).template ok_or<long>(1), true); break;
          case 11: look(std::move(x).template err_or<long>(1), false); break;
        }
        if ((Copy || moves) && calls != (by_call && !was)) fail("C07", "callback-count", "what to use instead was computed %d times", calls);
        if (moves) { reach("moved-into-result"); if (was) moved_from(i); }
      }
    } else if (k == "cmp") {
      if constexpr (!Void) {
        if (!m[j].up || hollow(m[i]) || hollow(m[j])) return;
        const O &a = x, &b = *o[j];
        if constexpr (!Ref) {
          bool eq = a == b, weq = m[i].has == m[j].has && (!m[i].has || m[i].v == m[j].v);
          if (eq != weq) fail("C07", "comparison", "equality of optionals is wrong");
          if constexpr (!std::is_same_v<T, Bx> && !std::is_same_v<T, best::strbuf> && !best::is_option<T> && !best::is_result<T>) {
            bool lt = a < b, wlt = !m[i].has ? m[j].has : m[j].has && m[i].v < m[j].v;
            if (lt != wlt) fail("C07", "comparison", "ordering of optionals is wrong");
          }
        } else {
          const auto* p = &R::mk(val);
          bool weq = m[i].has && R::rd(*x) == nv;
          if constexpr (std::is_same_v<T, i64&>) if ((a == *p) != (weq)) fail("C07", "comparison", "comparison of an optional reference is wrong");
        }
      }
    } else if (k == "mutate") {
      if constexpr (!Void && !Ref) {
        if (!was || hollow(m[i])) return;
        if constexpr (std::is_same_v<T, int> || std::is_same_v<T, bool>) { if (how & 1) *x = R::mk(val); else x.value() = R::mk(val); m[i].v = nv; }
        else if constexpr (std::is_same_v<T, Bx>) { **x = (int)val; m[i].v = nv; }
        else if constexpr (std::is_same_v<T, Wide> || std::is_same_v<T, NoAssign>) { if (how & 1) x->t.value = val; else (*x).t.value = val; m[i].v = val; }
        else if constexpr (std::is_same_v<T, best::strbuf>) { *x = R::mk(val); m[i].v = nv; }
        else if constexpr (!requires { x->value = val; }) { *x.as_ptr() = R::mk(val); m[i].v = nv; }
        else { if (how & 1) x->value = val; else (*x.as_ptr()).value = val; m[i].v = val; }
      }
    } else if (k == "bad") {
      if (was) return;
      if constexpr (Void) sum_refused("value() of an empty optional", [&] { x.value(); });
      else switch (how % 4) {
        case 0: sum_refused("value() of an empty optional", [&] { note("read %lld", (long long)R::rd(x.value())); }); break;
        case 1: sum_refused("* of an empty optional", [&] { note("read %lld", (long long)R::rd(*(const O&)x)); }); break;
        case 2: sum_refused("* of an empty rvalue optional", [&] { auto&& q = *std::move(x); note("read %lld", (long long)R::rd(q)); }); break;
        default: sum_refused("-> of an empty optional", [&] { auto p = x.operator->(); note("read %d", p != nullptr); }); break;
      }
      // The refusal must not have changed anything.
    } else return;
    u64 key = mix2(std::hash<std::string>()(k), how % 12);
    for (int q = 0; q < K; ++q) key = mix2(key, m[q].up ? 1 + m[q].has : 0);
    state(key);
    all("after the operation");
  }
  void run() {
    pool_up();
    int n = 0;
    for (auto& op : plan.ops) { run_op(op); if (++n == 3) nontrivial(); }
    set_op(nullptr);
    all("at the end");
    for (int i = 0; i < K; ++i) gone(i);
    pool_down();
    sum_leaks("optionals");
  }
};

void gen_opt(Rng& r, Plan& p) {
  p.cfg["kind"] = r.below(5);
  int n = 3 + r.below(40);
  const char* kinds[] = {"new", "set", "or_emplace", "copy", "move", "conv", "swap", "map", "or", "okor", "cmp", "mutate", "bad", "drop"};
  int w[] = {14, 14, 6, 12, 12, 5, 4, 14, 6, 6, 4, 5, 3, 2};
  for (auto& x : w) if (r.chance(15)) x = 0;
  w[0] += 2; w[1] += 2;
  int tot = 0; for (int x : w) tot += x;
  for (int i = 0; i < K; ++i) p.add("new", {i, (i64)r.below(K), r.range(0, 20), (i64)r.below(16)});
  for (int i = 0; i < n; ++i) {
    int t = r.below(tot), k = 0; while (t >= w[k]) t -= w[k++];
    i64 a = r.below(K), b = r.chance(20) ? a : (i64)r.below(K);
    p.add(kinds[k], {a, b, r.chance(50) ? r.range(0, 20) : r.range(-100000, 100000), (i64)r.below(48)});
  }
}
void run_opt(const Plan& p) {
  reg.clear(); reg.props = reg.bytewise = "C02,C07";
  death_means(OnDeath);
  heap::on_free(reg_freed);
  switch (p.get("kind") % 5) {
#if OPT_PART == 0
    case 0: OptWorld<Tracked>(p).run(); break;
    case 1: OptWorld<int>(p).run(); break;
    case 2: OptWorld<MoveOnly>(p).run(); break;
    case 3: OptWorld<Bx>(p).run(); break;
    case 4: OptWorld<i64&>(p).run(); break;
#elif OPT_PART == 2
    case 0: OptWorld<best::option<Bx>>(p).run(); break;
    case 1: OptWorld<best::option<best::rune>>(p).run(); break;
    case 2: OptWorld<best::result<Bx, best::ioerr>>(p).run(); break;
    default: OptWorld<best::rune>(p).run(); break;
#else
    case 0: OptWorld<Handle>(p).run(); break;
    case 1: OptWorld<NoAssign>(p).run(); break;
    case 2: OptWorld<Wide>(p).run(); break;
    case 3: OptWorld<best::strbuf>(p).run(); break;
    case 4: if (p.get("salt") & 1) OptWorld<void>(p).run(); else OptWorld<Tracked&>(p).run(); break;
#endif
  }
}
RegisterWorld w1({OPT_PART == 0 ? "opt0" : OPT_PART == 1 ? "opt1" : "opt2", gen_opt, run_opt, 0});
}  // namespace
}  // namespace sim

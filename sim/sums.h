// Payload kinds shared by the optional / result / variant worlds.
#pragma once
#include "elems.h"
#include "best/container/box.h"
#include "best/container/choice.h"
#include "best/container/option.h"
#include "best/container/result.h"
#include "best/container/vec.h"
#include "best/io/ioerr.h"
#include "best/text/format.h"
#include "best/text/rune.h"
#include "best/text/strbuf.h"

namespace sim {
// Can be built and copied, but not assigned.
struct NoAssign {
  Tracked t;
  explicit NoAssign(i64 v) : t(v) {}
  NoAssign(const NoAssign&) = default;
  NoAssign(NoAssign&&) = default;
  NoAssign& operator=(const NoAssign&) = delete;
  NoAssign& operator=(NoAssign&&) = delete;
  bool operator==(const NoAssign&) const = default;
  auto operator<=>(const NoAssign&) const = default;
};
using Bx = best::box<int>;

// What references stored in optionals and friends refer to.
constexpr int PoolN = 5;
inline i64 int_pool[PoolN];
inline Tracked* trk_pool[PoolN];
inline void pool_up() { for (int i = 0; i < PoolN; ++i) { int_pool[i] = 1000 + i; trk_pool[i] = new Tracked(2000 + i); } }
inline void pool_down() {
  for (int i = 0; i < PoolN; ++i) {
    if (int_pool[i] != 1000 + i) fail("C07", "referent-changed", "storing, replacing or moving a stored reference changed the object it refers to");
    trk_pool[i]->check("end of run");
    if (trk_pool[i]->value != 2000 + i) fail("C07", "referent-changed", "storing, replacing or moving a stored reference changed the object it refers to (%lld)", (long long)trk_pool[i]->value);
    delete trk_pool[i];
  }
}

constexpr i64 Vague = -999999;   // value of something moved-from
// mk(v): a fresh payload; rd(x): what it holds; norm(v): what mk(v) should hold.
template <typename T> struct Tr {   // Tracked-like with an i64 constructor and .value
  using type = T;
  static T mk(i64 v) { return T(v); }
  static i64 rd(const T& x) { if constexpr (requires { x.t; }) { x.t.check("read"); return x.t.value; } else { x.check("read"); return x.value; } }
  static i64 norm(i64 v) { return v; }
  static constexpr bool ref = false, isvoid = false, inert = false;
  static bool hollow(i64 v) { return v == Tracked::Moved; }
};
template <> struct Tr<int> { using type = int; static int mk(i64 v) { return (int)v; } static i64 rd(const int& x) { return x; } static i64 norm(i64 v) { return (int)v; }
  static constexpr bool ref = false, isvoid = false, inert = true; static bool hollow(i64) { return false; } };
template <> struct Tr<bool> { using type = bool; static bool mk(i64 v) { return v & 1; } static i64 rd(const bool& x) { return *(const unsigned char*)&x; } static i64 norm(i64 v) { return v & 1; }
  static constexpr bool ref = false, isvoid = false, inert = true; static bool hollow(i64) { return false; } };
template <> struct Tr<Bx> { using type = Bx; static Bx mk(i64 v) { return Bx((int)v); }
  static i64 rd(const Bx& x) { return x.as_ptr().raw() == best::ptr<int>::dangling().raw() ? Vague : *x; }
  static i64 norm(i64 v) { return (int)v; } static constexpr bool ref = false, isvoid = false, inert = false; static bool hollow(i64 v) { return v == Vague; } };
template <> struct Tr<best::strbuf> { using type = best::strbuf;
  static std::string text(i64 v) { std::string s = fmt("%lld", (long long)v); if (v % 3 == 0) s += std::string(40, 'x'); return s; }
  static best::strbuf mk(i64 v) { auto s = text(v); best::strbuf b; b.push(*best::str::from(best::span(s.data(), s.size()))); return b; }
  static i64 rd(const best::strbuf& x) { std::string s(x.data(), x.size()); if (s.empty()) return Vague; i64 v = atoll(s.c_str()); if (s != text(v)) return -123456; return v; }
  static i64 norm(i64 v) { return v; } static constexpr bool ref = false, isvoid = false, inert = false; static bool hollow(i64 v) { return v == Vague; } };
// Payloads that have a niche, or hold something that has.
template <> struct Tr<best::rune> { using type = best::rune; static best::rune mk(i64 v) { return *best::rune::from_int((u32)((u64)v % 0xd800)); } static i64 rd(const best::rune& x) { return (i64)x.to_int(); } static i64 norm(i64 v) { return (i64)((u64)v % 0xd800); }
  static constexpr bool ref = false, isvoid = false, inert = true; static bool hollow(i64) { return false; } };
template <> struct Tr<best::option<Bx>> { using type = best::option<Bx>; static type mk(i64 v) { if (v % 3 == 0) return best::none; return type(Bx((int)v)); }
  static i64 rd(const type& x) { return x.is_empty() ? -77 : Tr<Bx>::rd(*x); } static i64 norm(i64 v) { return v % 3 == 0 ? -77 : (int)v; }
  static constexpr bool ref = false, isvoid = false, inert = false; static bool hollow(i64 v) { return v == Vague || v == -77; } };
template <> struct Tr<best::option<best::rune>> { using type = best::option<best::rune>; static type mk(i64 v) { if (v % 3 == 0) return best::none; return type(Tr<best::rune>::mk(v)); }
  static i64 rd(const type& x) { return x.is_empty() ? -77 : Tr<best::rune>::rd(*x); } static i64 norm(i64 v) { return v % 3 == 0 ? -77 : Tr<best::rune>::norm(v); }
  static constexpr bool ref = false, isvoid = false, inert = true; static bool hollow(i64) { return false; } };
template <> struct Tr<best::result<Bx, best::ioerr>> { using type = best::result<Bx, best::ioerr>; static type mk(i64 v) { if (v % 3 == 0) return best::err(best::ioerr((int)((u64)v % 50) + 1)); return type(best::ok(Bx((int)v))); }
  static i64 rd(const type& x) { if (x.is_err()) return -100 - x.err()->raw(); return Tr<Bx>::rd(*x.ok()); } static i64 norm(i64 v) { return v % 3 == 0 ? -101 - (i64)((u64)v % 50) : (int)v; }
  static constexpr bool ref = false, isvoid = false, inert = false; static bool hollow(i64 v) { return v == Vague; } };
template <> struct Tr<i64&> { using type = i64&; static i64& mk(i64 v) { return int_pool[(u64)v % PoolN]; }
  static i64 rd(const i64& x) { i64 d = &x - int_pool; return d >= 0 && d < PoolN ? d : -5; } static i64 norm(i64 v) { return (u64)v % PoolN; }
  static constexpr bool ref = true, isvoid = false, inert = true; static bool hollow(i64) { return false; } };
template <> struct Tr<Tracked&> { using type = Tracked&; static Tracked& mk(i64 v) { return *trk_pool[(u64)v % PoolN]; }
  static i64 rd(const Tracked& x) { for (int i = 0; i < PoolN; ++i) if (&x == trk_pool[i]) return i; return -5; } static i64 norm(i64 v) { return (u64)v % PoolN; }
  static constexpr bool ref = true, isvoid = false, inert = true; static bool hollow(i64) { return false; } };
template <> struct Tr<void> { using type = void; template <typename X> static i64 rd(const X&) { return 0; } static i64 norm(i64) { return 0; } static constexpr bool ref = false, isvoid = true, inert = true; static bool hollow(i64) { return false; } };

template <typename F> bool sum_refused(const char* what, F f) {
  err.clear();
  int st = run_process(f);
  if (st == -1) { fail("C11,C07", "not-refused", "%s was not refused", what); return false; }
  if (st != 128) fail("C11,C10", "refused-status", "%s ended the process with status %d", what, st);
  else if (err.data.empty()) fail("C11,C10", "refused-silent", "%s ended the process without a diagnostic", what);
  reach("refused-access");
  return true;
}
inline void sum_leaks(const char* what) { check_nothing_left(what); }
}  // namespace sim

// Reference text codec for the text worlds, written from the encodings'
// definitions (never from the library).
#pragma once
#include <vector>
#include "sim.h"
#include "best/text/ascii.h"
#include "best/text/strbuf.h"
#include "best/text/utf16.h"
#include "best/text/utf32.h"
#include "best/text/utf8.h"

namespace sim::tref {
using Units = std::vector<u32>;
enum Enc { Utf8, Utf16, Utf32, Wtf8, Ascii, Latin1 };
template <typename E> struct Id;
template <> struct Id<best::utf8> { static constexpr Enc id = Utf8; };
template <> struct Id<best::utf16> { static constexpr Enc id = Utf16; };
template <> struct Id<best::utf32> { static constexpr Enc id = Utf32; };
template <> struct Id<best::wtf8> { static constexpr Enc id = Wtf8; };
template <> struct Id<best::ascii> { static constexpr Enc id = Ascii; };
template <> struct Id<best::latin1> { static constexpr Enc id = Latin1; };
inline const char* name(Enc e) { static const char* n[] = {"UTF-8", "UTF-16", "UTF-32", "WTF-8", "ASCII", "Latin-1"}; return n[e]; }
inline u32 unit_max(Enc e) { return e == Utf32 ? 0xffffffffu : e == Utf16 ? 0xffff : 0xff; }
inline bool surrogate(u32 r) { return r >= 0xd800 && r <= 0xdfff; }
inline bool can(Enc e, u32 r) {
  if (r > 0x10ffff) return false;
  switch (e) { case Ascii: return r < 0x80; case Latin1: return r < 0x100; case Wtf8: return true; default: return !surrogate(r); }
}
inline bool put(Enc e, u32 r, Units& out) {
  if (!can(e, r)) return false;
  if (e == Ascii || e == Latin1 || e == Utf32) { out.push_back(r); return true; }
  if (e == Utf16) {
    if (r < 0x10000) out.push_back(r);
    else { out.push_back(0xd800 + ((r - 0x10000) >> 10)); out.push_back(0xdc00 + ((r - 0x10000) & 0x3ff)); }
    return true;
  }
  if (r < 0x80) out.push_back(r);
  else if (r < 0x800) { out.push_back(0xc0 | r >> 6); out.push_back(0x80 | (r & 0x3f)); }
  else if (r < 0x10000) { out.push_back(0xe0 | r >> 12); out.push_back(0x80 | (r >> 6 & 0x3f)); out.push_back(0x80 | (r & 0x3f)); }
  else { out.push_back(0xf0 | r >> 18); out.push_back(0x80 | (r >> 12 & 0x3f)); out.push_back(0x80 | (r >> 6 & 0x3f)); out.push_back(0x80 | (r & 0x3f)); }
  return true;
}
// One rune, or one ill-formed unit. `cut`: the rest of the text is a proper
// prefix of a rune, i.e. it was cut off.
struct Item { size_t pos, len; bool ok; u32 r; bool cut = false; bool operator==(const Item& o) const { return pos == o.pos && len == o.len && ok == o.ok && r == o.r; } };
inline Item at(Enc e, const Units& u, size_t i) {
  Item bad{i, 1, false, 0};
  u32 a = u[i];
  switch (e) {
    case Ascii: return a < 0x80 ? Item{i, 1, true, a} : bad;
    case Latin1: return {i, 1, true, a};
    case Utf32: return a <= 0x10ffff && !surrogate(a) ? Item{i, 1, true, a} : bad;
    case Utf16: {
      if (!surrogate(a)) return {i, 1, true, a};
      if (a >= 0xdc00) return bad;
      if (i + 1 >= u.size()) { bad.cut = true; return bad; }
      u32 b = u[i + 1];
      if (b < 0xdc00 || b > 0xdfff) return bad;
      return {i, 2, true, 0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00)};
    }
    default: {
      if (a < 0x80) return {i, 1, true, a};
      size_t n; u32 lo = 0x80, hi = 0xbf, v;
      if (a >= 0xc2 && a <= 0xdf) { n = 2; v = a & 0x1f; }
      else if (a >= 0xe0 && a <= 0xef) { n = 3; v = a & 0xf; if (a == 0xe0) lo = 0xa0; if (a == 0xed && e == Utf8) hi = 0x9f; }
      else if (a >= 0xf0 && a <= 0xf4) { n = 4; v = a & 7; if (a == 0xf0) lo = 0x90; if (a == 0xf4) hi = 0x8f; }
      else return bad;
      for (size_t k = 1; k < n; ++k) {
        if (i + k >= u.size()) { bad.cut = true; return bad; }
        u32 b = u[i + k];
        if (b < lo || b > hi) return bad;
        v = v << 6 | (b & 0x3f); lo = 0x80; hi = 0xbf;
      }
      return {i, n, true, v};
    }
  }
}
inline std::vector<Item> parse(Enc e, const Units& u) {
  std::vector<Item> out;
  for (size_t i = 0; i < u.size();) { out.push_back(at(e, u, i)); i += out.back().len; }
  return out;
}
inline bool valid(const std::vector<Item>& v) { for (auto& x : v) if (!x.ok) return false; return true; }
// Whether `i` is where a rune starts or the text ends, in well-formed text.
inline bool boundary(const std::vector<Item>& v, size_t size, size_t i) {
  if (i == size) return true;
  for (auto& x : v) if (x.pos == i) return true;
  return false;
}
// Runes worth drawing: few enough to repeat, each encoding length, each edge.
inline u32 draw_rune(Rng& r, Enc e) {
  static const u32 common[] = {'a', 'b', 'a', 'b', ',', ' ', 'z'};
  static const u32 rare[] = {0, 0x7f, 0x80, 0xe9, 0xff, 0x100, 0x7ff, 0x800, 0x20ac, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f9f6, 0x10ffff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0x41, 0x5c, '\n'};
  for (;;) {
    u32 x = r.chance(55) ? common[r.below(7)] : r.chance(85) ? rare[r.below(23)] : (u32)r.below(0x110000);
    if (can(e, x)) return x;
  }
}
template <typename C> std::string dump(const C& u) { std::string s; for (auto x : u) s += fmt("%x ", (unsigned)x); return s; }

// A text as received: exactly as much memory as it needs, on the simulated
// heap, where reading outside it is detected.
template <typename E> struct Received {
  using C = typename E::code;
  C* p = nullptr; void* block = nullptr; size_t n = 0;
  explicit Received(const Units& u, bool nul = false) {
    n = u.size();
    size_t all = n + nul;
    block = heap::get(all ? all * sizeof(C) : sizeof(C), alignof(C), 5, false);
    p = (C*)block;
    if (!all) p += 1;  // an empty text one past a block
    for (size_t i = 0; i < n; ++i) p[i] = (C)u[i];
    if (nul) p[n] = 0;
  }
  Received(const Received&) = delete;
  ~Received() { heap::put(block); }
  best::span<const C> span() const { return best::span<const C>(p, n); }
  best::pretext<E> pre() const { return best::pretext<E>(span()); }
  best::text<E> text() const { return best::text<E>(best::unsafe("checked by the caller"), pre()); }
};
template <typename C> Units units(const C* p, size_t n) { Units u; for (size_t i = 0; i < n; ++i) u.push_back((u32)(std::make_unsigned_t<std::conditional_t<sizeof(C) == 1, char, std::conditional_t<sizeof(C) == 2, short, int>>>)p[i]); return u; }
// What happens to a text on its way: cut at either end, units altered, lost,
// repeated, exchanged or made up.
inline const char* damage(Enc e, Units& u, u64 how, u64 a, u64 b) {
  size_t n = u.size();
  if (!n) return nullptr;
  auto unit = [&]() -> u32 {
    static const u32 interesting8[] = {0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xe0, 0xed, 0xf0, 0xf4, 0xf5, 0xf8, 0xff, 0xa0, 0x9f, 0x90, 0x8f};
    static const u32 interesting[] = {0xd800, 0xdbff, 0xdc00, 0xdfff, 0xd83e, 0xdef6, 0xffff, 0xfffe};
    if (e == Utf16 || e == Utf32) return b % 3 ? interesting[b / 3 % 8] : e == Utf32 && b / 3 % 4 == 0 ? 0x110000 + (u32)(b % 7) : (u32)(b / 3) & unit_max(e);
    return b % 3 ? interesting8[b / 3 % 16] : (u32)(b / 3) & 0xff;
  };
  switch (how % 7) {
    case 0: u.resize(a % n); return "cut-end";
    case 1: u.erase(u.begin(), u.begin() + a % n); return "cut-start";
    case 2: u[a % n] = unit(); return "unit-altered";
    case 3: u[a % n] = (u[a % n] ^ (1u << b % (e == Utf32 ? 22 : e == Utf16 ? 16 : 8))); return "bit-flipped";
    case 4: u.erase(u.begin() + a % n); return "unit-lost";
    case 5: u.insert(u.begin() + a % n, b & 1 ? u[a % n] : unit()); return "unit-repeated";
    default: std::swap(u[a % n], u[b % n]); return "units-exchanged";
  }
}
}  // namespace sim::tref

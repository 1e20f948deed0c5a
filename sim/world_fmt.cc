// World: documents of values that write text in pieces, in any encoding, into
// any nesting of pretty-printed blocks, with options, early finishes and
// exceptions, by one or several threads, against a reference printer (C21).
#include <climits>
#include <cstdint>
#include <algorithm>
#include <memory>
#include <vector>
#include "textref.h"
#include "best/container/box.h"
#include "best/container/choice.h"
#include "best/container/option.h"
#include "best/container/result.h"
#include "best/container/row.h"
#include "best/container/vec.h"
#include "best/memory/span.h"
#include "best/meta/reflect.h"
#include "best/text/format.h"
#include "best/text/strbuf.h"

namespace fmt_world {
using sim::Op; using sim::Rng; using sim::i64; using sim::u64; using sim::u32;
struct Node { const Op* op; std::vector<Node> kids; };
struct Thrown {};
using Spec = best::format_spec;
constexpr bool any_method(best::rune) { return true; }

// A value whose formatting runs a node.
struct V { const Node* n; };
constexpr void BestFmtQuery(auto& q, V*) { q.requires_debug = false; q.supports_width = true; q.supports_prec = true; q.uses_method = any_method; }
void run_node(best::formatter&, const Node&);
void BestFmt(auto& f, const V& v) { run_node(f, *v.n); }
struct Both { V first, second; };
enum class Colour { Red, Green, Blue };
constexpr auto BestReflect(auto& m, Colour*) { return m.template infer<best::bounds{.start = 0, .count = 3}>(); }
}  // namespace fmt_world

namespace sim {
namespace {
using namespace fmt_world;
using namespace tref;
using best::rune;
const char* titles[] = {"", "", "T", "A title", "two\nlines", "\xc3\xa9"};

void utf8(u32 r, std::string& s) { Units u; put(Utf8, r, u); for (u32 x : u) s.push_back((char)x); }
u32 draw(Rng& r) {
  static const u32 pool[] = {'a', 'b', '\n', '\n', '\n', ' ', ',', '{', '}', '"', '\'', '\\', 0xe9, 0x20ac, 0x1f9f6, '\t', 0, 7, 0x1b, 0x7f, '\r', 0x200d, 'x', '0'};
  return pool[r.chance(12) ? r.below(24) : r.below(16)];
}
Spec spec_of(i64 seed) {
  Rng r((u64)seed * 77 + 5); Spec s;
  s.alt = r.chance(50); s.debug = r.chance(50); s.sign_aware_padding = r.chance(15); s.pass_through = r.chance(12);
  if (r.chance(30)) s.alignment = (Spec::align)r.below(3);
  if (r.chance(30)) s.fill = r.chance(50) ? rune('*') : *rune::from_int(0xb7);
  if (r.chance(35)) s.width = (u32)(r.chance(8) ? r.below(220) : r.below(13));
  if (r.chance(25)) s.prec = (u32)r.below(6);
  if (r.chance(30)) s.method = *rune::from_int((u32)"boxXq"[r.below(5)]);
  return s;
}
std::string describe(const Spec& s) {
  return fmt("<%d%d%d%d a%d f%x w%d p%d m%x>", s.alt, s.debug, s.sign_aware_padding, s.pass_through, s.alignment ? (int)*s.alignment : -1, s.fill.to_int(), (int)s.width, s.prec ? (int)*s.prec : -1, s.method ? s.method->to_int() : 0);
}

// ---------------------------------------------------------------- reference
struct Model {
  std::string out; bool start = false; size_t depth = 0, deepest = 0; Spec spec{.debug = true};
  void write(const std::string& s) {
    for (char c : s) {
      if (c == '\n') { out.push_back(c); start = true; continue; }
      if (start) for (size_t i = 0; i < depth; ++i) out += "  ";
      start = false; out.push_back(c);
    }
  }
  void pad(const std::string& s, size_t runes, Spec::align dflt, const std::string& zeros_after = "") {
    size_t fill = spec.width > runes ? spec.width - runes : 0, pre = 0, post = 0;
    switch (spec.alignment.value_or(dflt)) { case Spec::Left: post = fill; break; case Spec::Right: pre = fill; break; default: pre = fill / 2; post = fill - pre; }
    std::string f; utf8(spec.fill.to_int(), f);
    for (size_t i = 0; i < pre; ++i) write(f);
    write(s);
    for (size_t i = 0; i < post; ++i) write(f);
  }
  std::string escaped(u32 r) {
    switch (r) { case '\'': return "\\'"; case '"': return "\\\""; case '\\': return "\\\\"; case '\n': return "\\n"; case '\t': return "\\t";
      case 0: return "\\0"; case 7: return "\\a"; case 8: return "\\b"; case 12: return "\\f"; case 13: return "\\r"; case 11: return "\\v"; case 0x200d: return "\\u200D"; }
    if (r < 32 || r == 127) return fmt("\\x%02x", r);
    std::string s; utf8(r, s); return s;
  }
  void integer(i64 v, bool positive) {
    u32 m = spec.method ? spec.method->to_int() : 0; int base = m == 'b' ? 2 : m == 'o' ? 8 : m == 'x' || m == 'X' ? 16 : 10;
    bool neg = v < 0 && !positive; std::string sign = neg ? "-" : "", d; u64 u = neg ? -(u64)v : (u64)v;
    do { char c = "0123456789abcdef"[u % base]; d.insert(d.begin(), m == 'X' ? (char)toupper(c) : c); u /= base; } while (u);
    if (spec.alt) sign += base == 2 ? "0b" : base == 8 ? "0" : base == 16 ? "0x" : "";
    size_t n = sign.size() + d.size();
    if (spec.sign_aware_padding && spec.width > n) { write(sign + std::string(spec.width - n, '0') + d); return; }
    pad(sign + d, n, Spec::Right);
  }
  void string(const std::vector<u32>& rs) {
    std::string s; size_t n = 0;
    if (spec.debug || spec.method == 'q') { s = "\""; for (u32 r : rs) s += escaped(r); write(s + "\""); return; }
    for (u32 r : rs) { if (spec.prec && n == *spec.prec) break; utf8(r, s); ++n; }
    pad(s, n, Spec::Left);
  }
  void character(u32 r) { std::string s; if (spec.debug || spec.method == 'q') s = "'" + escaped(r) + "'"; else utf8(r, s); write(s); }
  template <typename F> void with(const Spec& s, F f) {
    if (s.pass_through) { f(); return; }
    struct Back { Model& m; Spec old; ~Back() { m.spec = old; } } b{*this, spec};
    spec = s; f();
  }
  struct Block {
    Model& m; const char* close; bool alt; size_t n = 0; bool done = false;
    Block(Model& m, const std::string& title, int kind) : m(m), close(kind == 0 ? "]" : kind == 1 ? ")" : "}"), alt(m.spec.alt) {
      if (!title.empty()) m.write(title + " ");
      m.write(kind == 0 ? "[" : kind == 1 ? "(" : "{");
      m.depth += alt; m.deepest = std::max(m.deepest, m.depth);
    }
    void advise(size_t k) { if (k == 1 && alt) { alt = false; --m.depth; } }
    void sep() { m.write(n ? alt ? ",\n" : ", " : alt ? "\n" : ""); ++n; }
    void finish() { if (done) return; if (alt && n) m.write(",\n"); m.depth -= alt; m.write(close); done = true; }
    ~Block() { finish(); }
  };
};

// Text of a "text" step: what it is, and the pieces it is written in.
struct Piece { int how; Enc e; Units u; };
std::vector<Piece> pieces_of(const Op& op) {
  Rng r((u64)op.arg(2) * 31 + 7); std::vector<u32> rs; std::vector<Piece> out;
  size_t n = r.chance(8) ? r.below(90) : r.below(14);
  for (size_t i = 0; i < n; ++i) rs.push_back(draw(r));
  Rng c((u64)op.arg(3) * 131 + 3);
  int style = (int)c.below(4);  // all in one, rune by rune, in pieces, at each newline
  for (size_t i = 0; i < rs.size() || (i == 0 && rs.empty());) {
    size_t k = style == 0 ? rs.size() : style == 1 ? 1 : style == 2 ? c.below(5) : 0;
    if (style == 3) { bool keep = c.chance(50); while (i + k < rs.size() && rs[i + k] != '\n') ++k; if (keep || !k) ++k; }
    k = std::min(k, rs.size() - i);
    Piece p{(int)c.below(5), (Enc)c.below(6), {}};
    for (size_t j = 0; j < k; ++j) if (!can(p.e, rs[i + j])) p.e = Utf8;
    for (size_t j = 0; j < k; ++j) put(p.e, rs[i + j], p.u);
    if (k != 1 && p.how == 3) p.how = 0;
    if (c.chance(7) && p.how != 3) for (u64 d = 1 + c.below(3); d; --d) { u64 h = c.next(), a = c.next(), b = c.next(); if (damage(p.e, p.u, h, a, b)) p.how = 0; }
    out.push_back(std::move(p)); i += k;
    if (rs.empty() || (!k && out.size() > 40)) break;
  }
  return out;
}
std::vector<u32> runes_of(const Op& op) { Rng r((u64)op.arg(2) * 17 + 11); std::vector<u32> rs(r.below(9)); for (auto& x : rs) x = draw(r); return rs; }
// An integer of one of nine types; the least and greatest are likely.
int int_kind(const Op& op) { return (int)((u64)op.arg(3) % 12); }
i64 int_of(const Op& op) {
  Rng r((u64)op.arg(2) * 13 + 1);
  i64 v = r.chance(60) ? r.range(-20, 200) : r.chance(50) ? (i64)r.next() : r.chance(50) ? INT64_MIN + (i64)r.below(2) : INT64_MAX;
  bool least = r.chance(20);
  switch (int_kind(op)) {
    case 0: return least ? INT8_MIN : (int8_t)v; case 1: return (uint8_t)v; case 2: return least ? INT16_MIN : (int16_t)v; case 3: return (uint16_t)v;
    case 4: return least ? INT32_MIN : (int32_t)v; case 5: return (uint32_t)v; case 7: return least ? CHAR_MIN : (char)v;
    default: return v;
  }
}
template <typename F> void as_int(const Op& op, F f) {
  i64 v = int_of(op);
  switch (int_kind(op)) {
    case 0: return f((signed char)v); case 1: return f((unsigned char)v); case 2: return f((short)v); case 3: return f((unsigned short)v);
    case 4: return f((int)v); case 5: return f((unsigned)v); case 6: return f((unsigned long)v); case 7: return f((char)v); case 8: return f((unsigned long long)v);
    case 9: return f((long long)v); default: return f((long)v);
  }
}
bool int_unsigned(const Op& op) { int k = int_kind(op); return k == 6 || k == 8; }

// A step by the reference.
void exec(Model& m, const Node& n);
void lit(Model& m, const char* s) { m.write(s); }
Spec plain() { return {}; }
void as_value(Model& m, const Spec& s, const Node& n) { m.with(s, [&] { exec(m, n); }); }
// Templates that values are formatted with: both sides of each.
constexpr int Templates = 9;
template <typename Go> void templates(int k, const V& a, const V& b, Go go) {
  switch (k) {
    case 0: go("{}", a, b); break;
    case 1: go("{:?}", a, b); break;
    case 2: go("{:#?}{}", a, b); break;
    case 3: go("x\n{1:#}\n{0:?}y", a, b); break;
    case 4: go("{{{:!}}}\n", a, b); break;
    case 5: go("{:*^9}|{:08}|{1:<5.2}", a, b); break;
    case 6: go("{0:#x?}{0:!}", a, b); break;
    case 7: go("\n\n}}", a, b); break;
    default: go("{:!}, {:!}", a, b); break;
  }
}
void by_template(Model& m, int k, const Node& a, const Node& b) {
  Spec q{.debug = true}, aq{.alt = true, .debug = true}, al{.alt = true}, pass{.debug = true, .pass_through = true};
  Spec c{.alignment = Spec::Center, .fill = '*', .width = 9}, z{.sign_aware_padding = true, .width = 8}, l{.alignment = Spec::Left, .width = 5, .prec = 2u};
  Spec ax{.alt = true, .debug = true, .method = rune('x')};
  switch (k) {
    case 0: as_value(m, plain(), a); break;
    case 1: as_value(m, q, a); break;
    case 2: as_value(m, aq, a); as_value(m, plain(), b); break;
    case 3: lit(m, "x\n"); as_value(m, al, b); lit(m, "\n"); as_value(m, q, a); lit(m, "y"); break;
    case 4: lit(m, "{"); as_value(m, pass, a); lit(m, "}\n"); break;
    case 5: as_value(m, c, a); lit(m, "|"); as_value(m, z, b); lit(m, "|"); as_value(m, l, b); break;
    case 6: as_value(m, ax, a); as_value(m, pass, a); break;
    case 7: lit(m, "\n\n}"); break;
    default: as_value(m, pass, a); lit(m, ", "); as_value(m, pass, b); break;
  }
}
const Node& next_of(const std::vector<Node>& kids, size_t i) { return kids[(i + 1) % kids.size()]; }
void exec(Model& m, const Node& n) {
  const Op& op = *n.op; const std::string& k = op.kind;
  auto list = [&](int kind, const std::string& title, size_t limit, const char* const* names = nullptr) {
    Model::Block b(m, title, kind);
    for (size_t i = 0; i < n.kids.size() && i < limit; ++i) { b.sep(); if (names) m.write(names[i]), m.write(": "); exec(m, n.kids[i]); }
  };
  auto wrapped = [&](const char* before, const Node& x, const char* after) { m.write(before); exec(m, x); m.write(after); };
  if (k == "text") {
    for (auto& p : pieces_of(op)) {
      Units u; for (auto& it : parse(p.e, p.u)) if (!it.ok || !put(Utf8, it.r, u)) put(Utf8, 0xfffd, u);
      std::string s; for (u32 x : u) s.push_back((char)x);
      m.write(s);
    }
  }
  else if (k == "int") m.integer(int_of(op), int_unsigned(op));
  else if (k == "str") m.string(runes_of(op));
  else if (k == "rune") { Rng r((u64)op.arg(2)); m.character(draw(r)); }
  else if (k == "bool") m.write(op.arg(2) & 1 ? "true" : "false");
  else if (k == "enum") m.write(std::string("Colour::") + (op.arg(2) % 3 == 0 ? "Red" : op.arg(2) % 3 == 1 ? "Green" : "Blue"));
  else if (k == "spec") m.write(describe(m.spec));
  else if (k == "vec" || k == "span") list(0, "", 1000);
  else if (k == "row") list(1, "", 3);
  else if (k == "option") { if (n.kids.empty()) m.write("none"); else wrapped("option(", n.kids[0], ")"); }
  else if (k == "result") { if (n.kids.empty()) m.write("err(void)"); else if (op.arg(2) & 1) wrapped("err(", n.kids[0], ")"); else wrapped("ok(", n.kids[0], ")"); }
  else if (k == "choice") { if (n.kids.empty()) m.write("choice<1>(void)"); else wrapped(op.arg(2) & 1 ? "choice<2>(" : "choice<0>(", n.kids[0], ")"); }
  else if (k == "ok") { m.write(op.arg(2) & 1 ? "err" : "ok"); list(1, "", 2); }
  else if (k == "box") { if (!n.kids.empty()) exec(m, n.kids[0]); }
  else if (k == "struct") { if (n.kids.size() >= 2) { static const char* names[] = {"first", "second"}; list(2, "Both", 2, names); } }
  else if (k == "throw") throw Thrown();
  else if (k == "try") { try { for (auto& x : n.kids) exec(m, x); } catch (Thrown&) {} }
  else if (k == "aside") {}
  else if (k == "custom") {
    for (size_t i = 0; i < n.kids.size(); ++i) {
      const Node& x = n.kids[i];
      switch (x.op->arg(0) % 8) {
        case 0: case 1: exec(m, x); break;
        case 2: exec(m, x); break;
        case 3: case 4: as_value(m, spec_of(x.op->arg(1)), x); break;
        default: by_template(m, (int)(x.op->arg(1) % Templates), x, next_of(n.kids, i)); break;
      }
    }
  }
  else if (k == "block") {
    Model::Block b(m, titles[op.arg(2) / 3 % 6], (int)(op.arg(2) % 3));
    if (op.arg(3) & 1) b.advise(n.kids.size());
    if (op.arg(3) & 16) m.write("direct\nly ");
    bool early = (op.arg(3) & 6) == 2;
    for (size_t i = 0; i < n.kids.size(); ++i) {
      const Node& x = n.kids[i]; Spec s = spec_of(x.op->arg(1)), s2 = spec_of(x.op->arg(1) + 1);
      if (early && i == n.kids.size() / 2 && !(op.arg(3) & 1)) b.finish();
      if (b.done) continue;
      b.sep();
      switch (x.op->arg(0) % 6) {
        case 0: exec(m, x); break;
        case 1: as_value(m, s, x); break;
        case 2: m.write("name: "); exec(m, x); break;
        case 3: m.write("n\nm: "); as_value(m, s, x); break;
        case 4: exec(m, x); m.write(": "); exec(m, x); break;
        default: as_value(m, s, x); m.write(": "); as_value(m, s2, x); break;
      }
    }
    if (op.arg(3) & 8) b.finish();
  }
}

// ---------------------------------------------------------------- the library
template <typename E> void write_piece(best::formatter& f, const Piece& p) {
  Received<E> t(p.u);
  switch (p.how) {
    case 1: f.write(t.text()); break;
    case 2: { best::textbuf<E> b(t.text()); f.write(b); break; }
    default: f.write(t.pre()); break;
  }
}
std::string str_of(best::strbuf& b) { return std::string(b.data(), b.size()); }
// The formatting of something else, while something is being formatted.
void aside(const Node& n) {
  for (auto& x : n.kids) {
    Model m; bool threw = false, threw2 = false; int k = (int)(x.op->arg(1) % Templates);
    { Quiet q; try { by_template(m, k, x, x); } catch (Thrown&) { threw = true; } }
    best::strbuf out;
    try { templates(k, V{&x}, V{&x}, [&](best::format_template<V, V> t, auto&... a) { best::format(out, t, a...); }); } catch (Thrown&) { threw2 = true; }
    if (threw != threw2 || str_of(out) != m.out) fail("C21", "aside", "formatting while formatting gave \"%s\" instead of \"%s\"", str_of(out).c_str(), m.out.c_str());
    reach("formats-while-formatting");
  }
}
}  // namespace
}  // namespace sim
namespace fmt_world {
void run_node(best::formatter& f, const Node& n) {
  using namespace sim; using namespace sim::tref;
  const Op& op = *n.op; const std::string& k = op.kind;
  auto v = [&](size_t i) { return V{&n.kids[i]}; };
  if (k == "text") {
    for (auto& p : pieces_of(op)) {
      if (p.how == 3) { f.write(*rune::from_int_allow_surrogates(at(p.e, p.u, 0).r)); continue; }
      if (p.how == 4 && p.u.size() == 1 && p.u[0] == '\n') { f.write("\n"); continue; }
      switch (p.e) {
        case Utf8: write_piece<best::utf8>(f, p); break; case Utf16: write_piece<best::utf16>(f, p); break;
        case Utf32: write_piece<best::utf32>(f, p); break; case Wtf8: write_piece<best::wtf8>(f, p); break;
        case Ascii: write_piece<best::ascii>(f, p); break; default: write_piece<best::latin1>(f, p); break;
      }
    }
  }
  else if (k == "int") as_int(op, [&](auto v) { f.format(v); });
  else if (k == "str") {
    std::vector<u32> rs = runes_of(op); Units u; bool wide = op.arg(3) & 1;
    for (u32 r : rs) put(wide ? Utf16 : Utf8, r, u);
    if (wide) { Received<best::utf16> t(u); f.format(t.text()); } else { Received<best::utf8> t(u); if (op.arg(3) & 2) f.format(t.text()); else f.format(best::strbuf(t.text())); }
  }
  else if (k == "rune") { Rng r((u64)op.arg(2)); f.format(*rune::from_int(draw(r))); }
  else if (k == "bool") f.format((op.arg(2) & 1) != 0);
  else if (k == "enum") f.format((Colour)(op.arg(2) % 3));
  else if (k == "spec") { std::string s = describe(f.current_spec()); f.write(*best::str::from(best::span(s.data(), s.size()))); }
  else if (k == "vec") { best::vec<V> x; for (size_t i = 0; i < n.kids.size(); ++i) x.push(v(i)); f.format(x); }
  else if (k == "span") { std::vector<V> x; for (size_t i = 0; i < n.kids.size(); ++i) x.push_back(v(i)); f.format(best::span(x.data(), x.size())); }
  else if (k == "row") {
    if (n.kids.empty()) f.format(best::row<>()); else if (n.kids.size() == 1) f.format(best::row<V>(v(0)));
    else if (n.kids.size() == 2) f.format(best::row<V, V>(v(0), v(1))); else f.format(best::row<V, V, V>(v(0), v(1), v(2)));
  }
  else if (k == "option") { best::option<V> x; if (!n.kids.empty()) x = v(0); f.format(x); }
  else if (k == "result") { if (n.kids.empty()) f.format(best::result<V, void>(best::err())); else if (op.arg(2) & 1) f.format(best::result<int, V>(best::err(v(0)))); else f.format(best::result<V, int>(best::ok(v(0)))); }
  else if (k == "choice") { if (n.kids.empty()) f.format(best::choice<int, void, V>(best::index<1>)); else if (op.arg(2) & 1) f.format(best::choice<int, void, V>(best::index<2>, v(0))); else f.format(best::choice<V, void, int>(best::index<0>, v(0))); }
  else if (k == "ok") {
    bool e = op.arg(2) & 1;
    if (n.kids.empty()) { if (e) f.format(best::err()); else f.format(best::ok()); }
    else if (n.kids.size() == 1) { if (e) f.format(best::err(v(0))); else f.format(best::ok(v(0))); }
    else { if (e) f.format(best::err(v(0), v(1))); else f.format(best::ok(v(0), v(1))); }
  }
  else if (k == "box") { if (!n.kids.empty()) f.format(best::box<V>(v(0))); }
  else if (k == "struct") { if (n.kids.size() >= 2) f.format(Both{v(0), v(1)}); }
  else if (k == "throw") { fault("exception-while-formatting"); throw Thrown(); }
  else if (k == "try") { try { for (auto& x : n.kids) run_node(f, x); } catch (Thrown&) { reach("recovered"); } }
  else if (k == "aside") aside(n);
  else if (k == "custom") {
    for (size_t i = 0; i < n.kids.size(); ++i) {
      const Node& x = n.kids[i];
      switch (x.op->arg(0) % 8) {
        case 0: case 1: run_node(f, x); break;
        case 2: f.format(V{&x}); break;
        case 3: case 4: f.format(spec_of(x.op->arg(1)), V{&x}); break;
        default: templates((int)(x.op->arg(1) % Templates), V{&x}, V{&next_of(n.kids, i)}, [&](best::format_template<V, V> t, auto&... a) { f.format(t, a...); }); break;
      }
    }
  }
  else if (k == "block") {
    best::str title = *best::str::from(best::span(titles[op.arg(2) / 3 % 6], strlen(titles[op.arg(2) / 3 % 6])));
    int kind = (int)(op.arg(2) % 3);
    auto fill = [&](best::formatter::block b) {
      if (op.arg(3) & 1) b.advise_size(n.kids.size());
      if (op.arg(3) & 16) f.write("direct\nly ");
      bool early = (op.arg(3) & 6) == 2;
      for (size_t i = 0; i < n.kids.size(); ++i) {
        const Node& x = n.kids[i]; Spec s = spec_of(x.op->arg(1)), s2 = spec_of(x.op->arg(1) + 1);
        if (early && i == n.kids.size() / 2 && !(op.arg(3) & 1)) { b.finish(); reach("finished-early"); }
        switch (x.op->arg(0) % 6) {
          case 0: b.entry(V{&x}); break;
          case 1: b.entry(s, V{&x}); break;
          case 2: b.field("name", V{&x}); break;
          case 3: b.field("n\nm", s, V{&x}); break;
          case 4: b.pair(V{&x}, V{&x}); break;
          default: b.pair(s, V{&x}, s2, V{&x}); break;
        }
      }
      if (op.arg(3) & 8) b.finish();
    };
    if (kind == 0) fill(f.list(title)); else if (kind == 1) fill(f.tuple(title)); else fill(f.record(title));
  }
}
}  // namespace fmt_world
namespace sim {
namespace {
bool opens(const std::string& k) {
  static const char* o[] = {"vec", "span", "row", "option", "result", "choice", "ok", "box", "struct", "try", "aside", "custom", "block"};
  for (auto x : o) if (k == x) return true;
  return false;
}
Node parse_node(const Plan& p, size_t& at, int depth, int& total) {
  Node n{&p.ops[at++], {}}; ++total;
  if (!opens(n.op->kind)) return n;
  while (at < p.ops.size() && p.ops[at].kind != "end") {
    if (p.ops[at].kind == "doc") return n;
    if (depth > 20) { ++at; continue; }
    n.kids.push_back(parse_node(p, at, depth + 1, total));
  }
  if (at < p.ops.size() && p.ops[at].kind == "end") ++at;
  return n;
}
size_t cost(const Node& n) { size_t c = 1; for (auto& x : n.kids) c += cost(x) * (x.op->arg(0) % 6 >= 4 || x.op->arg(0) % 8 >= 5 ? 3 : 1); return c; }

struct Doc { const Op* op; std::vector<Node> nodes; std::vector<Model> want; std::vector<bool> threw; std::string got, printed; };

void gen(Rng& r, Plan& p) {
  int threads = p.get("allow_threads") && r.chance(40) ? 2 + (int)r.below(2) : 1;
  p.cfg["threads"] = threads;
  for (int d = 0, docs = threads > 1 ? threads : 1 + (int)r.below(2); d < docs; ++d) {
    p.add("doc", {(i64)r.below(4), (i64)r.below(40), (i64)r.below(1000)});
    int open = 0, n = 2 + (int)r.below(threads > 1 ? 8 : 24);
    if (r.chance(12)) {  // blocks in blocks in blocks...
      i64 alt = (i64)r.below(1000); while (spec_of(alt).pass_through || !spec_of(alt).alt) ++alt;
      int levels = 7 + (int)r.below(10);
      auto leaf = [&] { p.add("text", {(i64)r.below(4), (i64)r.below(1000), (i64)r.below(100000), (i64)r.below(64)}); };
      for (int i = 0; i < levels; ++i) {
        p.add("block", {i == 0 || r.chance(60) ? (i64)(1 + 2 * r.below(2)) : 0, alt, (i64)r.below(100000), r.chance(80) ? 0 : 8});
        if (r.chance(20)) leaf();
      }
      leaf();
      for (int i = 0; i < levels; ++i) { p.add("end", {}); if (i + 1 < levels && r.chance(20)) leaf(); }
      n = (int)r.below(4);
    }
    for (int i = 0; i < n; ++i) {
      i64 how = (i64)r.below(8), spec = r.chance(40) ? (i64)r.below(Templates) : (i64)r.below(100000), a = (i64)r.below(100000), b = (i64)r.below(64);
      static const char* in[] = {"block", "block", "block", "custom", "custom", "vec", "span", "row", "option", "result", "choice", "ok", "box", "struct", "try", "aside"};
      static const char* leaf[] = {"text", "text", "text", "text", "text", "int", "str", "str", "rune", "bool", "enum", "spec", "spec", "throw"};
      if (open && r.chance(22)) { p.add("end", {}); --open; }
      else if (r.chance(open == 0 ? 90 : 40) && open < 6) { p.add(in[r.below(16)], {how, spec, a, b}); ++open; }
      else { const char* k = leaf[r.below(14)]; if (k[0] == 't' && k[1] == 'h' && r.chance(40)) k = "text"; p.add(k, {how, spec, a, b}); }
    }
    while (open--) p.add("end", {});
  }
}
void run(const Plan& p) {
  death_means("C21,C02,C03,C12");
  std::vector<Doc> docs;
  for (size_t at = 0; at < p.ops.size();) {
    if (docs.empty() || p.ops[at].kind == "doc") { docs.push_back({&p.ops[at], {}, {}, {}, "", ""}); if (p.ops[at].kind == "doc") { ++at; continue; } }
    if (p.ops[at].kind == "end") { ++at; continue; }
    int total = 0; Node n = parse_node(p, at, 0, total);
    if (cost(n) > 400 || docs.back().nodes.size() > 8) continue;
    docs.back().nodes.push_back(std::move(n));
    if (total > 2) nontrivial();
  }
  for (auto& d : docs) for (size_t i = 0; i < d.nodes.size(); ++i) {
    Model m; bool threw = false;
    try { by_template(m, (int)((d.op->arg(2) + (i64)i) % Templates), d.nodes[i], next_of(d.nodes, i)); } catch (Thrown&) { threw = true; }
    note_bytes("doc", m.out.data(), m.out.size());
    size_t lines = (size_t)std::count(m.out.begin(), m.out.end(), '\n');
    state(mix2(mix2(std::min<size_t>(lines, 9), threw), std::hash<std::string>()(d.nodes[i].op->kind) ^ d.nodes[i].kids.size() * 77));
    if (lines > 3 && m.out.find("\n    ") != std::string::npos) reach("nested-blocks");
    if (m.deepest > 9) reach("deeply-nested");
    d.want.push_back(std::move(m)); d.threw.push_back(threw);
  }
  auto body = [&](Doc& d) {
    best::strbuf out; std::string all;
    { Quiet q; Rng r((u64)d.op->arg(2)); for (i64 i = d.op->arg(1); i > 0; --i) utf8(draw(r), all); if (d.op->arg(0) & 1) out.reserve((size_t)d.op->arg(1) * 7); }
    out.push(*best::str::from(best::span(all.data(), all.size())));
    for (size_t i = 0; i < d.nodes.size(); ++i) {
      set_op(d.nodes[i].op);
      bool threw = false; V a{&d.nodes[i]}, b{&next_of(d.nodes, i)}; int k = (int)((d.op->arg(2) + (i64)i) % Templates);
      try { templates(k, a, b, [&](best::format_template<V, V> t, auto&... x) { best::format(out, t, x...); }); } catch (Thrown&) { threw = true; }
      Quiet q;
      std::string want = all + d.want[i].out, got = str_of(out);
      if (threw != d.threw[i]) fail("C21", "threw", "formatting %s", threw ? "threw" : "did not throw");
      if (got.compare(0, all.size(), all) != 0) fail("C21", "altered", "text already in the output was altered");
      if (got != want) {
        size_t x = 0; while (x < got.size() && x < want.size() && got[x] == want[x]) ++x;
        fail("C21", "output", "formatting gave \"%s\" instead of \"%s\" (they differ at %zu)", got.substr(all.size()).c_str(), d.want[i].out.c_str(), x - all.size());
      }
      all = got;
    }
  };
  size_t before = heap::live();
  if (p.get("threads") <= 1) for (auto& d : docs) body(d);
  else {
    std::vector<std::function<void()>> bodies;
    for (auto& d : docs) bodies.push_back([&] { body(d); });
    if (!sched::run(bodies, p.sw)) fail("C21", "stuck", "formatting never ended");
    if (sched::switches) reach("interleaved-threads");
  }
  set_op(nullptr);
  if (heap::live() != before) fail("C21,C02", "left-over", "formatting left %zu blocks behind", heap::live() - before);
  if (!out.data.empty() || !err.data.empty()) fail("C21", "printed", "formatting into a string printed something");
}
#ifdef FMT_THREADS
void gen_threads(Rng& r, Plan& p) { p.cfg["allow_threads"] = 1; gen(r, p); }
RegisterWorld w1({"fmtthreads", gen_threads, run, 6});
#else
RegisterWorld w1({"fmt", gen, run, 0});
#endif
}  // namespace
}  // namespace sim

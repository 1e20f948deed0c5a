// World: histories of text buffers in six encodings, fed with well-formed,
// damaged, unrepresentable and own text (C08; also C02, C03, C11).
#include <memory>
#include "elems.h"
#include "textref.h"
#include "best/text/format.h"

#ifndef STR_KIND
#define STR_KIND 0
#endif
namespace sim {
namespace {
using namespace tref;
// X, Y: where foreign text comes from; Y has the same type of code unit where possible.
#if STR_KIND == 0
using E = best::utf8; using X = best::utf16; using Y = best::latin1;
#elif STR_KIND == 1
using E = best::utf16; using X = best::utf8; using Y = best::utf32;
#elif STR_KIND == 2
using E = best::utf32; using X = best::wtf8; using Y = best::utf16;
#elif STR_KIND == 3
using E = best::wtf8; using X = best::utf16; using Y = best::utf8;
#elif STR_KIND == 4
using E = best::ascii; using X = best::utf16; using Y = best::utf8;
#else
using E = best::latin1; using X = best::utf32; using Y = best::wtf8;
#endif
constexpr Enc Me = Id<E>::id;
using C = E::code;
using Buf = best::textbuf<E, SimAlloc>;
using Raw = Buf::buf;
constexpr int N = 4;

struct World1 {
  std::unique_ptr<Buf> b[N];
  Units ref[N];
  std::string here(int i) { return fmt("buffer %d, %s [%s]", i, name(Me), dump(ref[i]).c_str()); }

  static bool transcode(const std::vector<Item>& items, Units& out) {
    for (auto& x : items) if (!put(Me, x.ok ? x.r : 0xfffd, out)) return false;
    return true;
  }
  static void put_lossy(u32 r, Units& out) { if (!put(Me, r, out) && !put(Me, 0xfffd, out)) put(Me, '?', out); }
  static void lossy(const std::vector<Item>& items, Units& out) { for (auto& x : items) put_lossy(x.ok ? x.r : 0xfffd, out); }

  void check(int i, const char* op) {
    auto& x = *b[i];
    if (x.size() != ref[i].size() || x.is_empty() != ref[i].empty()) { fail("C08", "contents", "after %s: %s has %zu code units", op, here(i).c_str(), x.size()); return; }
    if (units(std::as_const(x).data(), x.size()) != ref[i]) { fail("C08", "contents", "after %s: %s contains [%s]", op, here(i).c_str(), dump(units(x.data(), x.size())).c_str()); return; }
    if (x.capacity() < x.size()) fail("C08,C04", "capacity", "after %s: %s has a capacity of %zu", op, here(i).c_str(), x.capacity());
    if (!best::rune::validate<E>(best::span<const C>(x.data(), x.size()))) fail("C08", "ill-formed", "after %s: %s is not well-formed", op, here(i).c_str());
  }
  void check_all(const char* op) { for (int i = 0; i < N; ++i) check(i, op); }

  // A text drawn for an encoding, perhaps damaged on its way.
  template <typename F> Units draw(Rng& r, bool damaged) {
    Units u;
    int n = (int)r.below(r.chance(15) ? 50 : r.chance(50) ? 12 : 4);
    bool easy = r.chance(50);
    for (int k = 0; k < n; ++k) {
      u32 x = draw_rune(r, Id<F>::id);
      if (easy) for (int t = 0; t < 20 && !can(Me, x); ++t) x = draw_rune(r, Id<F>::id);
      if (easy && !can(Me, x)) x = 'a';
      put(Id<F>::id, x, u);
    }
    // An unrepresentable rune late in an otherwise good text.
    if (easy && r.chance(40)) put(Id<F>::id, draw_rune(r, Id<F>::id), u);
    if (damaged) for (u64 k = 1 + r.below(2); k--;) if (const char* d = damage(Id<F>::id, u, r.next(), r.next(), r.next())) fault(d);
    return u;
  }
  template <typename F> void push(int i, Rng& r, bool is_lossy) {
    bool damaged = r.chance(40);
    Units u = draw<F>(r, damaged);
    auto items = parse(Id<F>::id, u);
    Units after = ref[i];
    bool ok = true;
    if (is_lossy) lossy(items, after); else ok = transcode(items, after);
    if (!ok) after = ref[i];
    int how = (int)r.below(3);
    if (!valid(items)) how = 0;
    bool got = true;
    Received<F> t(u);
    if (how == 0) { if (is_lossy) b[i]->push_lossy(t.pre()); else got = b[i]->push(t.pre()); }
    else if (how == 1) { if (is_lossy) b[i]->push_lossy(t.text()); else got = b[i]->push(t.text()); }
    else { best::textbuf<F> s(t.text()); if (is_lossy) b[i]->push_lossy(s); else got = b[i]->push(s); }
    if (got != ok) fail("C08", "verdict", "pushing %s [%s] to %s is %s", name(Id<F>::id), dump(u).c_str(), here(i).c_str(), ok ? "refused" : "said to succeed");
    if (!ok) reach(after.empty() ? "refused-append" : "refused-append-to-content"); else if (is_lossy) reach("lossy-append");
    if (ok && !valid(items)) reach("replaced-ill-formed");
    ref[i] = std::move(after);
  }
  // A rune boundary, most of the time.
  size_t cut(int i, Rng& r) {
    auto items = parse(Me, ref[i]);
    if (items.empty() || r.chance(15)) return ref[i].size() + r.below(3);
    if (r.chance(25)) return r.below(ref[i].size() + 1);
    auto& x = items[r.below(items.size())];
    return x.pos;
  }
  void step(const Op& op, Rng r) {
    int i = (int)(op.arg(0) & 3), j = (int)(op.arg(1) & 3);
    auto& x = *b[i];
    const auto& k = op.kind;
    if (k == "push") { switch (r.below(4)) { case 0: push<X>(i, r, false); break; case 1: push<Y>(i, r, false); break; default: push<E>(i, r, false); } }
    else if (k == "lossy") { switch (r.below(3)) { case 0: push<X>(i, r, true); break; case 1: push<Y>(i, r, true); break; default: push<E>(i, r, true); } }
    else if (k == "rune") {
      u32 v = draw_rune(r, r.chance(60) ? Me : Wtf8);
      auto rn = *best::rune::from_int_allow_surrogates(v);
      if (r.chance(30)) { x.push_lossy(rn); put_lossy(v, ref[i]); }
      else {
        bool ok = can(Me, v);
        if (x.push(rn) != ok) fail("C08", "verdict", "pushing U+%04X to %s is %s", v, here(i).c_str(), ok ? "refused" : "said to succeed");
        if (ok) put(Me, v, ref[i]); else reach("refused-append");
      }
    } else if (k == "self") {
      // Its own text, whole or in part.
      Units add = ref[i]; bool ok = true;
      switch (r.below(3)) {
        case 0: ok = x.push(x); break;
        case 1: ok = x.push(x.as_text()); break;
        default: {
          auto items = parse(Me, ref[i]);
          if (items.empty()) return;
          size_t p = r.below(items.size()), q = p + r.below(items.size() - p + 1);
          size_t s = items[p].pos, e = q < items.size() ? items[q].pos : ref[i].size();
          add = Units(ref[i].begin() + s, ref[i].begin() + e);
          ok = x.push(x[{.start = s, .end = e}]);
        }
      }
      if (!ok) fail("C08", "verdict", "pushing its own text to %s is refused", here(i).c_str());
      ref[i].insert(ref[i].end(), add.begin(), add.end());
      reach("pushed-to-itself");
    } else if (k == "truncate") {
      size_t n = cut(i, r), cap = x.capacity();
      bool exists = n > ref[i].size() || boundary(parse(Me, ref[i]), ref[i].size(), n);
      int st = run_process([&] { x.truncate(n); });
      if (st != (exists ? -1 : 128)) fail("C08,C11", exists ? "refused" : "allowed", "truncating %s to %zu is %s", here(i).c_str(), n, exists ? "refused" : "not refused");
      if (exists && n < ref[i].size()) ref[i].resize(n);
      if (!exists) reach("refused-truncation");
      if (x.capacity() != cap) fail("C08,C04", "capacity", "truncating changes the capacity from %zu to %zu", cap, x.capacity());
    } else if (k == "clear") { size_t cap = x.capacity(); x.clear(); ref[i].clear(); if (x.capacity() != cap) fail("C08,C04", "capacity", "clearing changes the capacity from %zu to %zu", cap, x.capacity()); }
    else if (k == "reserve") {
      size_t n = r.below(r.chance(70) ? 60 : 400);
      x.reserve(n);
      if (x.capacity() < x.size() + n) fail("C08,C04", "capacity", "after reserving %zu more than %zu, the capacity is %zu", n, x.size(), x.capacity());
      // What was reserved is there: pushes of whole texts do not move it.
      if (n && r.chance(50)) {
        auto* at = x.data();
        Units u; while (u.size() + 4 < n && u.size() < 40) put(Me, draw_rune(r, Me), u);
        Received<E> t(u);
        x.push(t.text()); ref[i].insert(ref[i].end(), u.begin(), u.end());
        if (x.data() != at) fail("C08,C04", "moved", "pushing %zu code units after reserving %zu moves %s", u.size(), n, here(i).c_str());
      }
    } else if (k == "copy") { b[i].reset(new Buf(*b[j])); ref[i] = Units(ref[j]); }
    else if (k == "assign") { *b[i] = std::as_const(*b[j]); ref[i] = Units(ref[j]); if (i == j) reach("self-assigned"); }
    else if (k == "move") { auto y = std::make_unique<Buf>(BEST_MOVE(*b[j])); Units u = ref[j]; ref[j].clear(); ref[i] = u; check_moved(j); b[i] = std::move(y); if (i == j) ref[i] = u; }
    else if (k == "move-assign") { if (i == j) return; *b[i] = BEST_MOVE(*b[j]); ref[i] = ref[j]; ref[j].clear(); check_moved(j); }
    else if (k == "raw") {
      // Out as code units, perhaps damaged there, and back in.
      Raw raw = BEST_MOVE(*b[i]).into_buf();
      ref[i].clear();
      check_moved(i);
      Units u = units(raw.data().raw(), raw.size());
      if (u.size() && r.chance(60)) { size_t p = r.below(u.size()); u32 bit = 1u << r.below(8); u[p] ^= bit; raw[p] = (C)u[p]; fault("bit-flipped"); }
      bool ok = valid(parse(Me, u));
      auto back = Buf::from(BEST_MOVE(raw));
      if (back.has_value() != ok) fail("C08,C09", "verdict", "making a buffer from %s [%s] is %s", name(Me), dump(u).c_str(), ok ? "refused" : "said to succeed");
      if (back) { *b[i] = BEST_MOVE(*back); ref[i] = u; }
      reach(ok ? "raw-accepted" : "raw-refused");
    } else if (k == "from") {
      Units u = draw<E>(r, r.chance(50));
      bool ok = valid(parse(Me, u));
      bool zero = false; for (u32 v : u) zero |= v == 0;
      int id = (int)r.below(3);
      bool nul = !zero && r.chance(50);
      Received<E> t(u, nul);
      bool given = r.chance(50);
      auto got = nul ? !given ? Buf::from_nul(t.p) : Buf::from_nul(SimAlloc{id}, t.p) : !given ? Buf::from(t.pre()) : Buf::from(SimAlloc{id}, t.pre());
      if (got) owner_is(*got, given ? id : 0, "from()");
      if (got.has_value() != ok) fail("C08,C09", "verdict", "making a buffer from %s [%s] is %s", name(Me), dump(u).c_str(), ok ? "refused" : "said to succeed");
      if (got) { if (r.chance(50)) *b[i] = BEST_MOVE(*got); else b[i].reset(new Buf(BEST_MOVE(*got))); ref[i] = u; }
      else reach("rejected-source");
    } else if (k == "transcode") {
      Units u = draw<X>(r, r.chance(40)), w;
      bool ok = transcode(parse(Id<X>::id, u), w);
      Received<X> t(u);
      int id = (int)r.below(3);
      auto got = Buf::transcode(SimAlloc{id}, t.pre());
      if (got) owner_is(*got, id, "transcode()");
      if (got.has_value() != ok) fail("C08", "verdict", "transcoding %s [%s] is %s", name(Id<X>::id), dump(u).c_str(), ok ? "refused" : "said to succeed");
      if (got) { *b[i] = BEST_MOVE(*got); ref[i] = w; } else reach("rejected-source");
    } else if (k == "read") {
      auto items = parse(Me, ref[i]);
      size_t n = 0;
      for (auto q : x.runes()) { if (n >= items.size() || q.to_int() != items[n].r) { fail("C08,C09", "runes", "rune %zu of %s is U+%04X", n, here(i).c_str(), q.to_int()); return; } ++n; }
      if (n != items.size()) fail("C08,C09", "runes", "%s has %zu runes", here(i).c_str(), n);
      size_t s = r.below(ref[i].size() + 2), e = s + r.below(4);
      bool exists = e <= ref[i].size() && s <= e && boundary(items, ref[i].size(), s) && boundary(items, ref[i].size(), e);
      auto part = x.at({.start = s, .end = e});
      if (part.has_value() != exists || (part && (part->data() != x.data() + s || part->size() != e - s))) fail("C08,C11", "slice", "%s: at(%zu..%zu) %s", here(i).c_str(), s, e, exists ? "is refused or elsewhere" : "is allowed");
      size_t len = (size_t)-1;
      int st = run_process([&] { len = x[{.start = s, .end = e}].size(); });
      if (exists ? st != -1 || len != e - s : st != 128) fail("C08,C11", "slice", "%s: [%zu..%zu] %s", here(i).c_str(), s, e, exists ? "is refused" : "is allowed");
      if (!exists) reach("refused-access");
    } else if (k == "compare") {
      bool eq = ref[i] == ref[j];
      if ((*b[i] == *b[j]) != eq || (*b[i] == b[j]->as_text()) != eq) fail("C08", "compare", "%s and [%s] are %s", here(i).c_str(), dump(ref[j]).c_str(), eq ? "equal but compared unequal" : "unequal but compared equal");
      std::vector<u32> p, q; for (auto& v : parse(Me, ref[i])) p.push_back(v.r); for (auto& v : parse(Me, ref[j])) q.push_back(v.r);
      auto c = *b[i] <=> *b[j]; auto w = std::lexicographical_compare_three_way(p.begin(), p.end(), q.begin(), q.end());
      if (Me != Utf16 && ((c < 0) != (w < 0) || (c == 0) != (w == 0))) fail("C08", "compare", "%s and [%s] are ordered wrongly", here(i).c_str(), dump(ref[j]).c_str());
    } else if (k == "format") {
      auto s = best::format("{}", x);
      Units w; for (auto& v : parse(Me, ref[i])) if (!put(Utf8, v.r, w)) put(Utf8, 0xfffd, w);
      if (units(s.data(), s.size()) != w) fail("C08,C21", "format", "%s is formatted as [%s]", here(i).c_str(), dump(units(s.data(), s.size())).c_str());
    }
  }
  static void owner_is(Buf& x, int id, const char* what) {
    if (x.allocator().id != id || std::as_const(x).allocator().id != id) fail("C08,C03", "allocator", "%s with allocator %d makes a buffer that uses allocator %d", what, id, x.allocator().id);
  }
  void check_moved(int j) { if (b[j]->size() != 0 || !b[j]->is_empty()) fail("C08", "moved-from", "a buffer that was moved from still has %zu code units", b[j]->size()); }
};
void gen(Rng& r, Plan& p) {
  static const char* ops[] = {"push", "push", "push", "push", "push", "push", "lossy", "lossy", "rune", "rune", "rune", "self", "self", "truncate", "truncate", "clear", "reserve", "reserve", "copy", "assign", "move", "move-assign", "raw", "from", "transcode", "read", "read", "compare", "format"};
  int n = 3 + (int)r.below(r.chance(15) ? 60 : 22);
  int live = 1 + (int)r.below(N);
  for (int k = 0; k < n; ++k) p.add(ops[r.below(std::size(ops))], {(i64)r.below(live), (i64)r.below(live), (i64)r.below(1ull << 40)});
}
void run(const Plan& p) {
  death_means("C08,C02,C03,C11");
  reg.clear();
  {
    World1 w;
    for (int i = 0; i < N; ++i) w.b[i].reset(new Buf(SimAlloc{i % 3}));
    int done = 0;
    for (auto& op : p.ops) {
      set_op(&op);
      w.step(op, Rng((u64)op.arg(2)));
      w.check_all(op.kind.c_str());
      if (++done == 3) nontrivial();
      int i = (int)(op.arg(0) & 3);
      state(mix2((w.ref[i].size() > 40 ? 40 : w.ref[i].size()) * 2 + (w.b[i]->capacity() > 32), mix(op.kind.size() * 131 + op.kind[0])));
      note("%s %d %zu %zu", op.kind.c_str(), i, w.ref[i].size(), w.b[i]->capacity());
    }
    set_op(nullptr);
  }
  check_nothing_left("text buffers");
}
#define NAME2(k) "strbuf" #k
#define NAME1(k) NAME2(k)
RegisterWorld w1({NAME1(STR_KIND), gen, run, 0});
}  // namespace
}  // namespace sim

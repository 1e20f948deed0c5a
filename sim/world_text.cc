// World: text that was cut, altered or delivered in pieces, validated, decoded,
// iterated, searched and split (C09; also C11 and C16 for its iterators).
#include <deque>
#include "textref.h"
#include "best/text/format.h"

#ifndef TEXT_KIND
#define TEXT_KIND 0
#endif
namespace sim {
namespace {
using namespace tref;
// X: another encoding; Y: one with the same type of code unit, if there is one.
#if TEXT_KIND == 0
using E = best::utf8; using X = best::utf16; using Y = best::latin1;
#elif TEXT_KIND == 1
using E = best::utf16; using X = best::utf8; using Y = best::utf32;
#elif TEXT_KIND == 2
using E = best::utf32; using X = best::utf8; using Y = best::wtf8;
#elif TEXT_KIND == 3
using E = best::wtf8; using X = best::utf16; using Y = best::latin1;
#elif TEXT_KIND == 4
using E = best::ascii; using X = best::utf16; using Y = best::utf8;
#else
using E = best::latin1; using X = best::utf16; using Y = best::utf8;
#endif
constexpr Enc Me = Id<E>::id, OtherX = Id<X>::id, OtherY = Id<Y>::id;
using C = E::code;
constexpr auto None = (size_t)-1;

struct World1 {
  Units u;
  std::vector<Item> items;
  Enc Other = OtherX;  // the other encoding of the current step
  void parse_now() { items = parse(Me, u); }
  std::string here() { return fmt("%s [%s]", name(Me), dump(u).c_str()); }

  static u32 rune_of(const Item& x) { return x.ok ? x.r : 0xfffd; }
  void hint(best::size_hint h, size_t left, const char* what) {
    if (h.lower > left || (h.upper && *h.upper < left)) fail("C16,C09", "size-hint", "%s over %s: %zu items are left but the bounds are %zu..%zu", what, here().c_str(), left, h.lower, h.upper.value_or(None));
  }
  // Consumes `it` from both ends as `dir` says, comparing with `want`.
  template <typename It, typename Conv> void consume(It it, std::vector<Item> v, u64 dir, const char* what, Conv same) {
    std::deque<Item> want(v.begin(), v.end());
    size_t steps = 0, limit = v.size() + 6;
    bool front = true;
    while (steps++ < limit) {
      hint(it.size_hint(), want.size(), what);
      bool f = dir == 0 ? true : dir == 1 ? false : (mix2(dir, steps) & 1);
      auto got = f ? it.next() : it.next_back();
      if (want.empty()) { if (got.has_value()) { fail("C09,C16", "extra-item", "%s over %s yields more than there is", what, here().c_str()); return; } continue; }
      if (!got) { fail("C09,C16", "missing-item", "%s over %s ends %zu items early", what, here().c_str(), want.size()); return; }
      Item x = f ? want.front() : want.back();
      if (!same(*got, x)) { fail("C09,C16", "wrong-item", "%s over %s yields something else than %x at %zu (%s)", what, here().c_str(), (unsigned)x.r, x.pos, x.ok ? "well-formed" : "ill-formed"); return; }
      if (f) want.pop_front(); else want.pop_back();
    }
    front = !front;
  }
  void iterate(u64 seed) {
    Received<E> t(u);
    auto pre = t.pre();
    bool ok = valid(items);
    u64 dir = seed % 4 == 0 ? 0 : seed % 4 == 1 ? 1 : seed | 4;
    auto try_same = [&](auto&& got, const Item& x) { return x.ok ? got.ok() && got.ok()->to_int() == x.r : got.is_err(); };
    auto rune_same = [&](auto&& got, const Item& x) { return got.to_int() == rune_of(x); };
    auto index_same = [&](auto&& got, const Item& x) { return got.first() == x.pos && got.second().to_int() == rune_of(x); };
    switch (seed / 4 % 4) {
      case 0: consume(pre.try_runes(), items, dir, "try_runes()", try_same); break;
      case 1: consume(pre.runes(), items, dir, "runes()", rune_same); break;
      case 2: consume(pre.rune_indices(), items, dir, "rune_indices()", index_same); break;
      default: if (!ok) { consume(pre.runes(), items, dir, "runes()", rune_same); break; }
        if (seed / 16 % 2) consume(t.text().runes(), items, dir, "text runes()", rune_same); else consume(t.text().rune_indices(), items, dir, "text rune_indices()", index_same);
    }
    if (pre.runes().count() != items.size() || pre.rune_indices().count() != items.size()) fail("C09,C16", "count", "counting the runes of %s gives %zu", here().c_str(), pre.runes().count());
    auto it = pre.try_runes(); size_t k = 0;
    while (it.next()) {
      if (k >= items.size()) break;
      size_t at = items[k].pos + items[k].len;
      if (it->rest().size() != u.size() - at || it->rest().data() != t.p + at) { fail("C09", "rest", "after %zu runes of %s, rest() is something else", k + 1, here().c_str()); return; }
      ++k;
    }
    // Leaving early.
    if (seed & 64) { size_t n = 0; for (auto r : pre.runes()) { (void)r; if (++n == 1 + seed / 128 % 3) break; } }
  }
  void validate(u64 seed) {
    Received<E> t(u);
    bool want = valid(items);
    if (best::rune::validate<E>(t.span()) != want) { fail("C09", "validate", "%s is %s", here().c_str(), want ? "well-formed but rejected" : "ill-formed but accepted"); return; }
    auto a = best::text<E>::from(t.pre());
    if (a.has_value() != want || (a && (a->data() != t.p || a->size() != u.size()))) fail("C09", "validate", "text::from() %s %s", want ? "rejects" : "accepts", here().c_str());
    auto [head, tail] = best::text<E>::from_partial(t.pre());
    size_t good = 0; for (auto& x : items) { if (!x.ok) break; good = x.pos + x.len; }
    if (head.size() != good || tail.size() != u.size() - good || tail.data() != t.p + good) fail("C09", "partial", "from_partial() of %s takes %zu units, expected %zu", here().c_str(), head.size(), good);
    bool zero = false; for (u32 x : u) zero |= x == 0;
    if (!zero) {
      Received<E> z(u, true);
      auto b = best::text<E>::from_nul(z.p);
      if (b.has_value() != want || (b && b->size() != u.size())) fail("C09", "validate", "text::from_nul() disagrees on %s", here().c_str());
      if (best::pretext<E>::from_nul(z.p).size() != u.size()) fail("C09", "from-nul", "pretext::from_nul() of %s has %zu units", here().c_str(), best::pretext<E>::from_nul(z.p).size());
    }
    for (size_t i = 0; i <= u.size() + 2; ++i) {
      bool b = best::rune::is_boundary<E>(t.span(), i);
      if (want && b != boundary(items, u.size(), i)) { fail("C09", "boundary", "%zu is %sa boundary of %s", i, b ? "said to be " : "not said to be ", here().c_str()); return; }
    }
  }
  // A reader that is handed the text in pieces, keeps what it could not use
  // yet, and asks for more exactly when the decoder says there is too little.
  void stream(u64 seed) {
    Rng r(seed);
    bool back = seed & 1;
    std::vector<Item> got;
    Units held; size_t from = back ? u.size() : 0, base = from;
    size_t guard = 0;
    while (guard++ < 4 * u.size() + 8) {
      size_t left = back ? from : u.size() - from;
      size_t take = left ? 1 + r.below(r.chance(50) ? 2 : left) : 0;
      if (take > left) take = left;
      if (back) { held.insert(held.begin(), u.begin() + (from - take), u.begin() + from); from -= take; }
      else { held.insert(held.end(), u.begin() + from, u.begin() + from + take); from += take; }
      if (take) fault("short-delivery");
      bool eof = back ? from == 0 : from == u.size();
      while (!held.empty()) {
        Received<E> t(held);
        auto sp = t.span();
        auto x = back ? best::rune::undecode<E>(&sp) : best::rune::decode<E>(&sp);
        if (x.is_err()) {
          if (sp.size() != held.size() || sp.data().raw() != t.p) { fail("C09", "advanced", "a failed %s of %s moved the input", back ? "undecode" : "decode", here().c_str()); return; }
          if (*x.err() == best::encoding_error::OutOfBounds && !eof) { if (held.size() > 4) { fail("C09", "insatiable", "the decoder of %s wants more than %zu units for one rune", name(Me), held.size()); return; } break; }
          got.push_back({back ? base - 1 : base, 1, false, 0});
          if (back) { held.pop_back(); base -= 1; } else { held.erase(held.begin()); base += 1; }
          continue;
        }
        size_t used = held.size() - sp.size();
        if (sp.size() >= held.size() || used > E::About.max_codes_per_rune || (sp.size() && sp.data().raw() != t.p + (back ? 0 : used))) { fail("C09", "advanced", "a %s of %s moved the input wrongly", back ? "undecode" : "decode", here().c_str()); return; }
        if (back) base -= used;
        got.push_back({base, used, true, x.ok()->to_int()});
        if (back) held.resize(held.size() - used); else { base += used; held.erase(held.begin(), held.begin() + used); }
      }
      if (eof) break;
    }
    if (back) std::reverse(got.begin(), got.end());
    if (got != items) {
      size_t k = 0; while (k < got.size() && k < items.size() && got[k] == items[k]) ++k;
      fail("C09", "delivery", "%s read %s in pieces gives %zu items, whole %zu; first difference at item %zu", here().c_str(), back ? "backwards" : "forwards", got.size(), items.size(), k);
    }
    // At the very end, a cut-off rune is reported as such, not as ill-formed.
    if (!items.empty() && items.back().cut) {
      // The start of the cut-off rune: an ill-formed item from which all is cut.
      for (auto& x : items) if (x.cut) {
        Units tail(u.begin() + x.pos, u.end()); Received<E> t(tail);
        auto e = best::rune::decode<E>(t.span());
        if (!e.is_err() || *e.err() != best::encoding_error::OutOfBounds) { fail("C09", "cut-off", "the cut-off rune at the end of %s is not reported as cut off", here().c_str()); return; }
        reach("cut-off-rune");
        break;
      }
    }
  }
  // ---------------------------------------------------------------- search
  static std::pair<size_t, size_t> find_units(const Units& h, const Units& n, bool last) {
    std::pair<size_t, size_t> f{None, None};
    for (size_t i = 0; i + n.size() <= h.size(); ++i)
      if (std::equal(n.begin(), n.end(), h.begin() + i)) { f = {i, i + n.size()}; if (!last) return f; }
    return f;
  }
  static std::pair<size_t, size_t> find_items(const std::vector<Item>& h, const std::vector<u32>& n, size_t size, bool last) {
    std::pair<size_t, size_t> f{None, None};
    for (size_t i = 0; i + n.size() <= h.size(); ++i) {
      bool all = true;
      for (size_t k = 0; k < n.size(); ++k) all &= h[i + k].ok && h[i + k].r == n[k];
      if (!all) continue;
      size_t a = i < h.size() ? h[i].pos : size, b = i + n.size() < h.size() ? h[i + n.size()].pos : size;
      f = {a, b}; if (!last) return f;
    }
    return f;
  }
  struct Needle { int kind; Units units; std::vector<u32> runes; u32 r = 0; };  // 0 rune, 1 same encoding, 2 other encoding, 3 predicate
  Needle draw(Rng& r) {
    Needle n; n.kind = r.below(4);
    if (n.kind == 0) { n.r = !items.empty() && r.chance(60) ? rune_of(items[r.below(items.size())]) : draw_rune(r, r.chance(20) ? Wtf8 : Me); return n; }
    if (n.kind == 3) { n.r = (u32)r.below(4); return n; }
    // Part of the text, or the beginning of something in it, or something else.
    if (!u.empty() && r.chance(75)) {
      size_t i = r.below(items.size()), k = r.below(std::min<size_t>(4, items.size() - i) + 1);
      for (size_t x = i; x < i + k; ++x) n.runes.push_back(rune_of(items[x]));
      if (r.chance(25)) n.runes.push_back(draw_rune(r, Me));
    } else for (u64 k = r.below(3); k--;) n.runes.push_back(draw_rune(r, Me));
    for (auto& x : n.runes) if (!can(Me, x) || !can(Other, x)) x = 'a';
    Enc e = n.kind == 1 ? Me : Other;
    for (u32 x : n.runes) put(e, x, n.units);
    return n;
  }
  static bool pred(u32 which, u32 r) { switch (which) { case 0: return r == 'a'; case 1: return r > 0x7f; case 2: return r == ',' || r == ' '; default: return false; } }
  // Forgets what it looks for when it goes away.
  struct Pred { u32 w; ~Pred() { *(volatile u32*)&w = 77; } bool operator()(best::rune r) const { return pred(w, r); } };
  template <typename T, typename F> void with(const T& hay, const Needle& n, F f) {
    switch (n.kind) {
      case 0: { auto x = best::rune::from_int_allow_surrogates(n.r); f(hay, *x); break; }
      case 1: { Received<E> t(n.units); if (n.units.size() & 1) f(hay, t.pre()); else f(hay, t.text()); break; }
      case 2: if (Other == OtherX) { Received<X> t(n.units); f(hay, t.pre()); } else { Received<Y> t(n.units); f(hay, t.pre()); } break;
      default: { Pred w{n.r}; f(hay, w); break; }
    }
  }
  std::pair<size_t, size_t> want(const Needle& n, bool last) {
    switch (n.kind) {
      case 0: { Units x; if (!put(Me, n.r, x)) return {None, None}; return find_units(u, x, last); }
      case 1: return n.units.empty() ? last ? std::pair{u.size(), u.size()} : std::pair{size_t(0), size_t(0)} : find_units(u, n.units, last);
      case 2: return find_items(items, n.runes, u.size(), last);
      default: {
        std::pair<size_t, size_t> f{None, None};
        for (auto& x : items) if (x.ok && pred(n.r, x.r)) { f = {x.pos, x.pos + x.len}; if (!last) break; }
        return f;
      }
    }
  }
  std::string show(const Needle& n) { return n.kind == 0 ? fmt("rune %x", n.r) : n.kind == 3 ? fmt("predicate %u", n.r) : fmt("%s [%s]", name(n.kind == 1 ? Me : Other), dump(n.units).c_str()); }
  void search(u64 seed) {
    Rng r(seed);
    Received<E> t(u);
    Needle n = draw(r);
    bool ok = valid(items);
    // Across encodings, searching ill-formed text is only required to be safe
    // and never to report what is not there.
    bool strict = ok || n.kind <= 1;
    auto body = [&](auto hay, auto&& needle) {
      for (int last = 0; last < 2; ++last) {
        auto w = want(n, last);
        auto f = last ? hay.rfind(needle) : hay.find(needle);
        auto s = last ? hay.rsplit_once(needle) : hay.split_once(needle);
        if (f.has_value() != s.has_value()) { fail("C09", "search", "%s: finding %s and splitting at it disagree", here().c_str(), show(n).c_str()); return; }
        const char* which = last ? "last" : "first";
        if (strict) {
          if (f.value_or(None) != w.first) { fail("C09", "search", "%s: the %s %s is at %zd, found at %zd", here().c_str(), which, show(n).c_str(), (ssize_t)w.first, (ssize_t)f.value_or(None)); return; }
          if (hay.contains(needle) != (w.first != None)) { fail("C09", "search", "%s: contains() of %s is wrong", here().c_str(), show(n).c_str()); return; }
          if (s && (s->first().data() != t.p || s->first().size() != w.first || s->second().data() != t.p + w.second || s->second().size() != u.size() - w.second)) {
            fail("C09", "split-once", "%s split at the %s %s gives %zu and %zu units, expected %zu and %zu", here().c_str(), which, show(n).c_str(), s->first().size(), s->second().size(), w.first, u.size() - w.second); return; }
        } else if (f) {
          // Some true occurrence.
          size_t a = *f, b = u.size() - s->second().size();
          if (a > b || b > u.size() || s->first().size() != a) { fail("C09", "search", "%s: %s is said to lie at %zu..%zu", here().c_str(), show(n).c_str(), a, b); return; }
          auto part = parse(Me, Units(u.begin() + a, u.begin() + b));
          bool match = n.kind == 3 ? part.size() == 1 && part[0].ok && pred(n.r, part[0].r) : part.size() == n.runes.size();
          if (n.kind == 2) for (size_t k = 0; match && k < part.size(); ++k) match = part[k].ok && part[k].r == n.runes[k];
          if (!match) { fail("C09", "search", "%s: %s is said to lie at %zu..%zu, where something else is", here().c_str(), show(n).c_str(), a, b); return; }
        }
      }
      reach(strict ? "searched" : "searched-ill-formed");
    };
    if (ok && (seed & 1)) with(t.text(), n, body); else with(t.pre(), n, body);
  }
  void split(u64 seed) {
    Rng r(seed);
    Received<E> t(u);
    Needle n = draw(r);
    bool ok = valid(items);
    bool empty = (n.kind == 1 || n.kind == 2) && n.units.empty();
    // Expected pieces.
    std::vector<std::pair<size_t, size_t>> pieces;
    {
      size_t start = 0;
      Units rest = u; auto all = items; Units keep = u;
      while (!empty) {
        u = Units(keep.begin() + start, keep.end()); parse_now();
        auto w = want(n, false);
        if (w.first == None) break;
        pieces.push_back({start, start + w.first}); start += w.second;
      }
      u = keep; items = all;
      pieces.push_back({start, u.size()});
    }
    // Overlapping occurrences make the order of splitting matter.
    std::vector<std::pair<size_t, size_t>> backwards;
    {
      size_t end = u.size();
      auto all = items; Units keep = u;
      while (!empty) {
        u = Units(keep.begin(), keep.begin() + end); parse_now();
        auto w = want(n, true);
        if (w.first == None) break;
        backwards.push_back({w.second, end}); end = w.first;
      }
      u = keep; items = all;
      backwards.push_back({0, end});
      std::reverse(backwards.begin(), backwards.end());
    }
    bool strict = (ok || n.kind <= 1) && !empty;
    int mode = (int)(seed / 2 % 3);
    auto body = [&](auto hay, auto&& needle) {
      auto it = [&] {
        if constexpr (best::same<best::as_auto<decltype(needle)>, Pred>) {
          // A predicate may be a temporary that is gone when the split begins.
          if (seed & 8) { Pred* w = new (heap::get(sizeof(Pred), alignof(Pred), 5, false)) Pred(needle); auto x = hay.split(BEST_MOVE(*w)); w->~Pred(); heap::put(w); return x; }
          return hay.split(Pred(needle));
        } else return hay.split(needle);
      }();
      size_t limit = 2 * u.size() + 8, steps = 0;
      std::vector<std::pair<size_t, size_t>> got; std::vector<std::pair<size_t, size_t>> tail;
      bool done = false;
      while (!done && steps++ < limit) {
        bool f = mode == 0 ? true : mode == 1 ? false : r.chance(50);
        if (strict && mode < 2) { auto h = it.size_hint(); size_t left = (mode ? backwards : pieces).size() - got.size() - tail.size(); hint(h, left > u.size() + 9 ? 0 : left, "split()"); }
        auto p = f ? it.next() : it.next_back();
        if (!p) { done = true; break; }
        std::pair<size_t, size_t> x{0, 0};
        if (p->size()) x = {(size_t)(p->data() - t.p), (size_t)(p->data() - t.p) + p->size()};
        if (p->size() && (p->data() < t.p || x.second > u.size())) { fail("C09", "outside", "splitting %s yields something outside it", here().c_str()); return; }
        (f ? got : tail).push_back(x);
      }
      if (!done) { fail("C09", "endless", "splitting %s at %s has not ended after %zu pieces", here().c_str(), show(n).c_str(), steps); return; }
      if (it.next() || it.next_back()) { fail("C09,C16", "extra-item", "splitting %s goes on after its end", here().c_str()); return; }
      std::reverse(tail.begin(), tail.end());
      got.insert(got.end(), tail.begin(), tail.end());
      size_t sum = 0; for (auto& x : got) sum += x.second - x.first;
      if (empty) { if (sum != u.size()) fail("C09", "lost-text", "splitting %s at nothing loses text", here().c_str()); reach("split-at-nothing"); return; }
      if (!strict) return;
      auto& w = mode == 1 ? backwards : pieces;
      if (mode == 2 && pieces.size() != backwards.size()) return;
      if (mode == 2) { bool same = true; for (size_t k = 0; k < pieces.size(); ++k) same &= pieces[k] == backwards[k]; if (!same) return; }
      if (got.size() != w.size()) { fail("C09", "split", "splitting %s at %s gives %zu pieces, expected %zu", here().c_str(), show(n).c_str(), got.size(), w.size()); return; }
      for (size_t k = 0; k < w.size(); ++k) if (w[k].second != w[k].first ? got[k] != w[k] : got[k].first != got[k].second) { fail("C09", "split", "splitting %s at %s: piece %zu is %zu..%zu, expected %zu..%zu", here().c_str(), show(n).c_str(), k, got[k].first, got[k].second, w[k].first, w[k].second); return; }
      if (w.size() > 2) reach("many-pieces");
    };
    if (ok && (seed & 1)) with(t.text(), n, body); else with(t.pre(), n, body);
  }
  void affix(u64 seed) {
    Rng r(seed);
    Received<E> t(u);
    Needle n = draw(r);
    if (r.chance(50) && !items.empty() && (n.kind == 1 || n.kind == 2)) {
      // An actual beginning or end.
      size_t k = r.below(std::min<size_t>(items.size(), 4) + 1); bool end = r.chance(50);
      n.runes.clear(); n.units.clear();
      for (size_t i = 0; i < k; ++i) { u32 x = rune_of(items[end ? items.size() - k + i : i]); n.runes.push_back(can(Me, x) && can(Other, x) ? x : 'a'); }
      for (u32 x : n.runes) put(n.kind == 1 ? Me : Other, x, n.units);
    }
    bool ok = valid(items);
    size_t pre = None, suf = None;  // how many units the match takes
    if (n.kind == 1) {
      size_t k = n.units.size();
      if (k <= u.size()) { if (std::equal(n.units.begin(), n.units.end(), u.begin())) pre = k; if (std::equal(n.units.begin(), n.units.end(), u.end() - k)) suf = k; }
    } else {
      auto check = [&](bool end) -> size_t {
        size_t k = n.kind == 2 ? n.runes.size() : 1, sum = 0;
        if (k > items.size()) return None;
        for (size_t i = 0; i < k; ++i) { auto& x = items[end ? items.size() - k + i : i]; if (!x.ok || !(n.kind == 2 ? x.r == n.runes[i] : n.kind == 0 ? x.r == n.r : pred(n.r, x.r))) return None; sum += x.len; }
        return sum;
      };
      pre = check(false); suf = check(true);
    }
    auto body = [&](auto hay, auto&& needle) {
      auto a = hay.strip_prefix(needle); auto b = hay.strip_suffix(needle);
      if (a.has_value() != (pre != None) || hay.starts_with(needle) != (pre != None) || (a && (a->size() != u.size() - pre || a->data() != t.p + pre))) { fail("C09", "affix", "%s %s start with %s", here().c_str(), pre != None ? "does" : "does not", show(n).c_str()); return; }
      if (b.has_value() != (suf != None) || hay.ends_with(needle) != (suf != None) || (b && (b->size() != u.size() - suf || b->data() != t.p))) { fail("C09", "affix", "%s %s end with %s", here().c_str(), suf != None ? "does" : "does not", show(n).c_str()); return; }
      auto c = hay; bool done = c.consume_prefix(needle);
      if (done != a.has_value() || c.size() != (done ? a->size() : u.size())) fail("C09", "affix", "consume_prefix() of %s disagrees with strip_prefix()", here().c_str());
      c = hay; done = c.consume_suffix(needle);
      if (done != b.has_value() || c.size() != (done ? b->size() : u.size())) fail("C09", "affix", "consume_suffix() of %s disagrees with strip_suffix()", here().c_str());
    };
    if (ok && (seed & 1)) with(t.text(), n, body); else with(t.pre(), n, body);
  }
  void slice(u64 seed) {
    Rng r(seed);
    Received<E> t(u);
    bool ok = valid(items) && r.chance(70);
    size_t a = r.chance(90) ? r.below(u.size() + 2) : (size_t)-(i64)r.below(3), b = r.chance(90) ? r.below(u.size() + 2) : (size_t)-(i64)r.below(3);
    int form = (int)r.below(6);
    best::bounds bd; bool exists; size_t s = a, e = u.size();
    switch (form) {
      case 0: bd = {.start = a}; exists = a <= u.size(); break;
      case 1: bd = {.end = b}; s = 0; e = b; exists = b <= u.size(); break;
      case 2: bd = {.start = a, .end = b}; e = b; exists = a <= b && b <= u.size(); break;
      case 3: bd = {.start = a, .count = b}; e = a + b; exists = a <= u.size() && b <= u.size() - a; break;
      case 4: bd = {.count = b}; s = 0; e = b; exists = b <= u.size(); break;
      default: bd = {.start = a, .including_end = b}; e = b + 1; exists = b < u.size() && a <= b; break;
    }
    if (ok) exists = exists && boundary(items, u.size(), s) && boundary(items, u.size(), e);
    auto body = [&](auto hay) {
      auto x = hay.at(bd);
      if (x.has_value() != exists) { fail("C11,C09", "slice", "%s: at(%zu, %zu; form %d) %s", here().c_str(), a, b, form, exists ? "is refused" : "is allowed"); return; }
      if (x && (x->data() != t.p + s || x->size() != e - s)) { fail("C11,C09", "slice", "%s: at(%zu, %zu; form %d) is something else", here().c_str(), a, b, form); return; }
      size_t len = None;
      int st = run_process([&] { len = hay[bd].size(); });
      if (exists ? st != -1 || len != e - s : st == -1) { fail("C11,C09", exists ? "refused" : "allowed", "%s: [%zu, %zu; form %d] %s", here().c_str(), a, b, form, exists ? "is refused" : "is allowed"); return; }
      if (!exists) reach("refused-access");
      auto sp = hay.split_at(a);
      bool can_split = a <= u.size() && (!ok || boundary(items, u.size(), a));
      if (sp.has_value() != can_split || (sp && (sp->first().size() != a || sp->second().size() != u.size() - a))) fail("C11,C09", "split-at", "%s: split_at(%zu) %s", here().c_str(), a, can_split ? "fails" : "succeeds");
    };
    if (ok) body(t.text()); else body(t.pre());
  }
  // Copied out whole: as a lossy copy and formatted, each ill-formed unit
  // becomes one replacement character.
  void show_all() {
    Received<E> t(u);
    Units w; for (auto& x : items) put(Utf8, surrogate(rune_of(x)) ? 0xfffd : rune_of(x), w);
    best::strbuf s; s.push_lossy(t.pre());
    if (units(s.data(), s.size()) != w) fail("C09,C08", "lossy", "a lossy copy of %s is [%s]", here().c_str(), dump(units(s.data(), s.size())).c_str());
    best::strbuf f = best::format("{}", t.pre());
    if (units(f.data(), f.size()) != w) fail("C09,C21", "formatted", "%s is formatted as [%s]", here().c_str(), dump(units(f.data(), f.size())).c_str());
  }
  void compare(u64 seed) {
    Rng r(seed);
    Units v = u;
    for (u64 k = r.below(3); k--;) damage(Me, v, r.next(), r.next(), r.next());
    Received<E> a(u), b(v);
    auto other = parse(Me, v);
    bool eq = u == v;
    if ((a.pre() == b.pre()) != eq || (b.pre() == a.pre()) != eq || (a.pre() != b.pre()) == eq) fail("C09", "compare", "%s and [%s] are %s", here().c_str(), dump(v).c_str(), eq ? "equal but compared unequal" : "unequal but compared equal");
    if (Me == Utf16) return;  // ordered by code units, not runes
    auto c = a.pre() <=> b.pre();
    auto w = std::lexicographical_compare_three_way(u.begin(), u.end(), v.begin(), v.end());
    if ((c < 0) != (w < 0) || (c == 0) != (w == 0)) fail("C09", "compare", "%s and [%s] are ordered wrongly", here().c_str(), dump(v).c_str());
  }
  void across(u64 seed) {
    // The same text in another encoding compares equal, and only that.
    if (!valid(items)) return;
    Rng r(seed);
    std::vector<u32> runes; for (auto& x : items) runes.push_back(x.r);
    if (r.chance(40) && !runes.empty()) { size_t i = r.below(runes.size()); switch (r.below(3)) { case 0: runes.erase(runes.begin() + i); break; case 1: runes[i] = draw_rune(r, Me); break; default: runes.push_back(runes[i]); } }
    if (Other == OtherX) across_to<X>(r, runes); else across_to<Y>(r, runes);
  }
  template <typename X> void across_to(Rng& r, const std::vector<u32>& runes) {
    Units v; for (u32 x : runes) if (!put(Other, x, v)) return;
    bool eq = runes.size() == items.size(); for (size_t i = 0; eq && i < runes.size(); ++i) eq = runes[i] == items[i].r;
    Received<E> a(u); Received<X> b(v);
    if ((a.text() == b.text()) != eq || (b.text() == a.text()) != eq) fail("C09", "compare", "%s and %s [%s] are %s", here().c_str(), name(Other), dump(v).c_str(), eq ? "the same text but compared unequal" : "different texts but compared equal");
    auto c = a.text() <=> b.text(); auto d = b.text() <=> a.text();
    std::vector<u32> mine; for (auto& x : items) mine.push_back(x.r);
    auto w = std::lexicographical_compare_three_way(mine.begin(), mine.end(), runes.begin(), runes.end());
    if ((c < 0) != (w < 0) || (c == 0) != (w == 0) || (d > 0) != (w < 0)) fail("C09", "compare", "%s and %s [%s] are ordered wrongly", here().c_str(), name(Other), dump(v).c_str());
  }
};
void gen(Rng& r, Plan& p) {
  int n = (int)r.below(r.chance(20) ? 40 : 9);
  for (int i = 0; i < n; ++i) p.add("rune", {(i64)draw_rune(r, Me)});
  int rounds = 1 + (int)r.below(3);
  for (int k = 0; k < rounds; ++k) {
    for (u64 d = r.below(4); d--;) p.add("damage", {(i64)r.below(7), (i64)r.below(1 << 20), (i64)r.below(1 << 20)});
    for (u64 c = 2 + r.below(6); c--;) {
      static const char* ops[] = {"validate", "iterate", "iterate", "stream", "stream", "search", "search", "search", "split", "split", "affix", "affix", "slice", "show", "compare", "across"};
      p.add(ops[r.below(16)], {(i64)r.below(1ull << 40)});
    }
    if (r.chance(30)) p.add("rune", {(i64)draw_rune(r, Me)});
  }
}
void run(const Plan& p) {
  death_means("C09,C11,C16");
  heap::fail_nth(0);
  World1 w;
  int done = 0;
  for (auto& op : p.ops) {
    set_op(&op);
    if (op.kind == "rune") { put(Me, (u32)op.arg(0), w.u); continue; }
    if (op.kind == "damage") { if (const char* d = damage(Me, w.u, op.arg(0), op.arg(1), op.arg(2))) fault(d); continue; }
    w.parse_now();
    u64 s = (u64)op.arg(0);
    w.Other = s >> 39 & 1 ? OtherX : OtherY;
    if (++done == 2) nontrivial();
    if (op.kind == "validate") w.validate(s);
    else if (op.kind == "iterate") w.iterate(s);
    else if (op.kind == "stream") w.stream(s);
    else if (op.kind == "search") w.search(s);
    else if (op.kind == "split") w.split(s);
    else if (op.kind == "affix") w.affix(s);
    else if (op.kind == "slice") w.slice(s);
    else if (op.kind == "show") w.show_all();
    else if (op.kind == "compare") w.compare(s);
    else if (op.kind == "across") w.across(s);
    u64 shape = w.u.size() > 6 ? 6 : w.u.size();
    for (size_t i = 0; i < w.items.size() && i < 5; ++i) shape = mix2(shape, w.items[i].ok ? w.items[i].len : 9);
    state(shape);
    note("%s %llx %zu", op.kind.c_str(), (unsigned long long)mix(s), w.items.size());
  }
}
#define NAME2(k) "text" #k
#define NAME1(k) NAME2(k)
RegisterWorld w1({NAME1(TEXT_KIND), gen, run, 0});
}  // namespace
}  // namespace sim

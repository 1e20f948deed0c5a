// World: iterators over many sources under stacks of adaptors, consumed from
// both ends, copied, left early and finished in every way (C16; also C02, C03).
#include <deque>
#include <memory>
#include "elems.h"
#include "best/container/row.h"
#include "best/container/vec.h"
#include "best/iter/bounds.h"
#include "best/iter/iter.h"
#include "best/memory/span.h"
#include "best/text/str.h"

namespace sim {
namespace {
using T = TrackedT<true>;
using Log = std::vector<std::pair<int, i64>>;  // which adaptor was called with what
Log* calls = nullptr;

// What every iterator is turned into, so that adaptors can be stacked at will.
struct Node {
  virtual ~Node() = default;
  virtual best::option<T> next() = 0;
  virtual best::option<T> next_back() = 0;
  virtual bool both() const = 0;
  virtual best::size_hint hint() const = 0;
  virtual Node* clone() const = 0;
  // These use the iterator up.
  virtual size_t count() = 0;
  virtual bool last(i64& out) = 0;
  virtual std::vector<i64> to_vec() = 0;
  virtual std::vector<i64> loop(size_t leave) = 0;        // range-for, left after `leave`
  virtual std::vector<i64> into_range(size_t leave) = 0;  // the same, by value
};
inline i64 value(const T& x) { x.check("read"); return x.value; }
inline i64 value(i64 x) { return x; }
inline i64 value(best::rune r) { return r.to_int(); }
template <typename A, typename B> i64 value(const best::row<A, B>& r) { return value((i64)r[best::index<0>]) * 100003 + value(r[best::index<1>]); }
// A part of the sequence being split: where it is and how much.
const void* split_base = nullptr; size_t split_stride = 1;
template <typename X> i64 value(const best::span<X>& s) { return s.is_empty() ? -1 : (i64)(((const char*)s.data().raw() - (const char*)split_base) / split_stride) * 1000 + (i64)s.size(); }
template <typename E> i64 value(const best::text<E>& s) { return value(s.as_codes()); }
template <typename I> requires std::is_integral_v<I> && (!std::same_as<I, i64>) i64 value(I x) { return (i64)x; }

template <typename It> struct Over final : Node {
  It it;
  explicit Over(It it) : it(BEST_MOVE(it)) {}
  template <typename X> static best::option<T> lift(X&& x) { if (!x) return best::none; return best::option<T>(T(value(*x))); }
  best::option<T> next() override { return lift(it.next()); }
  best::option<T> next_back() override { if constexpr (It::double_ended) return lift(it.next_back()); else return best::none; }
  bool both() const override { return It::double_ended; }
  best::size_hint hint() const override { return it.size_hint(); }
  Node* clone() const override { return new Over(It(it)); }
  size_t count() override { return BEST_MOVE(it).count(); }
  bool last(i64& out) override { auto x = BEST_MOVE(it).last(); if (!x) return false; out = value(*x); return true; }
  std::vector<i64> to_vec() override {
    std::vector<i64> o;
    using item = typename It::item;
    if constexpr (std::is_reference_v<item>) { best::vec<std::decay_t<item>> v(BEST_MOVE(it)); for (auto& x : v) o.push_back(value(x)); }
    else { auto v = BEST_MOVE(it).to_vec(); for (auto& x : v) o.push_back(value(x)); }
    return o;
  }
  std::vector<i64> loop(size_t leave) override { std::vector<i64> o; if (!leave) return o; for (auto&& x : it) { o.push_back(value(x)); if (o.size() >= leave) break; } return o; }
  std::vector<i64> into_range(size_t leave) override {
    std::vector<i64> o; if (!leave) return o;
    auto b = BEST_MOVE(it).into_range();
    for (; b != best::iter_range_end{}; ++b) { o.push_back(value(*b)); if (o.size() >= leave) break; }
    return o;
  }
};
template <typename It> Node* over(It it) { return new Over<It>(BEST_MOVE(it)); }

// The bottom of an adaptor: an iterator implementation over a Node.
struct Bottom {
  std::unique_ptr<Node> n;
  explicit Bottom(Node* p) : n(p) {}
  Bottom(Bottom&&) = default;
  Bottom& operator=(Bottom&&) = default;
  Bottom(const Bottom& o) : n(o.n->clone()) {}
  Bottom& operator=(const Bottom& o) { n.reset(o.n->clone()); return *this; }
  best::option<T> next() { return n->next(); }
  best::option<T> next_back() { return n->next_back(); }
  best::size_hint size_hint() const { return n->hint(); }
};
struct BottomFwd {
  Bottom b;
  best::option<T> next() { return b.next(); }
  best::size_hint size_hint() const { return b.size_hint(); }
};
i64 mapped(int id, i64 v) { return v * 3 + id; }
// Functions given to adaptors: they own storage, to notice being used too late.
struct Fn {
  int id; std::unique_ptr<i64> keep;
  explicit Fn(int id) : id(id), keep(new i64(id)) {}
  Fn(Fn&& o) : id(o.id), keep(std::move(o.keep)) {}
  Fn(const Fn& o) : id(o.id), keep(new i64(o.keep ? *o.keep : -1)) {}
  void called(i64 v) const {
    if (!keep || *keep != id) fail("C16,C02", "dead-function", "an adaptor calls a function that was moved away or destroyed");
    if (calls) calls->push_back({id, v});
  }
};
struct MapFn : Fn { using Fn::Fn; T operator()(const T& x) const { called(value(x)); return T(mapped(id, value(x))); } };
struct SeeFn : Fn { using Fn::Fn; void operator()(T& x) const { called(value(x)); } };
struct TickFn : Fn { using Fn::Fn; void operator()() const { called(0); } };

template <typename B> Node* adapt(B b, int kind, int id, size_t n) {
  auto it = best::iter<B>(BEST_MOVE(b));
  switch (kind) {
    case 0: return over(BEST_MOVE(it).map(MapFn(id)));
    case 1: return over(BEST_MOVE(it).inspect(SeeFn(id)));
    case 2: return over(BEST_MOVE(it).inspect(TickFn(id)));
    case 3: return over(BEST_MOVE(it).enumerate());
    case 4: return over(BEST_MOVE(it).take(n));
    case 5: if constexpr (best::iter<B>::double_ended) return over(BEST_MOVE(it).rev()); else return nullptr;
    // Several at once, one directly over the other.
    case 6: if constexpr (best::iter<B>::double_ended) return over(BEST_MOVE(it).rev().rev()); else return nullptr;
    case 7: if constexpr (best::iter<B>::double_ended) return over(BEST_MOVE(it).map(MapFn(id)).rev().inspect(SeeFn(id + 1)).rev()); else return nullptr;
    case 8: return over(BEST_MOVE(it).inspect(SeeFn(id)).take(n).enumerate());
    default: return over(BEST_MOVE(it).take(n + 1).map(MapFn(id)).take(n));
  }
}

// ------------------------------------------------------------------ model
struct Layer { int kind; int id; size_t n = 0; i64 idx = 0; };
struct Model {
  std::deque<i64> base;
  std::vector<Layer> layers;
  Log log;
  bool both_at(int k) const { return k < 0 ? true : layers[k].kind == 3 || layers[k].kind == 4 ? false : both_at(k - 1); }
  bool both() const { return base_both && both_at((int)layers.size() - 1); }
  bool base_both = true;
  bool get(int k, bool back, i64& v) {
    if (k < 0) { if (base.empty()) return false; if (back) { v = base.back(); base.pop_back(); } else { v = base.front(); base.pop_front(); } return true; }
    Layer& l = layers[k];
    switch (l.kind) {
      case 0: if (!get(k - 1, back, v)) return false; log.push_back({l.id, v}); v = mapped(l.id, v); return true;
      case 1: if (!get(k - 1, back, v)) return false; log.push_back({l.id, v}); return true;
      case 2: if (!get(k - 1, back, v)) return false; log.push_back({l.id, 0}); return true;
      case 3: if (!get(k - 1, false, v)) return false; v += l.idx++ * 100003; return true;
      case 4: if (!l.n) return false; --l.n; return get(k - 1, false, v);
      default: return get(k - 1, !back, v);
    }
  }
  size_t left(int k) const { if (k < 0) return base.size(); size_t x = left(k - 1); return layers[k].kind == 4 && layers[k].n < x ? layers[k].n : x; }
  size_t left() const { return left((int)layers.size() - 1); }
  bool next(bool back, i64& v) { return get((int)layers.size() - 1, back, v); }
};

// ---------------------------------------------------------------- sources
// A user's own iterator; says as much as it likes about how much is left.
template <int Hint, bool Both> struct Mine {
  std::vector<i64> v; size_t a = 0, b = 0;
  explicit Mine(std::vector<i64> x) : v(std::move(x)), b(v.size()) {}
  best::option<T> next() { if (a == b) return best::none; return best::option<T>(T(v[a++])); }
  best::option<T> next_back() requires Both { if (a == b) return best::none; return best::option<T>(T(v[--b])); }
  best::size_hint size_hint() const requires (Hint > 0) { return Hint == 1 ? best::size_hint{b - a, b - a} : Hint == 2 ? best::size_hint{(b - a) / 2, best::none} : best::size_hint{0, (b - a) * 2 + 1}; }
};
struct Store {
  std::vector<i64> nums; std::vector<T> items; std::vector<u8> bytes; std::string str;
  best::vec<i64> arr; best::vec<T, 2> tarr;
};
template <typename I> Node* range(Rng& r, Model& m) {
  using U = std::make_unsigned_t<I>;
  constexpr I Max = (I)(U(-1) >> std::is_signed_v<I>), Min = (I)~Max;
  int form = (int)r.below(6);
  best::int_range<I> b;
  b.start = r.chance(20) ? Min : r.chance(25) ? (I)(Max - (I)r.below(5)) : r.chance(20) ? I(0) : (I)(Min / 2 + (I)r.below(40));
  // Work in 128 bits.
  __int128 s = b.start, e = s + (__int128)r.below(r.chance(70) ? 12 : 60);
  if (e > (__int128)Max) e = (__int128)Max;
  bool all = false;
  switch (form) {
    case 0: b.end = (I)e; break;
    case 1: if (e < s) e = s; b.including_end = (I)e; ++e; break;
    case 2: { if (e == (__int128)Max && r.chance(50) && e + 1 - s <= (__int128)Max) ++e; b.count = (I)(U)(e - s); break; }
    case 3: if (s > Min) { e = s - 1; b.end = (I)e; reach("reversed-range"); } else b.end = (I)e; break;  // nothing
    case 4: b.end = (I)e; b.including_end = r.chance(50) ? Max : (I)(Max - 3); b.count = (I)2; break;    // the first one counts
    default:
      if (sizeof(I) > 2) { b.end = (I)e; break; }
      if (sizeof(I) == 2) { if (!r.chance(2)) { b.end = (I)e; break; } }
      all = true; b.start = Min; s = Min; e = (__int128)Max + 1; if (r.chance(50)) b.including_end = Max; reach("whole-range");
  }
  (void)all;
  for (__int128 x = s; x < e; ++x) m.base.push_back((i64)x);
  return over(b.iter());
}
template <typename X> std::vector<std::pair<size_t, size_t>> pieces(const std::vector<X>& v, const std::function<size_t(size_t)>& match) {
  // match(i): how long a separator starts at i, or 0.
  std::vector<std::pair<size_t, size_t>> out; size_t start = 0;
  for (size_t i = 0; i < v.size();) { if (size_t k = match(i)) { out.push_back({start, i - start}); i += k; start = i; } else ++i; }
  out.push_back({start, v.size() - start});
  return out;
}
void base_pieces(Model& m, const std::vector<std::pair<size_t, size_t>>& ps) { for (auto [a, n] : ps) m.base.push_back(n ? (i64)a * 1000 + (i64)n : -1); }
struct Pick { i64 w; std::unique_ptr<i64> keep{new i64(5)}; explicit Pick(i64 w) : w(w) {} Pick(Pick&&) = default; Pick(const Pick& o) : w(o.w) {}
  template <typename X> bool operator()(const X& x) const { if (!keep || *keep != 5) fail("C16,C02", "dead-function", "splitting calls a predicate that was moved away or destroyed"); return (u64)value(x) % 3 == (u64)w % 3; } };
std::vector<std::shared_ptr<void>> kept;  // what outlives the iterators
template <typename X> X* keep(X* p) { kept.push_back(std::shared_ptr<void>(p, [](void* q) { delete (X*)q; })); return p; }
template <typename X> Node* split(Rng& r, Model& m, best::span<const X> sp, const std::vector<X>& v) {
  split_base = sp.data().raw(); split_stride = sizeof(X);
  auto val = [&](size_t i) { return value(v[i]); };
  switch (r.below(4)) {
    case 0: {  // a value that outlives the split
      i64 w = (i64)r.below(4);
      base_pieces(m, pieces<X>(v, [&](size_t i) -> size_t { return val(i) == w; }));
      return over(sp.split(std::as_const(*keep(new X(w)))));
    }
    case 1: {  // a value given away
      i64 w = (i64)r.below(4);
      base_pieces(m, pieces<X>(v, [&](size_t i) -> size_t { return val(i) == w; }));
      return over(sp.split(X(w)));
    }
    case 2: {  // a predicate given away
      i64 w = (i64)r.below(3);
      base_pieces(m, pieces<X>(v, [&](size_t i) -> size_t { return (u64)val(i) % 3 == (u64)w; }));
      return over(sp.split(Pick(w)));
    }
    default: {  // a sequence that cannot overlap itself
      i64 a = (i64)r.below(4), b = (a + 1 + (i64)r.below(3)) % 4;
      auto* seq = keep(new std::vector<X>());
      if (r.chance(12)) { base_pieces(m, {{0, v.size()}}); reach("split-at-nothing"); return over(sp.split(best::span<const X>())); }
      seq->push_back(X(a)); if (r.chance(80)) seq->push_back(X(b)); if (seq->size() == 2 && r.chance(30)) seq->push_back(X(b));
      size_t k = seq->size();
      base_pieces(m, pieces<X>(v, [&](size_t i) -> size_t { if (i + k > v.size()) return 0; for (size_t j = 0; j < k; ++j) if (val(i + j) != value((*seq)[j])) return 0; return k; }));
      if (r.chance(50)) return over(sp.split(best::span<const X>(seq->data(), k)));
      return over(sp.split(*keep(new best::span<const X>(seq->data(), k))));
    }
  }
}
Node* source(Rng& r, Model& m, Store& st) {
  int n = (int)r.below(r.chance(20) ? 30 : 7);
  for (int i = 0; i < n; ++i) st.nums.push_back((i64)r.below(4));
  for (i64 v : st.nums) { st.items.push_back(T(v)); st.bytes.push_back((u8)v); }
  switch (r.below(20)) {
    case 17: return range<std::int8_t>(r, m);
    case 18: return range<std::int16_t>(r, m);
    case 19: return r.chance(50) ? range<std::int32_t>(r, m) : range<i64>(r, m);
    case 0: m.base.assign(st.nums.begin(), st.nums.end()); return over(best::iter(Mine<0, true>(st.nums)));
    case 1: m.base.assign(st.nums.begin(), st.nums.end()); return over(best::iter(Mine<1, true>(st.nums)));
    case 2: m.base.assign(st.nums.begin(), st.nums.end()); return over(best::iter(Mine<2, true>(st.nums)));
    case 3: m.base.assign(st.nums.begin(), st.nums.end()); m.base_both = false; return over(best::iter(Mine<3, false>(st.nums)));
    case 4: m.base.assign(st.nums.begin(), st.nums.end()); return over(best::span<const i64>(st.nums.data(), st.nums.size()).iter());
    case 5: m.base.assign(st.nums.begin(), st.nums.end()); return over(best::span<T>(st.items.data(), st.items.size()).iter());
    case 6: for (i64 v : st.nums) { st.tarr.push(T(v)); m.base.push_back(v); } return over(st.tarr.iter());
    case 7: return range<u8>(r, m);
    case 8: return range<std::uint16_t>(r, m);
    case 9: return range<std::size_t>(r, m);
    case 10: return range<u32>(r, m);
    case 11: return split<i64>(r, m, {st.nums.data(), st.nums.size()}, st.nums);
    case 12: return split<u8>(r, m, {st.bytes.data(), st.bytes.size()}, st.bytes);
    case 13: case 14: return split<T>(r, m, {st.items.data(), st.items.size()}, st.items);
    case 15: {
      static const char* texts[] = {"", "a", "b\u00e9c\u20acd", "\U0001f9f6\U0001f9f6x"}; static const std::vector<i64> runes[] = {{}, {'a'}, {'b', 0xe9, 'c', 0x20ac, 'd'}, {0x1f9f6, 0x1f9f6, 'x'}};
      size_t k = r.below(4); st.str = texts[k]; m.base.assign(runes[k].begin(), runes[k].end());
      return over((*best::str::from(best::pretext<best::utf8>(best::span<const char>(st.str.data(), st.str.size())))).runes());
    }
    default: {
      static const std::vector<i64> at[] = {{}, {0}, {0, 1, 3, 4, 7}, {0, 4, 8}}; static const char* texts[] = {"", "a", "b\u00e9c\u20acd", "\U0001f9f6\U0001f9f6x"}; static const std::vector<i64> runes[] = {{}, {'a'}, {'b', 0xe9, 'c', 0x20ac, 'd'}, {0x1f9f6, 0x1f9f6, 'x'}};
      size_t k = r.below(4); st.str = texts[k]; for (size_t i = 0; i < at[k].size(); ++i) m.base.push_back(at[k][i] * 100003 + runes[k][i]);
      return over((*best::str::from(best::pretext<best::utf8>(best::span<const char>(st.str.data(), st.str.size())))).rune_indices());
    }
  }
}
// ------------------------------------------------------------------- run
struct Using { std::unique_ptr<Node> node; Model m; bool done = false; };
struct World1 {
  Store st;
  std::vector<Using> us;
  std::string about(const Using& u) { std::string s; for (auto& l : u.m.layers) s += fmt("%s%s", s.empty() ? "" : ".", (const char*[]){"map", "inspect", "inspect()", "enumerate", "take", "rev"}[l.kind]); return s.empty() ? "plain" : s; }
  void hint(Using& u) {
    auto h = u.node->hint(); size_t left = u.m.left();
    if (h.lower > left || (h.upper && *h.upper < left)) fail("C16", "size-hint", "%zu items are left but the bounds are %zu..%zd (%s)", left, h.lower, (ssize_t)h.upper.value_or((size_t)-1), about(u).c_str());
  }
  void same_log(Using& u, Log& got, const char* what) {
    if (got != u.m.log) fail("C16", "calls", "%s: the adaptors' functions were called %zu times, expected %zu, or in another order (%s)", what, got.size(), u.m.log.size(), about(u).c_str());
    u.m.log.clear(); got.clear();
  }
  void take(Using& u, bool back, const char* what) {
    Log got; calls = &got;
    auto x = back ? u.node->next_back() : u.node->next();
    calls = nullptr;
    i64 v = 0; bool want = u.m.next(back, v);
    if (x.has_value() != want) { fail("C16", want ? "missing-item" : "extra-item", "%s %s (%s)", what, want ? "is exhausted too early" : "yields more than there is", about(u).c_str()); return; }
    if (want && value(*x) != v) { fail("C16", "wrong-item", "%s yields %lld, expected %lld (%s)", what, (long long)value(*x), (long long)v, about(u).c_str()); return; }
    same_log(u, got, what);
    if (!want) reach("exhausted");
  }
  void finish(Using& u, u64 how, u64 k) {
    // Uses u.node up.
    Log got; std::vector<i64> items; bool all = true; size_t leave = (size_t)-1;
    const char* what;
    std::vector<i64> want;
    u.done = true;
    switch (how) {
      case 0: {
        what = "count()"; calls = &got; size_t c = u.node->count(); calls = nullptr;
        i64 v; size_t w = 0; while (u.m.next(false, v)) ++w;
        if (c != w) fail("C16", "count", "count() gives %zu, expected %zu (%s)", c, w, about(u).c_str());
        // Counting need not produce the items.
        return;
      }
      case 1: {
        what = "last()"; calls = &got; i64 x = 0; bool has = u.node->last(x); calls = nullptr;
        i64 v = 0, w = 0; bool any = false; while (u.m.next(false, v)) { any = true; w = v; }
        if (has != any || (any && x != w)) fail("C16", "last", "last() gives %lld, expected %s%lld (%s)", has ? (long long)x : -1, any ? "" : "nothing, not ", (long long)w, about(u).c_str());
        return;
      }
      case 2: what = "to_vec()"; calls = &got; items = u.node->to_vec(); break;
      case 3: what = "the loop"; leave = k; calls = &got; items = u.node->loop(leave); u.done = false; all = false; break;
      default: what = "the loop by value"; leave = k; calls = &got; items = u.node->into_range(leave); all = false; break;
    }
    calls = nullptr;
    i64 v; bool ran_out = false;
    while (want.size() < leave) { if (!u.m.next(false, v)) { ran_out = true; break; } want.push_back(v); }
    (void)all; (void)ran_out;
    if (items != want) { fail("C16", "items", "%s gives %zu items, expected %zu, or other ones (%s)", what, items.size(), want.size(), about(u).c_str()); return; }
    if (want.size() == leave && leave) reach("left-early");
    same_log(u, got, what);
  }
};
void gen(Rng& r, Plan& p) {
  p.add("source", {(i64)r.below(1ull << 40)});
  for (u64 k = r.below(5); k--;) p.add("adapt", {(i64)r.below(10), (i64)r.below(r.chance(20) ? 40 : 8)});
  int n = 2 + (int)r.below(24);
  for (int i = 0; i < n; ++i) {
    static const char* ops[] = {"next", "next", "next", "next", "back", "back", "back", "copy", "hint", "loop", "adapt", "drop", "drain"};
    const char* o = ops[r.below(13)];
    p.add(o, {(i64)r.below(10), (i64)r.below(r.chance(20) ? 40 : 8), (i64)r.below(4)});
  }
  for (u64 k = 1 + r.below(3); k--;) p.add("finish", {(i64)r.below(5), (i64)r.below(9), (i64)r.below(4)});
}
void run(const Plan& p) {
  death_means("C16,C02,C03");
  reg.clear();
  {
    World1 w; w.us.reserve(8); int ids = 0, done = 0;
    for (auto& op : p.ops) {
      set_op(&op);
      if (op.kind == "source") {
        if (!w.us.empty()) continue;
        Rng r((u64)op.arg(0)); Using u;
        u.node.reset(source(r, u.m, w.st)); w.us.push_back(std::move(u));
        w.hint(w.us[0]);
        continue;
      }
      if (w.us.empty()) continue;
      size_t which = op.kind == "adapt" ? (size_t)op.arg(1) % w.us.size() : (size_t)op.arg(2) % w.us.size();
      auto& u = w.us[which];
      if (u.done) continue;
      if (op.kind == "adapt") {
        if (u.m.layers.size() >= 6) continue;
        int kind = (int)op.arg(0), id = ids += 2; size_t n = (size_t)op.arg(1);
        bool both = u.m.both();
        if (u.node->both() != both) fail("C16", "double-ended", "whether an iterator can go backwards is wrong (%s)", w.about(u).c_str());
        if (kind >= 5 && kind <= 7 && !both) continue;
        Node* next = both ? adapt(Bottom(u.node.release()), kind, id, n) : adapt(BottomFwd{Bottom(u.node.release())}, kind, id, n);
        u.node.reset(next);
        switch (kind) {
          case 6: u.m.layers.push_back({5, id}); u.m.layers.push_back({5, id}); break;
          case 7: u.m.layers.push_back({0, id}); u.m.layers.push_back({5, id}); u.m.layers.push_back({1, id + 1}); u.m.layers.push_back({5, id}); break;
          case 8: u.m.layers.push_back({1, id}); u.m.layers.push_back({4, id, n}); u.m.layers.push_back({3, id}); break;
          case 9: u.m.layers.push_back({4, id, n + 1}); u.m.layers.push_back({0, id}); u.m.layers.push_back({4, id, n}); break;
          default: u.m.layers.push_back({kind, id, n});
        }
      } else if (op.kind == "next") w.take(u, false, "next()");
      else if (op.kind == "back") { if (u.m.both()) w.take(u, true, "next_back()"); }
      else if (op.kind == "copy") { if (w.us.size() < 4) { Using c; c.node.reset(u.node->clone()); c.m = u.m; w.us.push_back(std::move(c)); reach("copied"); } }
      else if (op.kind == "drop") { if (w.us.size() > 1) { w.us.erase(w.us.begin() + which); continue; } }
      else if (op.kind == "loop") w.finish(u, 3, (u64)op.arg(1));
      else if (op.kind == "drain") { for (int i = 0; i < 400 && u.m.left(); ++i) w.take(u, u.m.both() && ((op.arg(1) >> (i % 3) & 1) != (u.m.left() == 1 && (op.arg(2) & 1))), "draining"); for (int i = 0; i < 3; ++i) { w.take(u, false, "next() when exhausted"); if (u.m.both()) w.take(u, true, "next_back() when exhausted"); } }
      else if (op.kind == "finish") w.finish(u, (u64)op.arg(0), (u64)op.arg(1));
      if (which < w.us.size() && !w.us[which].done) { auto& v = w.us[which]; w.hint(v); u64 s = v.m.left() > 12 ? 12 : v.m.left(); for (auto& l : v.m.layers) s = mix2(s, l.kind); state(s); }
      if (++done == 3) nontrivial();
      note("%s %zu %zu", op.kind.c_str(), which, u.done ? 0 : u.m.left());
    }
    set_op(nullptr);
  }
  kept.clear();
  check_nothing_left("iterators");
}
RegisterWorld w1({"iter", gen, run, 0});
}  // namespace
}  // namespace sim

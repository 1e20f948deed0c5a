// World: histories of variants (best::choice) over lists of alternatives of
// every kind (C07; also C02, C03, C11).
#include <new>
#include <vector>
#include "sums.h"

namespace sim {
namespace {
constexpr int K = 4;
inline const void* first_addr() { return nullptr; }
template <typename A, typename... B> const void* first_addr(const A& a, const B&...) { return (const void*)&reinterpret_cast<const char&>(a); }
template <typename... Ts> struct ChoWorld {
  using C = best::choice<Ts...>;
  static constexpr int N = sizeof...(Ts);
  template <int n> using At = typename C::template type<n>;
  template <int n> using R = Tr<At<n>>;
  static constexpr bool Copy = ((Tr<Ts>::ref || Tr<Ts>::isvoid || std::is_copy_constructible_v<Ts>) && ...);
  struct M { bool up = false; int w = 0; i64 v = 0; };
  char room[K][sizeof(C) + 136];
  C* o[K] = {};
  M m[K];
  const Plan& plan;
  explicit ChoWorld(const Plan& p) : plan(p) {}

  template <typename F> static void at(int n, F f) { at_(n, f, std::make_index_sequence<N>{}); }
  template <typename F, size_t... i> static void at_(int n, F& f, std::index_sequence<i...>) { (void)((n == (int)i ? (f.template operator()<i>(), true) : false) || ...); }
  template <typename F> static void each(F f) { each_(f, std::make_index_sequence<N>{}); }
  template <typename F, size_t... i> static void each_(F& f, std::index_sequence<i...>) { (f.template operator()<i>(), ...); }
  static i64 norm(int n, i64 v) { i64 r = 0; at(n, [&]<size_t I>() { r = R<I>::norm(v); }); return r; }
  static bool hollow(const M& x) { bool r = false; at(x.w, [&]<size_t I>() { r = R<I>::hollow(x.v); }); return r; }

  void verify(int i, const char* when) {
    if (!m[i].up) return;
    C& x = *o[i]; const C& c = x;
    if ((int)c.which() != m[i].w) { fail("C07", "wrong-alternative", "%s: variant %d holds alternative %zu, expected %d", when, i, c.which(), m[i].w); m[i].w = (int)c.which(); return; }
    int present = 0;
    each([&]<size_t I>() {
      auto a = c.at(best::index<I>);
      bool is = (int)I == m[i].w;
      present += a.has_value();
      if (a.has_value() != is || c.object(best::index<I>).has_value() != is || std::move(x).object(best::index<I>).has_value() != is || std::move(c).object(best::index<I>).has_value() != is) { fail("C07,C11", "tag-disagrees", "%s: variant %d with alternative %d claims %s alternative %d", when, i, m[i].w, is ? "not to hold" : "to hold also", (int)I); return; }
      if constexpr (!R<I>::isvoid) {
        if ((c.as_ptr(best::index<I>) != nullptr) != is) fail("C07,C11", "tag-disagrees", "%s: as_ptr() disagrees with which()", when);
        if (!is) return;
        i64 v1 = R<I>::rd(c[best::index<I>]), v2 = R<I>::rd(x[best::index<I>]), v3 = R<I>::rd(*a), v4 = R<I>::rd(*x.as_ptr(best::index<I>));
        if (v1 != v2 || v1 != v3 || v1 != v4) fail("C07", "accessors-disagree", "%s: accessors of variant %d disagree", when, i);
        if (v1 != m[i].v) fail("C07", "wrong-value", "%s: variant %d holds %lld in alternative %d, expected %lld", when, i, (long long)v1, (int)I, (long long)m[i].v);
        // Reading through an rvalue moves nothing by itself.
        best::unsafe u("the alternative was checked");
        auto same = [&](auto&& r) { if (best::addr(r) != best::addr(x[best::index<I>])) fail("C07", "accessors-disagree", "%s: accessors of variant %d refer to different objects", when, i); };
        if constexpr (!R<I>::ref) {
          same(x.at(u, best::index<I>)); same(c.at(u, best::index<I>)); same(std::move(x).at(u, best::index<I>));
          same(std::move(x)[best::index<I>]);
          same(*x.at(best::index<I>)); same(*std::move(x).at(best::index<I>));
          same(*c.object(best::index<I>)->operator->()); same(*x.object(best::index<I>)->operator->());
          same(*std::move(x).object(best::index<I>)->operator->()); same(*std::move(c).object(best::index<I>)->operator->());
        }
      }
    });
    if (present != 1) fail("C07,C11", "tag-disagrees", "%s: variant %d claims %d alternatives", when, i, present);
  }
  void all(const char* when) { for (int i = 0; i < K; ++i) verify(i, when); }
  void gone(int i) { if (m[i].up) { o[i]->~C(); m[i] = {}; } }
  void moved_from(int i) {
    if ((int)o[i]->which() != m[i].w) {
      // Only allowed where emptiness is part of the representation.
      fail("C07", "wrong-alternative", "moving from variant %d changed its alternative", i);
      m[i].w = (int)o[i]->which();
    }
    at(m[i].w, [&]<size_t I>() {
      if constexpr (!R<I>::isvoid && !R<I>::inert) {
        i64 v = R<I>::rd((*o[i])[best::index<I>]);
        if (v != m[i].v && !R<I>::hollow(v)) fail("C07", "wrong-value", "a moved-from variant holds %lld, which was never stored in it", (long long)v);
        m[i].v = v;
      }
    });
  }
  template <size_t I> void build(void* p, C*& out, i64 val) {
    if constexpr (R<I>::isvoid) out = new (p) C(best::index<I>);
    else out = new (p) C(best::index<I>, R<I>::mk(val));
  }
  void run_op(const Op& op) {
    set_op(&op);
    int i = (int)(op.arg(0) % K), j = (int)(op.arg(1) % K);
    i64 val = op.arg(2), how = op.arg(3);
    int w = (int)(op.arg(4) % N);
    const std::string& k = op.kind;
    if (k == "new") {
      gone(i);
      char* p = room[i] + (64 - (u64)room[i] % 64) % 64;
      if (alignof(C) <= 8 && how % 2) p += 8;
      bool have_j = i != j && m[j].up;
      M n; n.up = true;
      if ((how / 2) % 4 == 1 && have_j && !hollow(m[j])) {
        if constexpr (Copy) { o[i] = new (p) C((const C&)*o[j]); n.w = m[j].w; n.v = m[j].v; m[i] = n; reach("copied"); nontrivial(); all("after construction"); return; }
      }
      if ((how / 2) % 4 == 2 && have_j) { o[i] = new (p) C(std::move(*o[j])); n.w = m[j].w; n.v = m[j].v; m[i] = n; moved_from(j); reach("moved"); all("after construction"); return; }
      at(w, [&]<size_t I>() { build<I>(p, o[i], val); });
      n.w = w; n.v = norm(w, val); m[i] = n;
      nontrivial();
      all("after construction");
      return;
    }
    if (k == "drop") { gone(i); return; }
    if (!m[i].up) return;
    C& x = *o[i];
    if (k == "emplace") {
      at(w, [&]<size_t I>() {
        if constexpr (R<I>::isvoid) x.template emplace<I>();
        else {
          auto&& r = x.template emplace<I>(best::index<I>, R<I>::mk(val));
          if (&r != x.as_ptr(best::index<I>)) fail("C07", "emplace-result", "emplace() returned another object");
        }
      });
      reach(w == m[i].w ? "assign-in-place" : "replace-alternative");
      m[i].w = w; m[i].v = norm(w, val);
    } else if (k == "copy") {
      if constexpr (Copy) {
        if (!m[j].up || hollow(m[j])) return;
        x = (const C&)*o[j];
        if (i == j) reach("self-copy");
        m[i].w = m[j].w; m[i].v = m[j].v;
      }
    } else if (k == "move") {
      if (!m[j].up) return;
      M src = m[j];
      x = std::move(*o[j]);
      if (i == j) reach("self-move"); else { m[i].w = src.w; m[i].v = src.v; moved_from(j); }
    } else if (k == "swap") {
      if (!m[j].up || i == j) return;
      using std::swap; swap(x, *o[j]); std::swap(m[i].w, m[j].w); std::swap(m[i].v, m[j].v);
    } else if (k == "match") {
      int calls = 0; i64 tag = -1, seen = 0;
      auto tell = [&](i64 t, i64 v) { ++calls; tag = t; seen = v; return t * 10 + 1; };
      const C& c = x;
      i64 got = 0;
      // One callable for all alternatives that are not void, one for void.
      auto arm = [&](auto t, auto&&... a) -> i64 {
        i64 v = 0;
        if constexpr (sizeof...(a) > 0) { v = (R<decltype(t)::value>::rd(a), ...); }
        return tell(t.value, v);
      };
      switch (how % 6) {
        case 0: got = c.index_match(arm); break;
        case 1: got = x.index_match(arm); break;
        case 2: got = std::move(x).index_match(arm); break;
        default: {
          auto arm2 = [&](auto&&... a) -> i64 { ++calls; tag = m[i].w; seen = m[i].v; got = 1;
            bool known = sizeof...(a) == 0;
            at(m[i].w, [&]<size_t I>() {
              if constexpr (!R<I>::isvoid && sizeof...(a) > 0) {
                const void* q = first_addr(a...); if (q != (const void*)x.as_ptr(best::index<I>)) fail("C07", "callback-value", "match() passed another object than the current alternative"); known = true; } });
            if (!known) fail("C07", "callback-value", "match() passed an object for the empty alternative");
            return (i64)m[i].w * 10 + 1; };
          got = how % 2 ? c.match(arm2) : x.match(arm2);
        }
      }
      if (calls != 1) fail("C07", "callback-count", "matching called %d functions", calls);
      if (tag != m[i].w || got != m[i].w * 10 + 1) fail("C07", "callback-value", "matching chose alternative %lld, expected %d", (long long)tag, m[i].w);
      if (seen != m[i].v) fail("C07", "callback-value", "matching passed %lld, expected %lld", (long long)seen, (long long)m[i].v);
    } else if (k == "permute") {
      if constexpr (Copy && N >= 2) {
        if (hollow(m[i])) return;
        permute(i, how, std::make_index_sequence<N>{});
      }
    } else if (k == "cmp") {
      if (!m[j].up || hollow(m[i]) || hollow(m[j])) return;
      if constexpr (((!Tr<Ts>::ref && !Tr<Ts>::isvoid) && ...)) {
        if constexpr ((best::equatable<Ts, Ts> && ...)) {
          bool eq = (const C&)x == (const C&)*o[j];
          if (eq != (m[i].w == m[j].w && m[i].v == m[j].v)) fail("C07", "comparison", "equality of variants is wrong");
        }
        if constexpr (((best::comparable<Ts, Ts> && !std::is_same_v<Ts, best::strbuf> && !std::is_same_v<Ts, Bx>) && ...)) {
          bool lt = (const C&)x < (const C&)*o[j];
          if (lt != (m[i].w < m[j].w || (m[i].w == m[j].w && m[i].v < m[j].v))) fail("C07", "comparison", "ordering of variants is wrong");
        }
      }
    } else if (k == "steal") {
      // Takes the payload out by moving.
      at(m[i].w, [&]<size_t I>() {
        if constexpr (!R<I>::isvoid && !R<I>::ref) {
          i64 want = m[i].v;
          auto a = std::move(x).at(best::index<I>);
          At<I> t(*std::move(a));
          if (R<I>::rd(t) != want && !R<I>::hollow(want)) fail("C07", "wrong-value", "moving out of a variant gave %lld instead of %lld", (long long)R<I>::rd(t), (long long)want);
          moved_from(i);
        }
      });
    } else if (k == "bad") {
      if (w == m[i].w) return;
      at(w, [&]<size_t I>() {
        if constexpr (R<I>::isvoid) sum_refused("access to an alternative that is not current", [&] { x[best::index<I>]; });
        else switch (how % 3) {
          case 0: sum_refused("access to an alternative that is not current", [&] { note("%lld", (long long)R<I>::rd(x[best::index<I>])); }); break;
          case 1: sum_refused("access to an alternative that is not current", [&] { note("%lld", (long long)R<I>::rd(((const C&)x)[best::index<I>])); }); break;
          default: sum_refused("access to an alternative that is not current", [&] { auto&& q = std::move(x)[best::index<I>]; note("%lld", (long long)R<I>::rd(q)); });
        }
      });
    } else return;
    u64 key = mix2(std::hash<std::string>()(k), how % 12);
    for (int q = 0; q < K; ++q) key = mix2(key, m[q].up ? 1 + m[q].w : 0);
    state(key);
    all("after the operation");
  }
  template <size_t... n> void permute(int i, i64 how, std::index_sequence<n...>) {
    // Reversal and rotation.
    auto look = [&](auto r, std::vector<size_t> ps) {
      int want = -1;
      for (int q = 0; q < N; ++q) if ((int)ps[q] == m[i].w) want = q;
      if ((int)r.which() != want) { fail("C07", "permute", "permuting a variant changed its alternative"); return; }
      r.index_match([&](auto t, auto&&... a) {
        if constexpr (sizeof...(a) > 0) { using T = typename decltype(r)::template type<decltype(t)::value>; i64 v = (Tr<T>::rd(a), ...); if (v != m[i].v) fail("C07", "permute", "permuting a variant changed its value"); }
      });
    };
    if (how % 2) look(((const C&)*o[i]).permute(best::vals<(N - 1 - n)...>), {(N - 1 - n)...});
    else look(((const C&)*o[i]).permute(best::vals<((n + 1) % N)...>), {((n + 1) % N)...});
    reach("permuted");
  }
  void run() {
    pool_up();
    int n = 0;
    for (auto& op : plan.ops) { run_op(op); if (++n == 3) nontrivial(); }
    set_op(nullptr);
    all("at the end");
    for (int i = 0; i < K; ++i) gone(i);
    pool_down();
    sum_leaks("variants");
  }
};

void gen_cho(Rng& r, Plan& p) {
  p.cfg["kind"] = r.below(8);
  int n = 3 + r.below(40);
  const char* kinds[] = {"new", "emplace", "copy", "move", "swap", "match", "permute", "cmp", "steal", "bad", "drop"};
  int w[] = {10, 18, 12, 12, 5, 10, 4, 4, 4, 5, 2};
  for (auto& x : w) if (r.chance(15)) x = 0;
  w[0] += 2; w[1] += 2;
  int tot = 0; for (int x : w) tot += x;
  for (int i = 0; i < K; ++i) p.add("new", {i, (i64)r.below(K), r.range(0, 20), (i64)r.below(16), (i64)r.below(60)});
  for (int i = 0; i < n; ++i) {
    int t = r.below(tot), k = 0; while (t >= w[k]) t -= w[k++];
    i64 a = r.below(K), b = r.chance(20) ? a : (i64)r.below(K);
    p.add(kinds[k], {a, b, r.chance(50) ? r.range(0, 20) : r.range(-100000, 100000), (i64)r.below(48), (i64)r.below(60)});
  }
}
void run_cho(const Plan& p) {
  reg.clear(); reg.props = reg.bytewise = "C02,C07";
  death_means("C07,C02,C03,C11");
  heap::on_free(reg_freed);
  switch (p.get("kind") % 8) {
    case 0: ChoWorld<Tracked>(p).run(); break;
    case 1: ChoWorld<void, Tracked, MoveOnly>(p).run(); break;
    case 2: ChoWorld<Tracked, Handle, int, Wide>(p).run(); break;
    case 3: ChoWorld<Bx, void>(p).run(); break;
    case 4: ChoWorld<NoAssign, Tracked, NoAssign>(p).run(); break;
    case 5: ChoWorld<Tracked&, Handle, i64&, best::strbuf>(p).run(); break;
    case 6: ChoWorld<int, bool, void, Tracked, i64&, Handle, best::strbuf, Bx, NoAssign, int>(p).run(); break;
    case 7: ChoWorld<best::strbuf, Bx>(p).run(); break;
  }
}
RegisterWorld w1({"cho", gen_cho, run_cho, 0});
}  // namespace
}  // namespace sim

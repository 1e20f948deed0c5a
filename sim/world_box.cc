// World: histories of owning pointers to objects, arrays and type-erased
// interfaces over a simulated allocator (C06; also C02, C03, C11).
#include <cstring>
#include <new>
#include <vector>
#include "elems.h"
#include "best/container/box.h"
#include "best/container/option.h"
#include "best/container/vec.h"
#include "best/func/dyn.h"

namespace sim {
namespace {
class Holder : public best::interface_base<Holder> {
 public:
  BEST_INTERFACE(Holder, (long, get, (), const), (void, set, (long v)), (long, tag, (), const));
};
class Extra : public best::interface_base<Extra> {
 public:
  BEST_INTERFACE(Extra, (long, bump, (long by, long& seen)), (const void*, where, (), const));
};
class Resets : public best::interface_base<Resets> {
 public:
  BEST_INTERFACE(Resets, (long, get, (), const), (void, set, (long v)), (void, reset, ()));
 private:
  void reset(best::defaulted) { set(get() + 1000); }
};
// Implementations with different sizes, alignments, lifetimes.
template <int Tag, typename M> struct Impl {
  M m;
  explicit Impl(i64 v) : m(v) {}
  long get() const { if constexpr (requires { m.check(""); }) m.check("call"); if constexpr (requires { m.t; }) { m.t.check("call"); return m.t.value; } else return m.value; }
  void set(long v) { if constexpr (requires { m.check(""); }) m.check("call"); if constexpr (requires { m.t; }) m.t.value = v; else m.value = v; }
  long tag() const { return Tag; }
  long bump(long by, long& seen) { seen = get(); set(get() + by); return seen + by; }
  const void* where() const { return this; }
};
struct Pod { i64 value; explicit Pod(i64 v) : value(v) {} };
struct Byte { signed char value; explicit Byte(i64 v) : value((signed char)v) {} };
struct Big { i64 pre[20]; Tracked t; i64 post[5]; explicit Big(i64 v) : t(v) { for (auto& x : pre) x = v; for (auto& x : post) x = ~v; }
  bool whole() const { for (auto& x : pre) if (x != pre[0]) return false; for (auto& x : post) if (x != ~pre[0]) return false; return true; } };
using I0 = Impl<0, Pod>; using I1 = Impl<1, Tracked>; using I2 = Impl<2, Wide>; using I3 = Impl<3, Handle>; using I4 = Impl<4, MoveOnly>; using I5 = Impl<5, Big>; using I6 = Impl<6, Byte>;
constexpr int Types = 7;
i64 norm(int t, i64 v) { return t == 6 ? (signed char)v : v; }
template <typename F> void with_type(int t, F f) {
  switch (t % Types) {
    case 0: f.template operator()<I0>(); break; case 1: f.template operator()<I1>(); break;
    case 2: f.template operator()<I2>(); break; case 3: f.template operator()<I3>(); break;
    case 4: f.template operator()<I4>(); break; case 5: f.template operator()<I5>(); break;
    case 6: f.template operator()<I6>(); break;
  }
}
using Dyn = best::dyn<Holder, Extra>;

enum { None, Live, Gone };   // no pointer; owns a value; moved-from
struct Model { int st = None; int type = 0; std::vector<i64> v; };
constexpr int K = 4;

template <typename F> bool refused(const char* prop, const char* what, F f) {
  err.clear();
  int st = run_process(f);
  if (st == -1) { fail(prop, "not-refused", "%s was not refused", what); return false; }
  if (st != 128) fail("C11,C10", "refused-status", "%s ended the process with status %d", what, st);
  else if (err.data.empty()) fail("C11,C10", "refused-silent", "%s ended the process without a diagnostic", what);
  reach("refused-access");
  return true;
}

// ---------------------------------------------------------------- policies
// What differs between kinds of pointee.
template <typename T_, typename A_> struct Thin {
  using T = T_; using A = A_; using B = best::box<T, A>;
  static constexpr bool array = false, dyn = false, copyable = std::is_copy_constructible_v<T>;
  static A al(int id) { if constexpr (std::is_same_v<A, SimAlloc>) return SimAlloc{id}; else return A{}; }
  static void make(void* p, int id, int type, const std::vector<i64>& v) { new (p) B(al(id), best::in_place, v[0]); }
  static std::vector<i64> values(const B& b) { return {(*b).get()}; }
  static int type(const B& b) { return (int)(*b).tag(); }
  static void set(B& b, size_t, i64 v, int how) { if (how % 2) b->set(v); else (*b).set(v); }
  static const void* addr(const B& b) { return &*b; }
};
template <typename A_> struct Arr {
  using T = I1[]; using A = A_; using B = best::box<I1[], A>;
  static constexpr bool array = true, dyn = false, copyable = true;
  static A al(int id) { if constexpr (std::is_same_v<A, SimAlloc>) return SimAlloc{id}; else return A{}; }
  static void make(void* p, int id, int, const std::vector<i64>& v) {
    std::vector<I1> e; e.reserve(v.size()); for (i64 x : v) e.emplace_back(x);
    new (p) B(al(id), best::in_place, best::span<const I1>(e.data(), e.size()));
  }
  static std::vector<i64> values(const B& b) { std::vector<i64> r; auto sp = *b; for (size_t i = 0; i < sp.size(); ++i) r.push_back(sp[i].get()); return r; }
  static int type(const B&) { return 1; }
  static void set(B& b, size_t i, i64 v, int how) { if (how % 2) b[i].set(v); else (*b)[i].set(v); }
  static const void* addr(const B& b) { return (*b).data().raw(); }
};
template <typename A_> struct Erased {
  using T = Dyn; using A = A_; using B = best::box<Dyn, A>;
  static constexpr bool array = false, dyn = true, copyable = true;
  static A al(int id) { if constexpr (std::is_same_v<A, SimAlloc>) return SimAlloc{id}; else return A{}; }
  static void make(void* p, int id, int type, const std::vector<i64>& v) {
    with_type(type, [&]<typename I>() {
      if constexpr (std::is_same_v<A, SimAlloc>) new (p) B(al(id), best::in_place, I(v[0]));
      else { best::box<I> b(v[0]); new (p) B(std::move(b)); }
    });
  }
  static std::vector<i64> values(const B& b) { return {b[best::types<Holder>]->get()}; }
  static int type(const B& b) { return (int)Holder::of(b)->tag(); }
  static void set(B& b, size_t, i64 v, int how) {
    if (how % 3 == 0) b[best::types<Holder>]->set(v);
    else if (how % 3 == 1) Holder::of(b)->set(v);
    else { best::dynptr<Holder, Extra> p = b; p[best::types<Holder>]->set(v); }
  }
  static const void* addr(const B& b) { return b.as_ptr().raw(); }
};

template <typename P> struct BoxWorld {
  using B = typename P::B; using A = typename P::A;
  static constexpr bool SimA = std::is_same_v<A, SimAlloc>;
  B* b[K] = {};
  Model m[K];
  const Plan& plan;
  explicit BoxWorld(const Plan& p) : plan(p) {}

  void drop(int i) {
    if (!b[i]) return;
    b[i]->~B(); reg_freed((u64)b[i], sizeof(B)); ::operator delete((void*)b[i]);
    b[i] = nullptr; m[i] = Model();
  }
  template <typename F> void build(int i, F f) { drop(i); void* p = ::operator new(sizeof(B)); memset(p, 0xEE, sizeof(B)); f(p); b[i] = (B*)p; }
  std::vector<i64> seq(i64 base, i64 n, int type) { std::vector<i64> r; for (i64 k = 0; k < n; ++k) r.push_back(norm(type, base + k)); return r; }

  void verify(int i, const char* when) {
    if (!b[i] || m[i].st != Live) return;
    const B& x = *b[i];
    int t = P::type(x);
    if (t != m[i].type) { fail("C06", "dynamic-type", "%s: pointer %d reaches the implementation of type %d, but holds a value of type %d", when, i, t, m[i].type); m[i].type = t; }
    auto v = P::values(x);
    if (v != m[i].v) { fail("C06", "value", "%s: pointer %d owns %zu values starting %lld, expected %zu starting %lld", when, i, v.size(), v.empty() ? 0ll : (long long)v[0], m[i].v.size(), m[i].v.empty() ? 0ll : (long long)m[i].v[0]); m[i].v = v; }
    const void* a = P::addr(x);
    if (!(P::array && m[i].v.empty())) {
      Block* blk = heap::containing(a);
      if (!blk || blk->is_static) fail("C06,C03", "storage", "%s: the owned value does not live in memory that is currently allocated", when);
      else if (SimA) {
        if (blk->size != x.layout().size() || blk->align != x.layout().align()) fail("C06,C03", "layout", "%s: the owned value's block has %zu:%zu but the pointer reports %zu:%zu", when, blk->size, blk->align, x.layout().size(), x.layout().align());
        if constexpr (SimA) if (blk->owner != x.allocator().id) fail("C03", "storage-owner", "%s: a pointer with allocator %d owns a block of allocator %d", when, x.allocator().id, blk->owner);
      }
      for (int j = 0; j < K; ++j)
        if (j != i && b[j] && m[j].st == Live && !(P::array && m[j].v.empty()) && P::addr(*b[j]) == a) fail("C06,C02", "shared", "%s: pointers %d and %d own the same value", when, i, j);
    }
    if constexpr (P::dyn) {
      if (x[best::types<Extra>]->where() != a) fail("C06", "this", "%s: a call through the pointer received another object", when);
      if (x.as_ptr().can_copy() != (m[i].type != 4)) fail("C06", "can-copy", "can_copy() is wrong for type %d", m[i].type);
    }
    note("box %d type %d n %zu", i, m[i].type, m[i].v.size());
  }
  void verify_all(const char* when) {
    u64 key = 0;
    size_t tracked = 0, movable = 0;
    for (int i = 0; i < K; ++i) { verify(i, when); key = key * 64 + (b[i] ? m[i].st * 20 + m[i].type + (P::array ? (m[i].v.size() < 9 ? m[i].v.size() : 9) : 0) : 63);
      if (b[i] && m[i].st == Live) { int t = m[i].type; if (t == 1 || t == 2 || t == 5 || t == 4 || t == 3) tracked += P::array ? m[i].v.size() : 1; } }
    (void)movable;
    state(mix2(key, (u64)plan.get("kind")));
    if (reg.alive() != tracked) fail("C06,C02", "alive", "%s: %zu owned objects are alive, expected %zu", when, reg.alive(), tracked);
  }

  void step(const Op& o) {
    set_op(&o);
    const std::string& k = o.kind;
    int i = (int)((u64)o.arg(0) % K), j = (int)((u64)o.arg(1) % K);
    i64 a = o.arg(2), c = o.arg(3), val = o.uid * 100 + (o.uid % 90);
    if (k == "new") {
      int type = P::dyn ? (int)(a % Types) : P::array ? 1 : (int)plan.get("type");
      auto v = seq(val, P::array ? c % 9 : 1, type);
      build(i, [&](void* p) { P::make(p, (int)(c % 3), type, v); });
      m[i] = {Live, type, v};
    } else if (k == "drop") drop(i);
    else if (k == "copynew") {
      if (i == j || m[j].st != Live) return;
      bool can = m[j].type != 4;
      if constexpr (best::copyable<B>) if (a % 2 == 0) {
        build(i, [&](void* p) { new (p) B((const B&)*b[j]); });
        m[i] = m[j]; reach("copied"); verify_all("copynew"); return;
      }
      {
        auto r = ((const B*)b[j])->try_copy();
        if (r.has_value() != can) fail("C06", "try-copy", "try_copy() of a value of type %d %s", m[j].type, r.has_value() ? "succeeded" : "failed");
        if (r.has_value()) { build(i, [&](void* p) { new (p) B(std::move(*r)); }); m[i] = m[j]; reach("try-copied"); }
        else reach("try-copy-refused");
      }
    } else if (k == "movenew") {
      if (i == j || m[j].st == None) return;
      build(i, [&](void* p) { new (p) B(std::move(*b[j])); });
      m[i] = m[j]; if (m[j].st == Live) { m[j].st = Gone; }
    } else if (k == "copy") {
      if (!b[i] || m[i].st == None || m[j].st != Live) return;
      if constexpr (requires(B& x, const B& y) { x = y; }) {
        if (m[i].st == Gone) reach("copy-over-moved-from");
        if (i == j) reach("self-copy");
        *b[i] = (const B&)*b[j];
        m[i] = Model(m[j]);
      }
    } else if (k == "move") {
      if (!b[i] || m[i].st == None || m[j].st == None) return;
      if (i == j) { B& r = *b[i]; *b[i] = std::move(r); reach("self-move"); }
      else {
        if (m[i].type != m[j].type && m[i].st == Live && m[j].st == Live) reach("assign-other-type");
        *b[i] = std::move(*b[j]);
        m[i] = m[j]; if (m[j].st == Live) m[j].st = Gone;
      }
    } else if (k == "assign-new") {   // from a temporary
      if (!b[i]) return;
      int type = P::dyn ? (int)(a % Types) : P::array ? 1 : (int)plan.get("type");
      auto v = seq(val, P::array ? c % 9 : 1, type);
      alignas(B) char tmp[sizeof(B)];
      P::make(tmp, (int)(c % 3), type, v);
      B& t = *(B*)tmp;
      if (m[i].type != type && m[i].st == Live) reach("assign-other-type");
      *b[i] = std::move(t);
      t.~B();
      m[i] = {Live, type, v};
    } else if (k == "set") {
      if (m[i].st != Live || m[i].v.empty()) return;
      size_t q = (size_t)a % m[i].v.size();
      P::set(*b[i], q, norm(m[i].type, val), (int)c);
      m[i].v[q] = norm(m[i].type, val);
    } else if (k == "bump") {
      if constexpr (P::dyn) {
        if (m[i].st != Live) return;
        long seen = -5, r = Extra::of(*b[i])->bump(a, seen);
        if (seen != m[i].v[0] || r != m[i].v[0] + a) fail("C06", "call", "a call through the pointer returned %ld and wrote %ld", r, seen);
        m[i].v[0] = norm(m[i].type, m[i].v[0] + a);
      }
      if constexpr (!P::dyn && !P::array && SimA) {
        if (m[i].st != Live) return;
        Resets::of(**b[i])->reset();
        m[i].v[0] += 1000;
        best::dynptr<Resets> p = &**b[i];
        if (p->get() != m[i].v[0]) fail("C06", "default-method", "a defaulted interface method reached another object");
      }
    } else if (k == "raw") {   // explode and rebuild
      if (m[i].st != Live || (P::array && m[i].v.empty())) return;
      auto parts = std::move(*b[i]).into_raw();
      auto ptr = parts[best::index<0>]; auto alloc = parts[best::index<1>];
      Model mm = m[i]; m[i].st = Gone;
      build(j, [&](void* p) { new (p) B(best::unsafe("just exploded"), alloc, ptr); });
      m[j] = mm; reach("raw-round-trip");
    } else if (k == "swap") {
      if (!b[i] || !b[j] || i == j) return;
      std::swap(*b[i], *b[j]); std::swap(m[i], m[j]);
    } else if (k == "option") {
      if (!b[i] || m[i].st != Live) return;
      best::option<B> opt(std::move(*b[i]));
      m[i].st = Gone;
      if (!opt.has_value()) fail("C07,C06", "option", "an optional made from a pointer is empty");
      if (P::values(*opt) != m[i].v) fail("C07,C06", "option-value", "an optional made from a pointer holds another value");
      if (a % 3 == 0) { best::option<B> o2 = std::move(opt); opt = best::none; opt = std::move(o2); }
      if (a % 3 == 1) { B t = std::move(opt).value(); opt.reset(); if (opt.has_value()) fail("C07", "reset", "an optional still holds a pointer after reset()"); opt.emplace(std::move(t)); }
      if (a % 7 == 2) { opt = best::none; if (opt.has_value()) fail("C07", "reset", "an optional assigned none has a value"); m[i].v.clear(); }
      else { Model mm = m[i]; build(i, [&](void* p) { new (p) B(std::move(*opt)); }); m[i] = mm; m[i].st = Live; }
      if (m[i].st == Gone) m[i].v.clear();
    } else if (k == "vec") {
      // Through containers of owning pointers.
      best::vec<B, 2, SimAlloc> v(SimAlloc{7});
      int n = 0; Model mm[K]; int idx[K];
      for (int q = 0; q < K; ++q) if (b[q] && m[q].st == Live) { v.insert((size_t)a % (v.size() + 1), std::move(*b[q])); int at = (int)((u64)a % (u64)(n + 1)); for (int z = n; z > at; --z) { mm[z] = mm[z - 1]; idx[z] = idx[z - 1]; } mm[at] = m[q]; idx[at] = q; ++n; m[q].st = Gone; }
      if ((int)v.size() != n) { fail("C01,C06", "vec-size", "an array of owning pointers has the wrong size"); return; }
      if (n && c % 2) { int at = (int)((u64)c % (u64)n); v.erase({.start = (size_t)at, .count = 1}); for (int z = at; z + 1 < n; ++z) { mm[z] = mm[z + 1]; idx[z] = idx[z + 1]; } --n; }
      for (int z = 0; z < n; ++z) {
        B t = std::move(v[z]);
        build(idx[z], [&](void* p) { new (p) B(std::move(t)); });
        m[idx[z]] = mm[z];
      }
      reach("in-container");
    } else if (k == "bad") {
      if (!b[i]) return;
      if constexpr (P::array) {
        size_t n = m[i].st == Live ? m[i].v.size() : 0;
        size_t q = c % 3 == 0 ? n : c % 3 == 1 ? ~size_t{0} : n + a % 5;
        refused("C11", "an array pointer's index outside", [&] { i64 x = (*b[i])[q].get(); note("read %lld", (long long)x); });
        if ((*(const B&)*b[i]).at(q).has_value()) fail("C11", "at-oob", "at() of a non-existent index is present");
      } else if (m[i].st == Gone && best::is_debug()) {
        refused("C11,C06", "use of a moved-from pointer", [&] { auto v = P::values(*b[i]); note("read %lld", (long long)v[0]); });
      }
    }
    verify_all(k.c_str());
  }

  static void go(const Plan& p) {
    death_means("C06,C02,C03,C11");
    BoxWorld w(p);
    reg.clear(); reg.props = reg.bytewise = "C02,C06"; heap::on_free(reg_freed);
    for (auto& o : p.ops) w.step(o);
    Op fin; fin.kind = "teardown"; fin.uid = 999999; set_op(&fin);
    i64 order = p.get("order");
    for (int i = 0; i < K; ++i) w.drop(order ? K - 1 - i : i);
    check_nothing_left("owning pointers");
    if (p.ops.size() >= 3) nontrivial();
  }
};

// ---------------------------------------------------------------- chains
// A recursive structure: each node owns the next, through a type-erased pointer.
struct Slot;
class NodeI : public best::interface_base<NodeI> {
 public:
  BEST_INTERFACE(NodeI, (i64, get, (), const), (Slot*, next, ()));
};
using Link = best::option<best::dynbox<NodeI>>;
struct Slot { Link l; };
template <int Pad> struct Node {
  Tracked v; char pad[Pad]; Slot s;
  explicit Node(i64 x) : v(x) {}
  Node(const Node&) = delete;
  i64 get() const { v.check("read"); return v.value; }
  Slot* next() { return &s; }
};
Link& next_of(Link& l) { return (*l)->next()->l; }
Link take(Link& l) { Link t = std::move(l); l.reset(); return t; }
best::dynbox<NodeI> fresh(i64 v) {
  if (v % 3 == 0) return best::box<Node<1>>(v);
  if (v % 3 == 1) return best::box<Node<70>>(v);
  return best::box<Node<400>>(v);
}
struct ChainWorld {
  Link head[2];
  std::vector<i64> m[2];
  void verify(const char* when) {
    size_t all = 0;
    for (int c = 0; c < 2; ++c) {
      std::vector<i64> got;
      Link* l = &head[c];
      while (l->has_value() && got.size() < 200) { got.push_back((**l)->get()); l = &next_of(*l); }
      if (got != m[c]) { fail("C06,C07", "chain", "%s: chain %d has %zu nodes, expected %zu", when, c, got.size(), m[c].size()); m[c] = got; }
      note("chain %zu", got.size());
      all += m[c].size();
    }
    if (reg.alive() != all) fail("C06,C02", "alive", "%s: %zu nodes alive, expected %zu", when, reg.alive(), all);
    state(mix2(m[0].size(), m[1].size()));
  }
  Link* at(int c, size_t i) { Link* l = &head[c]; while (i--) l = &next_of(*l); return l; }
  void step(const Op& o) {
    set_op(&o);
    const std::string& k = o.kind;
    int c = (int)(o.arg(0) & 1); auto& mm = m[c];
    size_t n = mm.size();
    i64 a = o.arg(1), val = o.uid * 10 + o.uid % 7;
    if (k == "push") { auto x = fresh(val); x->next()->l = std::move(head[c]); head[c] = std::move(x); mm.insert(mm.begin(), val); }
    else if (k == "insert") { size_t q = (size_t)a % (n + 1); Link* l = at(c, q); auto x = fresh(val); x->next()->l = take(*l); *l = std::move(x); mm.insert(mm.begin() + q, val); }
    else if (k == "pop") { if (n < 1) return; Link rest = take(next_of(head[c])); head[c] = std::move(rest); mm.erase(mm.begin()); }
    else if (k == "drop-front") {  // the owner is overwritten with something its value owns
      if (n < 2) return;
      auto& h = *head[c]; h = std::move(*h->next()->l); mm.erase(mm.begin()); reach("assign-from-owned");
    }
    else if (k == "remove") { if (!n) return; size_t q = (size_t)a % n; Link* l = at(c, q); Link rest = take(next_of(*l)); *l = std::move(rest); mm.erase(mm.begin() + q); }
    else if (k == "cut") { size_t q = (size_t)a % (n + 1); Link* l = at(c, q); if (o.arg(2) % 2) *l = best::none; else l->reset(); mm.resize(q); }
    else if (k == "graft") {  // move the tail of one chain to the end of the other
      size_t q = (size_t)a % (n + 1); int d = 1 - c;
      if (m[d].size() > 60) return;
      Link t = take(*at(c, q)); Link* e = at(d, m[d].size()); *e = std::move(t);
      m[d].insert(m[d].end(), mm.begin() + q, mm.end()); mm.resize(q);
    }
    else if (k == "swap") { std::swap(head[0], head[1]); std::swap(m[0], m[1]); }
    verify(k.c_str());
  }
  static void go(const Plan& p) {
    death_means("C06,C02,C03");
    reg.clear(); reg.props = reg.bytewise = "C02,C06"; heap::on_free(reg_freed);
    {
      ChainWorld w;
      for (auto& o : p.ops) w.step(o);
    }
    check_nothing_left("chains");
    if (p.ops.size() >= 3) nontrivial();
  }
};

void run(const Plan& p) {
  switch (p.get("kind")) {
    case 0: BoxWorld<Thin<I1, SimAlloc>>::go(p); break;
    case 1: BoxWorld<Arr<SimAlloc>>::go(p); break;
    case 2: BoxWorld<Erased<SimAlloc>>::go(p); break;
    case 3: BoxWorld<Erased<best::malloc>>::go(p); break;
    case 4: BoxWorld<Thin<I2, SimAlloc>>::go(p); break;
    case 5: BoxWorld<Arr<best::malloc>>::go(p); break;
    case 6: BoxWorld<Thin<I4, SimAlloc>>::go(p); break;
    case 7: ChainWorld::go(p); break;
  }
}
void gen(Rng& r, Plan& p) {
  int kind = (int)r.below(8);
  p.cfg["kind"] = kind; p.cfg["order"] = (i64)r.below(2);
  p.cfg["type"] = kind == 4 ? 2 : kind == 6 ? 4 : 1;
  int n = r.chance(50) ? 3 + (int)r.below(9) : 8 + (int)r.below(40);
  if (kind == 7) {
    static const char* ks[] = {"push", "push", "push", "insert", "insert", "pop", "drop-front", "remove", "cut", "graft", "swap"};
    for (int i = 0; i < n; ++i) p.add(ks[r.below(11)], {(i64)r.below(2), (i64)r.below(32), (i64)r.below(8)});
    return;
  }
  static const char* all[] = {"drop", "copynew", "copynew", "movenew", "copy", "copy", "move", "move", "assign-new", "set", "bump", "raw", "swap", "option", "vec", "bad"};
  std::vector<const char*> use; int keep = 40 + (int)r.below(60);
  for (auto k : all) if (r.chance(keep)) use.push_back(k);
  use.push_back("new"); use.push_back("new"); use.push_back("copy");
  int slots = 2 + (int)r.below(3);
  for (int i = 0; i < n; ++i) p.add(i < 2 ? "new" : r.pick(use), {i < 2 ? i : (i64)r.below(slots), (i64)r.below(slots), (i64)r.below(64), (i64)r.below(64)});
}
RegisterWorld w1({"box", gen, run, 0});
}  // namespace
}  // namespace sim

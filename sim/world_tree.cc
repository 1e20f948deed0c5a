// World: histories of trees whose nodes own each other through arrays, variants
// and optionals, so that what is assigned may belong to what is assigned to
// (C02; also C01, C03, C07).
#include <memory>
#include <vector>
#include "elems.h"
#include "best/container/box.h"
#include "best/container/choice.h"
#include "best/container/option.h"
#include "best/container/vec.h"
#include "best/func/dyn.h"

namespace sim {
namespace {
struct Branches;
class TreeI : public best::interface_base<TreeI> {
 public:
  BEST_INTERFACE(TreeI, (i64, get, (), const), (Branches*, below, ()));
};
using Own = best::dynbox<TreeI>;
struct Twig { Own own; Tracked mark; };           // moved by its own constructor
using Near = best::choice<Tracked, Own, best::vec<Own, 1, SimAlloc>>;
using Shared = std::shared_ptr<struct Leaf>;
using Var = best::choice<Tracked, Shared, Handle>;
struct Leaf { Tracked v; Var c; explicit Leaf(i64 x) : v(x), c(best::index<0>, x + 1) {} };
struct Branches {
  best::vec<Own, 2, SimAlloc> kids{SimAlloc{1}};
  best::vec<Twig, 1, SimAlloc> twigs{SimAlloc{2}};
  best::vec<Own, 0, SimAlloc> rest{SimAlloc{3}};
  Near near;
  Var var;
  explicit Branches(i64 x) : near(best::index<0>, x), var(best::index<0>, x) {}
};
template <int Pad> struct Bough {
  Tracked v; char pad[Pad]; Branches b;
  explicit Bough(i64 x) : v(x), b(x) {}
  Bough(const Bough&) = delete;
  i64 get() const { v.check("read"); return v.value; }
  Branches* below() { return &b; }
};
Own fresh(i64 v) {
  if (v % 2) return best::box<Bough<1>>(v);
  return best::box<Bough<300>>(v);
}

// The same, in plain terms.
struct Model {
  i64 v = 0;
  std::vector<Model> kids, twigs, rest, nearv;  // twigs: the mark is v + 5
  int near = 0; i64 nearx = 0; 
  std::vector<i64> var;                         // a chain of values; the last is the end
  int varend = 0;
};
Model leaf(i64 v) { Model m; m.v = v; m.nearx = v; m.var = {v}; return m; }

struct TreeWorld {
  Branches root{1};
  Model m = leaf(1);
  size_t tracked = 0, handles = 0;

  struct At { Branches* b; Model* m; };
  void list(Branches& b, Model& mm, std::vector<At>& out) {
    out.push_back({&b, &mm});
    for (size_t i = 0; i < mm.kids.size(); ++i) list(*b.kids[i]->below(), mm.kids[i], out);
    for (size_t i = 0; i < mm.twigs.size(); ++i) list(*b.twigs[i].own->below(), mm.twigs[i], out);
    for (size_t i = 0; i < mm.rest.size(); ++i) list(*b.rest[i]->below(), mm.rest[i], out);
    if (mm.near == 1) list(*b.near[best::index<1>]->below(), mm.nearv[0], out);
    if (mm.near == 2) for (size_t i = 0; i < mm.nearv.size(); ++i) list(*b.near[best::index<2>][i]->below(), mm.nearv[i], out);
  }
  template <typename V> bool array(const char* what, V& v, std::vector<Model>& mm, auto own, const char* when) {
    if (v.size() != mm.size()) { fail("C01,C02", "tree", "%s: %s hold %zu nodes, expected %zu", when, what, v.size(), mm.size()); return false; }
    for (size_t i = 0; i < mm.size(); ++i) if (!node(own(v[i]), mm[i], when)) return false;
    return true;
  }
  bool node(Own& o, Model& mm, const char* when) {
    i64 got = o->get();
    if (got != mm.v) { fail("C01,C02,C06,C07", "tree", "%s: a node holds %lld, expected %lld", when, (long long)got, (long long)mm.v); return false; }
    ++tracked;
    return branches(*o->below(), mm, when);
  }
  bool branches(Branches& b, Model& mm, const char* when) {
    auto id = [](Own& o) -> Own& { return o; };
    if (!array("kids", b.kids, mm.kids, id, when)) return false;
    bool marks = true;
    if (!array("twigs", b.twigs, mm.twigs, [&](Twig& t) -> Own& { t.mark.check("read"); marks &= t.mark.value == t.own->get() + 5; ++tracked; return t.own; }, when)) return false;
    if (!marks) { fail("C01,C02", "tree", "%s: a twig's mark is not its own", when); return false; }
    if (!array("rest", b.rest, mm.rest, id, when)) return false;
    if ((int)b.near.which() != mm.near) { fail("C07", "tree", "%s: a variant holds alternative %zu, expected %d", when, b.near.which(), mm.near); return false; }
    if (mm.near == 0) {
      auto& t = b.near[best::index<0>]; t.check("read"); ++tracked;
      if (t.value != mm.nearx) { fail("C07", "tree", "%s: a variant holds %lld, expected %lld", when, (long long)t.value, (long long)mm.nearx); return false; }
    }
    if (mm.near == 1 && !node(b.near[best::index<1>], mm.nearv[0], when)) return false;
    if (mm.near == 2 && !array("a variant's nodes", b.near[best::index<2>], mm.nearv, id, when)) return false;
    Var* v = &b.var;
    for (size_t i = 0; i + 1 < mm.var.size(); ++i) {
      if (v->which() != 1) { fail("C07", "tree", "%s: a variant in a chain holds alternative %zu, expected a link", when, v->which()); return false; }
      Leaf& l = *(*v)[best::index<1>];
      l.v.check("read"); ++tracked;
      if (l.v.value != mm.var[i]) { fail("C07", "tree", "%s: a chain of variants holds %lld, expected %lld", when, (long long)l.v.value, (long long)mm.var[i]); return false; }
      v = &l.c;
    }
    if ((int)v->which() != mm.varend) { fail("C07", "tree", "%s: a chain of variants ends in alternative %zu, expected %d", when, v->which(), mm.varend); return false; }
    i64 end;
    if (mm.varend == 0) { auto& t = (*v)[best::index<0>]; t.check("read"); end = t.value; ++tracked; } else { auto& h = (*v)[best::index<2>]; h.check("read"); end = h.value; ++handles; }
    if (end != mm.var.back()) { fail("C07", "tree", "%s: a chain of variants ends in %lld, expected %lld", when, (long long)end, (long long)mm.var.back()); return false; }
    return true;
  }
  void verify(const char* when) {
    tracked = handles = 0;
    if (!branches(root, m, when)) return;
    if (reg.alive() != tracked + handles) fail("C02", "alive", "%s: %zu objects alive, expected %zu", when, reg.alive(), tracked + handles);
    std::vector<At> all; list(root, m, all);
    state(mix2(all.size(), mix2(m.kids.size(), m.near)));
    note("tree %zu", all.size());
  }
  void step(const Op& o) {
    set_op(&o);
    const std::string& k = o.kind;
    std::vector<At> all; list(root, m, all);
    At a = all[(size_t)o.arg(0) % all.size()];
    Branches& b = *a.b; Model& mm = *a.m;
    i64 val = o.uid * 10;
    size_t pick = (size_t)o.arg(1);
    if (k == "kid") { if (all.size() > 60) return; val += pick % 3; b.kids.push(fresh(val)); mm.kids.push_back(leaf(val)); }
    else if (k == "twig") { if (all.size() > 60) return; val += pick % 3; b.twigs.push(Twig{fresh(val), Tracked(val + 5)}); mm.twigs.push_back(leaf(val)); }
    else if (k == "rest") { if (all.size() > 60) return; val += pick % 3; b.rest.push(fresh(val)); mm.rest.push_back(leaf(val)); }
    else if (k == "hoist-kids") {  // an array is replaced with one that an element of it owns
      if (mm.kids.empty()) return;
      size_t i = pick % mm.kids.size();
      b.kids = std::move(b.kids[i]->below()->kids);
      auto t = std::move(mm.kids[i].kids); mm.kids = std::move(t); reach("assign-from-owned");
    }
    else if (k == "hoist-twigs") {
      if (mm.twigs.empty()) return;
      size_t i = pick % mm.twigs.size();
      b.twigs = std::move(b.twigs[i].own->below()->twigs);
      auto t = std::move(mm.twigs[i].twigs); mm.twigs = std::move(t); reach("assign-from-owned");
    }
    else if (k == "hoist-rest") {
      if (mm.rest.empty()) return;
      size_t i = pick % mm.rest.size();
      b.rest = std::move(b.rest[i]->below()->rest);
      auto t = std::move(mm.rest[i].rest); mm.rest = std::move(t); reach("assign-from-owned");
    }
    else if (k == "near") {
      if (all.size() > 60) return;
      int w = (int)(pick % 3);
      if (w == 0) { b.near = Near(best::index<0>, val); mm.nearv.clear(); mm.nearx = val; }
      else if (w == 1) { val += 1; b.near = Near(best::index<1>, fresh(val)); mm.nearv.clear(); mm.nearv.push_back(leaf(val)); }
      else {
        best::vec<Own, 1, SimAlloc> v{SimAlloc{4}}; mm.nearv.clear();
        for (int i = 0; i < (int)(o.arg(2) % 4); ++i) { v.push(fresh(val + i)); mm.nearv.push_back(leaf(val + i)); }
        b.near = Near(best::index<2>, std::move(v));
      }
      mm.near = w;
    }
    else if (k == "hoist-near") {  // a variant is replaced with one that its value owns
      if (mm.near == 0 || mm.nearv.empty()) return;
      size_t i = pick % mm.nearv.size();
      Branches* src = mm.near == 1 ? b.near[best::index<1>]->below() : b.near[best::index<2>][i]->below();
      int was = mm.near;
      Model t = std::move(mm.nearv[i]);
      if (was == 2 && t.near == 2) {}
      b.near = std::move(src->near);
      mm.near = t.near; mm.nearx = t.nearx; auto tv = std::move(t.nearv); mm.nearv = std::move(tv); reach("variant-from-owned");
    }
    else if (k == "link") {  // one more link at the front of a chain of variants
      if (mm.var.size() > 12) return;
      auto l = std::make_shared<Leaf>(val);
      l->c = std::move(b.var);
      b.var = Var(best::index<1>, std::move(l));
      mm.var.insert(mm.var.begin(), val);
    }
    else if (k == "end") { mm.var = {val}; mm.varend = pick % 2 ? 0 : 2; if (mm.varend) b.var = Var(best::index<2>, val); else b.var = Var(best::index<0>, val); }
    else if (k == "unlink") {  // a variant is replaced with one that only its value keeps alive
      if (mm.var.size() < 2) return;
      if (pick % 2) b.var = std::move(b.var[best::index<1>]->c);
      else b.var = b.var[best::index<1>]->c;
      mm.var.erase(mm.var.begin()); reach("variant-from-owned");
    }
    else if (k == "cut") {
      if (!mm.kids.empty()) { size_t i = pick % mm.kids.size(); b.kids.erase({.start = i, .count = 1}); mm.kids.erase(mm.kids.begin() + i); }
    }
    else if (k == "adopt") {  // a child's children join its siblings
      if (mm.kids.empty()) return;
      size_t i = pick % mm.kids.size();
      auto t = std::move(b.kids[i]->below()->kids);
      auto tm = std::move(mm.kids[i].kids); mm.kids[i].kids.clear();
      for (size_t q = 0; q < tm.size(); ++q) { b.kids.push(std::move(t[q])); mm.kids.push_back(std::move(tm[q])); }
    }
    verify(k.c_str());
  }
  static void go(const Plan& p) {
    death_means("C01,C02,C03,C07");
    reg.clear(); heap::on_free(reg_freed);
    {
      TreeWorld w;
      for (auto& o : p.ops) w.step(o);
    }
    check_nothing_left("trees");
    if (p.ops.size() >= 3) nontrivial();
  }
};
void gen(Rng& r, Plan& p) {
  p.cfg["order"] = (i64)r.below(2);
  int n = r.chance(50) ? 3 + (int)r.below(9) : 8 + (int)r.below(36);
  static const char* all[] = {"kid", "twig", "rest", "hoist-kids", "hoist-twigs", "hoist-rest", "near", "near", "hoist-near", "link", "link", "end", "unlink", "cut", "adopt"};
  std::vector<const char*> use; int keep = 40 + (int)r.below(60);
  for (auto k : all) if (r.chance(keep)) use.push_back(k);
  use.push_back("kid"); use.push_back("kid"); use.push_back("hoist-kids");
  for (int i = 0; i < n; ++i) p.add(r.pick(use), {(i64)r.below(16), (i64)r.below(16), (i64)r.below(16)});
}
RegisterWorld w1({"tree", gen, [](const Plan& p) { TreeWorld::go(p); }, 0});
}  // namespace
}  // namespace sim

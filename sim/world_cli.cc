// World: command lines parsed again and again, by identical descriptions in
// different places, by several threads, with the program's parts initialised
// in any order the language allows (C20).
#include <algorithm>
#include <map>
#include <vector>
#include "sim.h"
#include "cliw.h"

namespace sim {
namespace {
using cliw::Argv;
struct Line { Argv argv; bool plain = false; std::string values; std::vector<std::string> missing; bool all_there = false; };
const char* odd[] = {"", "-", "--", "-h", "--help", "-vqv", "-qq", "--unknown", "-Gx", "-G", "xv", "hq", "--group.eks=3", "--more", "--maybe=x", "-m=9", "--loud=no",
                     "sub", "\xff\xfe", "--name=\xc3", "-\xc3\xa9", "=", "--=", "-=5", "--help-hidden", "--group.help", "-v=maybe", "--alpha", "B", "\xc3\xa9t\xc3\xa9", "-n", "-GGx", "--flat.eks=1"};
// A command line: `n` elements drawn from `salt`.
Line make(u64 salt, int shape) {
  Line l; Rng r(salt);
  static const char* req[] = {"alpha", "beta", "gamma", "delta", "epsilon"};
  int v[5] = {}; std::string more, many; std::string maybe = "-", name, first, rest; int eks = 0, why = 0, geks = 0;
  bool has_first = false, plain = true; const char* loud = ".v"; const char* quick = ".q";
  std::vector<std::vector<std::string>> parts;
  bool used[5] = {};
  for (int i = 0; i < 5; ++i) {
    if (shape == 0 || r.chance(shape == 1 ? 50 : 85)) {
      int x = v[i] = (int)r.range(-50, 5000); used[i] = true;
      std::string f = req[i], val = std::to_string(x);
      if (i == 1 && r.chance(50)) f = "-B"; else if (i == 2 && r.chance(50)) f = "--gee"; else f = "--" + f;
      if (r.chance(50)) parts.push_back({f + "=" + val}); else parts.push_back({f, val});
    }
  }
  int extra = r.below(6);
  for (int k = 0; k < extra; ++k) {
    int x = (int)r.below(900);
    switch (r.below(10)) {
      case 0: more += std::to_string(x) + ","; parts.push_back({r.chance(50) ? "-m" : "--more", std::to_string(x)}); break;
      case 1: if (maybe == "-") { maybe = std::to_string(x); parts.push_back({"--maybe=" + maybe}); } break;
      case 2: loud = "+v"; parts.push_back({r.chance(50) ? "-v" : "-vv"}); break;
      case 3: if (quick[0] == '.') { quick = "+q"; parts.push_back({r.chance(50) ? "-q" : "--quick=yes"}); } break;
      case 4: if (name.empty()) { name = r.chance(50) ? "n\xc3\xa9" : "long name that does not fit inline"; if (r.chance(50)) parts.push_back({"--title", name}); else parts.push_back({"-n", name}); } break;
      case 5: if (!geks) { geks = x + 1; if (r.chance(33)) parts.push_back({"--group.eks", std::to_string(geks)}); else if (r.chance(50)) parts.push_back({"-Gx=" + std::to_string(geks)}); else parts.push_back({"-G", "eks", std::to_string(geks)}); } break;
      case 6: if (!eks) { eks = x + 1; parts.push_back({"-x", std::to_string(eks)}); } break;
      case 7: if (!why) { why = x + 1; parts.push_back({"--why=" + std::to_string(why)}); } break;
      case 8: many += std::to_string(x) + ","; parts.push_back({"--many=" + std::to_string(x)}); break;
      case 9: {
        static const char* pos[] = {"plain", "xv", "file.txt", "q", "\xc3\xa9t\xc3\xa9", "a=b", "much longer positional argument here", "alpha"};
        std::string p = pos[r.below(8)];
        parts.push_back({p, "@"});
        break;
      }
    }
  }
  // Flags may come in any order; repeated ones keep theirs.
  for (size_t i = parts.size(); i > 1; --i) {
    size_t j = r.below(i);
    auto rep = [&](auto& p) { return p[0] == "-m" || p[0] == "--more" || p[0].compare(0, 6, "--many") == 0 || p.back() == "@"; };
    if (!rep(parts[i - 1]) && !rep(parts[j])) std::swap(parts[i - 1], parts[j]);
  }
  for (auto& p : parts) {
    if (p.back() == "@") { if (!has_first) { has_first = true; first = p[0]; } else rest += "'" + p[0] + "'"; p.pop_back(); }
    for (auto& x : p) l.argv.push_back(x);
  }
  // At the end: the subcommand, and what is not to be taken for flags.
  int level = 0; std::string word;
  if (shape != 2 && r.chance(30)) {
    bool sub = !has_first && r.chance(50);
    if (sub) {
      l.argv.push_back("sub");
      if (r.chance(60)) {
        level = 1 + (int)r.below(900); std::string x = std::to_string(level);
        if (r.chance(25)) { l.argv.push_back("-l"); l.argv.push_back(x); } else if (r.chance(33)) l.argv.push_back("-l=" + x); else if (r.chance(50)) l.argv.push_back("--level=" + x); else { l.argv.push_back("--level"); l.argv.push_back(x); }
      }
    }
    static const char* dashed[] = {"-x", "--alpha", "--alpha=3", "-", "--", "--help", "plain", "-B7", ""};
    bool more_than_flags = r.chance(60);
    if (more_than_flags) l.argv.push_back("--");
    int k = sub ? (int)r.below(2) : more_than_flags ? (int)r.below(4) : 0;
    while (k--) {
      std::string x = more_than_flags ? dashed[r.below(9)] : "word";
      l.argv.push_back(x);
      if (sub) word = x; else if (!has_first) { has_first = true; first = x; } else rest += "'" + x + "'";
    }
  }
  if (shape == 2) {
    int k = 1 + r.below(3);
    while (k--) l.argv.insert(l.argv.begin() + r.below(l.argv.size() + 1), odd[r.below(sizeof(odd) / sizeof(*odd))]);
    plain = false;
  }
  l.plain = plain;
  l.all_there = true;
  for (int i = 0; i < 5; ++i) if (!used[i]) { l.all_there = false; l.missing.push_back(req[i]); }
  l.values = "ok";
  for (int x : v) l.values += " " + std::to_string(x);
  l.values += " [" + more + "] " + maybe + " " + quick + " " + loud + " '" + name + "' {" + std::to_string(level) + " '" + word + "'} (" + std::to_string(geks) + " 0 ) (" + std::to_string(eks) + " " + std::to_string(why) + " " + many + ") '" + first + "' <" + rest + ">";
  return l;
}
std::string show(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size() && i < 200; ++i) { char c = s[i]; if (c >= 32 && c < 127) o += c; else o += fmt("\\x%02x", (unsigned)(u8)c); }
  return o;
}
std::string show(const Argv& a) { std::string o; for (auto& x : a) o += (o.empty() ? "" : " ") + ("[" + show(x) + "]"); return o; }
size_t count_of(const std::string& s, const std::string& w) { size_t n = 0, at = 0; while ((at = s.find(w, at)) != s.npos) ++n, at += w.size(); return n; }

void gen(Rng& r, Plan& p) {
  int n = p.cfg["threads"] = 1 + r.below(3);
  p.cfg["order"] = r.below(1000000);
  std::vector<std::pair<i64, i64>> pool;
  int lines = 1 + r.below(3);
  for (int i = 0; i < lines; ++i) pool.push_back({(i64)r.below(1 << 30), (i64)r.below(3)});
  int k = 2 + r.below(4) + n;
  while (k--) { auto& l = pool[r.below(pool.size())]; p.add("parse", {(i64)r.below(n), (i64)r.below(cliw::Types), l.first, l.second}); }
}
void run(const Plan& p) {
  death_means("C20");
  int n = (int)p.get("threads", 1); if (n < 1) n = 1;
  out.clear(); err.clear();
  // Initialise the parts of the program in some order.
  int parts = start::initialisers();
  std::vector<int> order(parts);
  for (int i = 0; i < parts; ++i) order[i] = i;
  Rng r((u64)p.get("order") + 1);
  if (p.get("order")) for (int i = parts; i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
  int st = run_process([&] { for (int i : order) start::run_initialiser(i); });
  if (st != -1) { fail("C20", "start", "the program could not start when its parts were initialised in another order: %s", show(err.data).c_str()); return; }
  heap::adopt_statics();
  struct Job { const Op* op; Line line; std::string got; bool done = false; };
  std::vector<std::vector<Job>> jobs(n);
  for (auto& op : p.ops) { Job j{&op, make((u64)op.arg(2), (int)((u64)op.arg(3) % 3))}; jobs[(u64)op.arg(0) % n].push_back(j); }
  std::vector<std::function<void()>> bodies;
  for (int t = 0; t < n; ++t)
    bodies.push_back([&, t] {
      for (auto& j : jobs[t]) {
        std::string s = cliw::parse((int)((u64)j.op->arg(1) % cliw::Types), "/usr/bin/prog", j.line.argv);
        Quiet q;
        j.got = s; j.done = true;
      }
    });
  bool ok = sched::run(bodies, p.sw);
  if (!ok) { fail("C20", "deadlock", "the parsing threads wait for one another for ever"); return; }
  nontrivial();
  if (sched::ended_by >= 0) {
    fail("C20", "ended", "parsing ended the process with status %d instead of accepting or rejecting: %s", sched::ended_status, show(err.data).c_str());
    return;
  }
  std::map<Argv, Job*> first;
  for (auto& js : jobs) for (auto& j : js) {
    set_op(j.op);
    note("%s", j.got.c_str());
    state(mix2(j.got.size(), j.got.empty() ? 0 : j.got[0]));
    if (!out.data.empty() || !err.data.empty()) { fail("C20", "printed", "parsing printed something: %s", show(out.data + err.data).c_str()); return; }
    auto [it, fresh] = first.insert({j.line.argv, &j});
    if (!fresh) {
      reach("same-line-again");
      if (it->second->op->arg(1) != j.op->arg(1)) reach("same-line-elsewhere");
      if (it->second->got != j.got) { fail("C20", "differs", "the same command line %s gave '%s' and '%s'", show(j.line.argv).c_str(), show(it->second->got).c_str(), show(j.got).c_str()); return; }
    }
    if (j.line.plain) {
      if (j.line.all_there) {
        reach("accepted");
        if (j.got != j.line.values) { fail("C20", "wrong-values", "the command line %s gave '%s' instead of '%s'", show(j.line.argv).c_str(), show(j.got).c_str(), show(j.line.values).c_str()); return; }
      } else {
        reach("missing-flags");
        if (j.line.missing.size() > 1) reach("several-missing");
        if (j.got.compare(0, 6, "fatal ")) { fail("C20", "accepted", "a command line without required flags, %s, gave '%s'", show(j.line.argv).c_str(), show(j.got).c_str()); return; }
        bool any = false; size_t at = 0;
        for (auto& m : j.line.missing) {
          size_t c = count_of(j.got, "--" + m);
          if (c > 1) { fail("C20", "reported-twice", "'%s' names a problem more than once", show(j.got).c_str()); return; }
          any |= c > 0;
        }
        if (!any) { fail("C20", "unnamed", "'%s' does not name a missing flag of %s", show(j.got).c_str(), show(j.line.argv).c_str()); return; }
      }
    } else reach("odd-line");
  }
}
RegisterWorld w1({"cli", gen, run, 4, true});
}  // namespace
}  // namespace sim

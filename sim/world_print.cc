// World: threads that print to both standard streams, with texts of any
// length, streams that fail or accept only part, and values whose formatting
// itself prints (C13).
#include <algorithm>
#include <cstdio>
#include <vector>
#include "sim.h"
#include "best/container/option.h"
#include "best/container/vec.h"
#include "best/memory/span.h"
#include "best/text/format.h"
#include "best/text/strbuf.h"

namespace print_world {
struct Talks { best::str inner, own; bool to_err; int deep; };
constexpr void BestFmtQuery(auto& q, Talks*) { q.requires_debug = false; }
void BestFmt(auto& f, const Talks& t) {
  if (t.deep > 0) {
    Talks u{t.inner, t.inner, t.to_err, t.deep - 1};
    if (t.to_err) best::eprintln("({})", u); else best::println("({})", u);
  }
  f.write(t.own);
}
}  // namespace print_world

namespace sim {
namespace {
using print_world::Talks;
best::str view(const std::string& s) { return *best::str::from(best::span(s.data(), s.size())); }

std::string text(i64 len, u64 salt) {
  static const std::string bits[] = {"a", "word ", "%s", "{}", "\n", "\"", std::string(1, 0), "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x90\x88", "xyz", "%n", "0"};
  std::string s;
  Rng r(salt);
  while ((i64)s.size() < len) s += bits[r.below(13)];
  return s;
}
// One thing said on one stream by one call.
struct Said { int to; std::string text; int from; size_t first[2], last[2]; u64 faults; };
constexpr int Fns = 4, Shapes = 8;
const char* fn_name[Fns] = {"print", "println", "eprint", "eprintln"};

template <typename... A>
void say(int fn, best::format_template<A...> t, const A&... a) {
  switch (fn) {
    case 0: best::print(t, a...); return;
    case 1: best::println(t, a...); return;
    case 2: best::eprint(t, a...); return;
    case 3: best::eprintln(t, a...); return;
  }
}
struct Call {
  const Op* op;
  int fn, shape;
  std::string a, b, c;
  i64 n;
  std::vector<std::pair<int, std::string>> expect;  // in order
  bool began = false, done = false;
  u64 f0 = 0, f1 = 0;   // faults that fired before and after, for its thread
};
void make(Call& k) {
  const Op& op = *k.op;
  k.fn = (int)((u64)op.arg(1) % Fns); k.shape = (int)((u64)op.arg(2) % Shapes);
  k.n = op.arg(4);
  i64 len = (op.arg(3) % 4000 + 4000) % 4000;
  k.a = text(len, op.arg(4)); k.b = text(len / 3, op.arg(4) + 1); k.c = text(len / 7, op.arg(4) + 2);
  std::string s;
  switch (k.shape) {
    case 0: s = k.a; break;
    case 1: s = fmt("<%lld|", (long long)k.n) + k.a + ">"; break;
    case 2: s = "{literal} %s %n\n"; break;
    case 3: s = ""; break;
    case 4: { s = "["; for (i64 i = 0; i < len % 40; ++i) s += fmt("%s%lld", i ? ", " : "", (long long)(k.n + i)); s += "]"; break; }
    case 5: s = k.a + k.b + "-" + k.c + k.a; break;
    case 6: s = "(" + k.b + ")"; for (int d = 0; d < (int)(len % 3); ++d) k.expect.push_back({(int)(k.n & 1), "(" + k.a + ")\n"}); break;
    case 7: s = k.b + k.a; break;
  }
  if (k.fn & 1) s += "\n";
  k.expect.push_back({k.fn >> 1, s});
}
void call(const Call& k) {
  switch (k.shape) {
    case 0: say(k.fn, "{}", view(k.a)); break;
    case 1: say(k.fn, "<{}|{}>", (long long)k.n, view(k.a)); break;
    case 2: say(k.fn, "{{literal}} %s %n\n"); break;
    case 3: say(k.fn, ""); break;
    case 4: { best::vec<long long> v; i64 len = (k.op->arg(3) % 4000 + 4000) % 4000; for (i64 i = 0; i < len % 40; ++i) v.push(k.n + i); say(k.fn, "{:?}", v); break; }
    case 5: say(k.fn, "{0}{1}-{2}{0}", view(k.a), view(k.b), view(k.c)); break;
    case 6: say(k.fn, "({})", Talks{view(k.a), view(k.b), (bool)(k.n & 1), (int)((k.op->arg(3) % 4000 + 4000) % 4000 % 3)}); break;
    case 7: { best::strbuf b; b.push(view(k.a)); say(k.fn, "{}{}", view(k.b), b); break; }
  }
}
std::string show(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size() && i < 120; ++i) { char c = s[i]; if (c >= 32 && c < 127) o += c; else o += fmt("\\x%02x", (unsigned)(u8)c); }
  return o + (s.size() > 120 ? fmt("... (%zu bytes)", s.size()) : "");
}

void gen(Rng& r, Plan& p) {
  int n = p.cfg["threads"] = 1 + r.below(3);
  p.cfg["buffered"] = r.below(2);
  int k = 1 + r.below(4) + n;
  while (k--) {
    i64 len = r.chance(60) ? r.range(0, 30) : r.chance(70) ? r.range(0, 300) : r.range(300, 3900);
    p.add("say", {(i64)r.below(n), (i64)r.below(Fns), (i64)r.below(Shapes), len, (i64)r.below(100000)});
  }
  if (r.chance(35)) { int f = 1 + r.below(3); while (f--) p.add("stream", {(i64)r.below(2), (i64)r.below(6), 1 + (i64)r.below(2), (i64)r.below(40)}); }
}
void run(const Plan& p) {
  death_means("C13");
  int n = (int)p.get("threads", 1); if (n < 1) n = 1;
  Stream* st[2] = {&out, &err};
  out.clear(); err.clear();
  out.buffered = p.get("buffered");
  std::vector<std::vector<Call>> calls(n);
  bool faulty = false;
  for (auto& op : p.ops) {
    if (op.kind == "stream") { (op.arg(0) & 1 ? err : out).faults[op.arg(1)] = {(int)op.arg(2), op.arg(3)}; faulty = true; continue; }
    Call k{&op}; make(k);
    calls[(u64)op.arg(0) % n].push_back(k);
  }
  if (faulty) out.buffered = false;
  std::vector<std::function<void()>> bodies;
  for (int t = 0; t < n; ++t)
    bodies.push_back([&, t] {
      for (auto& k : calls[t]) {
        { Quiet q; k.began = true; out.mark(t); err.mark(t); }
        call(k);
        { Quiet q; k.done = true; out.mark(t); err.mark(t); }
      }
    });
  bool ok = sched::run(bodies, p.sw);
  if (!ok) { fail("C13", "deadlock", "the printing threads wait for one another for ever"); return; }
  out.drain(); err.drain();
  size_t total = 0;
  for (auto& cs : calls) total += cs.size();
  if (total) nontrivial();
  if (sched::ended_by >= 0) { fail("C13", "ended", "printing ended the process with status %d: %s", sched::ended_status, show(err.data).c_str()); return; }
  state(mix2(out.pieces.size(), mix2(err.pieces.size(), n)));
  // What each thread got out on each stream, call by call.
  std::vector<std::vector<int>> owner(2);
  size_t used[2] = {0, 0};
  for (int t = 0; t < n; ++t) {
    for (int s = 0; s < 2; ++s) {
      // Pieces of thread t on stream s in order; marks separate calls.
      std::vector<const Stream::Piece*> ps;
      for (auto& pc : st[s]->pieces) if (pc.thread == t) ps.push_back(&pc);
      size_t at = 0;
      for (size_t c = 0; c < calls[t].size(); ++c) {
        auto& k = calls[t][c];
        if (!k.done) { fail("C13", "no-return", "a print call did not return"); return; }
        std::string want;
        std::vector<std::string> parts;
        for (auto& e : k.expect) if (e.first == s) { want += e.second; if (!e.second.empty()) parts.push_back(e.second); }
        size_t upto = st[s]->marks[t][2 * c + 1].accepted, from = st[s]->marks[t][2 * c].accepted;
        bool hit = st[s]->marks[t][2 * c + 1].faults != st[s]->marks[t][2 * c].faults;
        std::string got;
        size_t first = 0; bool torn = false, any = false;
        size_t need = upto - from, part = 0, left = parts.empty() ? 0 : parts[0].size();
        // Consume this call's pieces.
        size_t took = 0;
        while (took < need && at < ps.size()) {
          auto* pc = ps[at++];
          if (pc->len && any && pc->off != first && left > 0 && part < parts.size() && left != parts[part].size()) torn = true;
          got.append(st[s]->data, pc->off, pc->len);
          size_t len = pc->len;
          took += len;
          if (len) { any = true; first = pc->off + len; }
          while (len && part < parts.size()) {
            size_t d = std::min(len, left); len -= d; left -= d;
            if (!left) { ++part; left = part < parts.size() ? parts[part].size() : 0; }
          }
        }
        used[s] += got.size();
        const char* sn = s ? "standard error" : "standard output";
        if (!hit) {
          if (got != want) {
            fail("C13", got.size() < want.size() && want.compare(0, got.size(), got) == 0 ? "incomplete" : "wrong-text", "%s: one %s call (shape %d) wrote '%s' instead of '%s'", sn, fn_name[k.fn], k.shape, show(got).c_str(), show(want).c_str());
            return;
          }
          if (torn) { fail("C13", "interleaved", "%s: the text of one %s call was split by other output: '%s'", sn, fn_name[k.fn], show(want).c_str()); return; }
        } else {
          reach("call-hit-by-fault");
          // Parts of what it printed may be missing; nothing else is there.
          size_t g = 0;
          for (char c : want) if (g < got.size() && got[g] == c) ++g;
          if (g < got.size()) { fail("C13", "wrong-text", "%s: a %s call that met a stream failure wrote '%s' of '%s'", sn, fn_name[k.fn], show(got).c_str(), show(want).c_str()); return; }
        }
        if (k.shape == 6) reach("prints-while-formatting");
        if (want.size() > 512) reach("long-text");
      }
    }
  }
  for (int s = 0; s < 2; ++s)
    if (used[s] != st[s]->data.size()) { fail("C13", "extra", "%s holds %zu bytes that no call printed", s ? "standard error" : "standard output", st[s]->data.size() - used[s]); return; }
  if (n > 1 && sched::switches > 2) reach("interleaved-threads");
}
RegisterWorld w1({"print", gen, run, 12});
}  // namespace
}  // namespace sim

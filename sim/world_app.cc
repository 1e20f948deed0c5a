// World: processes that install any number of applications in any order, with
// any argument vector, and start them once, twice, from several threads or
// from within, while memory runs out and streams fail (C15; also C11, C20).
#include <algorithm>
#include <cstring>
#include <new>
#include <vector>
#include "sim.h"
#include "best/cli/app.h"
#include "best/cli/cli.h"
#include "best/container/option.h"
#include "best/container/result.h"
#include "best/container/vec.h"
#include "best/text/strbuf.h"

namespace app_world {
struct Args {
  int level = 0;
  best::option<bool> quick;
  best::strbuf name;
  best::vec<best::strbuf> rest;
  constexpr friend auto BestReflect(auto& m, Args*) {
    using ::best::cli;
    return m.infer()
      .with(cli::app{.about = "a simulated program", .version = "3.2.1"})
      .with(&Args::level, cli::flag{.letter = 'l', .arg = "INT", .help = "how much"})
      .with(&Args::quick, cli::flag{.letter = 'q', .help = "quickly"})
      .with(&Args::name, cli::flag{.letter = 'n', .arg = "NAME", .help = "a name"})
      .with(&Args::rest, cli::positional{.name = "REST", .help = "others"});
  }
};
struct Must {
  int level = 0;
  constexpr friend auto BestReflect(auto& m, Must*) {
    using ::best::cli;
    return m.infer().with(&Must::level, cli::flag{.letter = 'l', .arg = "INT", .count = cli::Required, .help = "how much"});
  }
};
struct Err { int code; friend void BestFmt(auto& f, const Err& e) { f.format("Err-{}", e.code); } };
constexpr void BestFmtQuery(auto& q, Err*) { q.requires_debug = false; }
}  // namespace app_world

namespace sim {
namespace {
using namespace app_world;
using Argv = std::vector<std::string>;
constexpr int Kinds = 13, Crash = 128;
// What the mains do and see.
struct Seen { int kind; std::string exe; Argv argv; std::string flags; int thread; };
struct Doing { int ret = 0; bool fails = false; int extra = 0; std::string print; };
std::vector<Seen> seen; Doing doing;
alignas(best::app) char storage[16][sizeof(best::app)];
int installed;
char** start_argv; int start_argc;

std::string bytes(best::pretext<best::wtf8> t) { return std::string((const char*)t.data(), t.size()); }
void install(int kind);
void enter(int kind, const std::string& flags) {
  Quiet q;
  Seen s{kind, bytes(best::app::exe()), {}, flags, sched::self()};
  for (auto a : best::app::argv()) s.argv.push_back(bytes(a));
  note("main %d", kind);
  seen.push_back(s);
}
// What a main does between being called and returning.
void inside() {
  if (!doing.print.empty()) { best::print("{}", *best::str::from(best::span(doing.print.data(), doing.print.size()))); best::eprint("{}", *best::str::from(best::span(doing.print.data(), doing.print.size()))); }
  switch (doing.extra) {
    case 1: reach("starts-itself"); best::app::start(start_argc, start_argv); break;
    case 2: reach("installs-within"); install(1); break;
    case 3: std::exit(doing.ret); break;
    default: break;
  }
}
std::string show_args(const Args& a) {
  Quiet q;
  std::string s = std::to_string(a.level) + (a.quick ? *a.quick ? " yes '" : " no '" : " unset '") + std::string(a.name.data(), a.name.size()) + "'";
  for (auto& r : a.rest) s += " <" + std::string(r.data(), r.size()) + ">";
  return s;
}
using best::result;
void m0() { enter(0, ""); inside(); }
int m1() { enter(1, ""); inside(); return doing.ret; }
result<int, best::strbuf> m2() { enter(2, ""); inside(); if (doing.fails) return best::err(best::strbuf("boom")); return best::ok(doing.ret); }
result<void, Err> m3() { enter(3, ""); inside(); if (doing.fails) return best::err(Err{doing.ret}); return best::ok(); }
void m4(Args& a) { enter(4, show_args(a)); inside(); }
int m5(Args& a) { enter(5, show_args(a)); inside(); return doing.ret; }
result<int, best::strbuf> m6(Args& a) { enter(6, show_args(a)); inside(); if (doing.fails) return best::err(best::strbuf("boom")); return best::ok(doing.ret); }
result<void, Err> m7(Args& a) { enter(7, show_args(a)); inside(); if (doing.fails) return best::err(Err{doing.ret}); return best::ok(); }
int m8(Must& a) { enter(8, std::to_string(a.level)); inside(); return doing.ret; }
bool takes_args(int k) { return (k >= 4 && k <= 8) || k == 10 || k == 12; }
bool gives_status(int k) { return k == 1 || k == 5 || k == 8 || k == 9 || k == 10 || k == 12; }
bool gives_result(int k) { return k == 2 || k == 3 || k == 6 || k == 7 || k == 11; }
// Parses its own command line, and chooses the status of a rejected one.
int m12() {
  auto args = best::parse_flags<Args>(best::app::exe(), best::app::argv());
  if (auto e = args.err()) e->print_and_exit(doing.ret);
  enter(12, show_args(*args)); inside();
  return doing.ret;
}
void install(int kind) {
  char* at; { Quiet q; at = storage[installed++ % 16]; }
  switch (kind) {
    case 0: new (at) best::app(&m0); break;
    case 1: new (at) best::app(&m1); break;
    case 2: new (at) best::app(&m2); break;
    case 3: new (at) best::app(&m3); break;
    case 4: new (at) best::app(&m4); break;
    case 5: new (at) best::app(&m5); break;
    case 6: new (at) best::app(&m6); break;
    case 7: new (at) best::app(&m7); break;
    case 8: new (at) best::app(&m8); break;
    case 9: new (at) best::app([]() -> int { enter(9, ""); inside(); return doing.ret; }); break;
    case 10: new (at) best::app([](Args& a) -> int { enter(10, show_args(a)); inside(); return doing.ret; }); break;
    case 12: new (at) best::app(&m12); break;
    default: new (at) best::app([]() -> result<void, void> { enter(11, ""); inside(); if (doing.fails) return best::err(); return best::ok(); }); break;
  }
}

// An argument vector as the system passes it: exactly as much memory as it
// needs, and a null at the end.
struct Passed {
  std::vector<void*> blocks; char** v;
  explicit Passed(const Argv& a) {
    v = (char**)heap::get((a.size() + 1) * sizeof(char*), alignof(char*), 6, false); blocks.push_back(v);
    for (size_t i = 0; i < a.size(); ++i) { v[i] = (char*)heap::get(a[i].size() + 1, 1, 6, false); blocks.push_back(v[i]); memcpy(v[i], a[i].c_str(), a[i].size() + 1); }
    v[a.size()] = nullptr;
  }
};
std::string show(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size() && i < 200; ++i) { char c = s[i]; if (c >= 32 && c < 127) o += c; else o += fmt("\\x%02x", (unsigned)(u8)c); }
  return o;
}
std::string show(const Argv& a) { std::string o; for (auto& x : a) o += (o.empty() ? "" : " ") + ("[" + show(x) + "]"); return o; }

const char* odd[] = {"", "-", "--", "-h", "--help", "--unknown", "-z", "\xff\xfe\x80", "--name=\xc3", "\xed\xa0\x80", "-l", "--level=x", "-l=99999999999", "-qq", "--version", "--help-hidden", "=", "--=", "-n"};
struct Line { Argv argv; std::string flags; bool plain = true, with_level = false; int level = 0; };
Line make(const Plan& p) {
  Line l; int level = 0; std::string name, rest; const char* quick = " unset '";
  for (auto& op : p.ops) {
    if (op.kind != "arg") continue;
    Rng r((u64)op.arg(1) * 9 + 1);
    switch (op.arg(0) % 6) {
      case 0: if (!l.with_level) { level = (int)r.range(-999, 99999); l.with_level = true; l.argv.push_back((r.chance(50) ? "--level=" : "-l=") + std::to_string(level)); } break;
      case 1: if (quick[1] == 'u') { bool no = r.chance(30); quick = no ? " no '" : " yes '"; l.argv.push_back(no ? "--quick=no" : r.chance(50) ? "-q" : "--quick"); } break;
      case 2: if (name.empty()) { name = r.chance(50) ? "n\xc3\xa9" : "quite a long name which needs memory of its own"; if (r.chance(50)) { l.argv.push_back("-n"); l.argv.push_back(name); } else l.argv.push_back("--name=" + name); } break;
      case 3: case 4: { std::string s = r.chance(60) ? "file" : "\xf0\x9f\xa7\xb6 "; s += std::to_string(r.below(100)); if (r.chance(20)) s += std::string(r.below(600), 'x'); l.argv.push_back(s); rest += " <" + s + ">"; break; }
      default: l.argv.push_back(odd[r.below(sizeof(odd) / sizeof(*odd))]); l.plain = false; break;
    }
  }
  l.level = level;
  l.flags = std::to_string(level) + quick + name + "'" + rest;
  return l;
}

void gen(Rng& r, Plan& p) {
  p.cfg["order"] = r.below(2) ? (i64)r.below(1000000) : 0;
  p.cfg["starts"] = r.chance(70) ? 1 : 2 + (i64)r.below(2);
  p.cfg["buffered"] = r.below(2);
  p.cfg["argc0"] = r.chance(4);
  p.cfg["ret"] = r.chance(50) ? (i64)r.below(4) : r.chance(80) ? (i64)r.below(256) : r.range(-3, 70000);
  if (p.cfg["ret"] == Crash) ++p.cfg["ret"];
  p.cfg["fails"] = r.chance(35);
  p.cfg["extra"] = r.chance(70) ? 0 : 1 + (i64)r.below(3);
  p.cfg["print"] = r.chance(40) ? (i64)r.below(60) : 0;
  if (r.chance(12)) p.cfg["oom"] = 1 + (i64)r.below(20);
  p.cfg["together"] = r.chance(40);
  int apps = r.chance(80) ? 1 : r.chance(40) ? 0 : 2;
  while (apps--) p.add("app", {(i64)r.below(Kinds)});
  int n = r.chance(20) ? 0 : (int)r.below(r.chance(10) ? 40 : 8);
  bool strange = r.chance(30);
  while (n--) p.add("arg", {(i64)r.below(strange ? 6 : 5), (i64)r.below(100000)});
  if (r.chance(15)) { int f = 1 + r.below(2); while (f--) p.add("stream", {(i64)r.below(2), (i64)r.below(4), 1 + (i64)r.below(2), (i64)r.below(40)}); }
}

size_t count_of(const std::string& s, const std::string& w) { size_t n = 0, at = 0; while ((at = s.find(w, at)) != s.npos) ++n, at += w.size(); return n; }
bool has(const std::string& s, const std::string& w) { return s.find(w) != s.npos; }

void run(const Plan& p) {
  death_means("C15,C11");
  seen.clear(); installed = 0; out.clear(); err.clear();
  doing = {(int)p.get("ret"), p.get("fails") != 0, (int)p.get("extra"), std::string((size_t)p.get("print"), 'p')};
  out.buffered = p.get("buffered");
  bool faulty = false; std::vector<int> kinds;
  for (auto& op : p.ops) { if (op.kind == "stream") faulty = true; if (op.kind == "app") kinds.push_back((int)((u64)op.arg(0) % Kinds)); }
  Line line = make(p);
  Argv all; std::string exe = p.get("argc0") ? "" : "/opt/bin/prog";
  if (!p.get("argc0")) { all.push_back(exe); for (auto& a : line.argv) all.push_back(a); } else { line = {}; line.flags = "0 unset ''"; }
  nontrivial();
  // Starting up: the program's parts, and its applications among them.
  int parts = start::initialisers(); std::vector<int> order(parts);
  for (int i = 0; i < parts; ++i) order[i] = i;
  bool together = p.get("together") && kinds.size() > 1;
  if (!together) for (size_t i = 0; i < kinds.size(); ++i) order.push_back(-1 - (int)i);
  Rng r((u64)p.get("order") + 1);
  if (p.get("order")) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
  int st = run_process([&] {
    for (int i : order) {
      if (i >= 0) start::run_initialiser(i);
      else { if (i == -1 && order[0] < 0) reach("installed-first"); install(kinds[(size_t)(-1 - i)]); }
    }
  });
  if (together && st == -1) {
    reach("installed-together");
    std::vector<std::function<void()>> bodies;
    for (int k : kinds) bodies.push_back([k] { install(k); });
    if (!sched::run(bodies, p.sw)) { fail("C15", "deadlock", "installing applications never ended"); return; }
    st = sched::ended_by >= 0 ? sched::ended_status : -1;
  }
  heap::adopt_statics();
  auto fatal_about = [&](int status, const char* what) {
    if (status <= 0) fail("C15", "not-fatal", "%s ended the process with status %d", what, status);
  };
  if (kinds.size() > 1) {
    if (st == -1) { fail("C15", "two-apps", "two applications were installed and nobody noticed"); return; }
    reach("two-applications");
    fatal_about(st, "installing two applications");
    if (!seen.empty()) fail("C15", "ran", "an application ran while two were being installed");
    if (!has(err.data, "world_app.cc")) fail("C15", "diagnostic", "installing two applications reported '%s', which names neither", show(err.data).c_str());
    else if (count_of(err.data, "world_app.cc") < 2) fail("C15", "diagnostic", "installing two applications reported '%s', which does not name both", show(err.data).c_str());
    return;
  }
  if (st != -1) { fail("C15", "start", "installing %s ended the process with status %d: %s", kinds.empty() ? "nothing" : "an application", st, show(err.data).c_str()); return; }
  if (!out.data.empty() || !err.data.empty()) fail("C15", "printed", "installing an application printed '%s'", show(out.data + err.data).c_str());
  int kind = kinds.empty() ? -1 : kinds[0];
  // What parsing this line by hand gives.
  bool rejected = false, help = false; std::string message;
  if (kind >= 0 && takes_args(kind)) {
    Quiet q; std::vector<best::pretext<best::wtf8>> v;
    for (size_t i = 1; i < all.size(); ++i) v.push_back(best::pretext<best::wtf8>(best::span(all[i].data(), all[i].size())));
    best::pretext<best::wtf8> x(best::span(exe.data(), exe.size()));
    auto judge = [&](auto res) { if (auto e = res.err()) { rejected = e->is_fatal(); help = !rejected; message = std::string(e->message().data(), e->message().size()); } };
    if (kind == 8) judge(best::parse_flags<Must>(x, best::span(v.data(), v.size()))); else judge(best::parse_flags<Args>(x, best::span(v.data(), v.size())));
    if (line.plain && (kind != 8 ? (rejected || help) : line.argv.empty() && !rejected)) { fail("C15,C20", "misjudged", "the command line %s was %s", show(all).c_str(), rejected ? "rejected" : "not rejected"); return; }
    if (rejected) reach("rejected"); if (help) reach("help");
  }
  for (auto& op : p.ops) if (op.kind == "stream") (op.arg(0) & 1 ? err : out).faults[op.arg(1)] = {(int)op.arg(2), op.arg(3)};
  Passed passed(all);
  start_argc = (int)all.size(); start_argv = passed.v;
  int starts = (int)std::max<i64>(1, std::min<i64>(3, p.get("starts", 1)));
  if (p.get("oom")) heap::fail_nth((u64)p.get("oom"));
  u64 faults0 = heap::allocs;
  (void)faults0;
  int status; int by = 0;
  if (starts == 1) status = run_process([&] { best::app::start(start_argc, start_argv); });
  else {
    std::vector<std::function<void()>> bodies;
    for (int i = 0; i < starts; ++i) bodies.push_back([&] { best::app::start(start_argc, start_argv); });
    if (!sched::run(bodies, p.sw)) { fail("C15", "deadlock", "starting an application from several threads never ended"); return; }
    status = sched::ended_by >= 0 ? sched::ended_status : -1; by = sched::ended_by;
    reach("several-starts");
  }
  heap::fail_nth(0);
  bool orderly = !strcmp(last_end_how, "exit"), exited = orderly && status != Crash;
  if (orderly) {
    // Only an orderly exit writes out what standard output holds.
    int again = run_process([] { start::run_exit_handlers(); });
    if (again != -1) fail("C15", "exit", "the process failed while exiting: %s", show(err.data).c_str());
    out.drain();
    Quiet q;
    Argv after;
    if (!seen.empty()) for (auto a : best::app::argv()) after.push_back(bytes(a));
    if (!seen.empty() && (bytes(best::app::exe()) != exe || after != seen[0].argv)) fail("C15", "argv", "the arguments were lost while the process was exiting");
  }
  err.drain();
  if (p.get("oom") && has(err.data, "alloc")) reach("out-of-memory");
  note("status %d by %d how %s ran %zu", status, by, last_end_how, seen.size());
  state(mix2(mix2((u64)status, seen.size()), mix2((u64)kind, mix2((u64)starts, rejected * 2 + help))));
  if (status == -1) { fail("C15", "returned", "starting an application returned"); return; }
  if (seen.size() > 1) { fail("C15", "twice", "the application ran %zu times", seen.size()); return; }
  if (!seen.empty()) {
    auto& s = seen[0];
    if (s.kind != kind) { fail("C15", "other-main", "another main function ran than the one installed"); return; }
    if (s.exe != exe) { fail("C15", "exe", "the application saw the program name '%s' instead of '%s'", show(s.exe).c_str(), show(exe).c_str()); return; }
    if (s.argv != Argv(all.begin() + !all.empty(), all.end())) { fail("C15", "argv", "the application saw the arguments %s instead of %s", show(s.argv).c_str(), show(Argv(all.begin() + !all.empty(), all.end())).c_str()); return; }
    if (line.plain && takes_args(kind)) {
      std::string want = kind == 8 ? std::to_string(line.level) : line.flags;
      if (s.flags != want) { fail("C15,C20", "flags", "the application was given '%s' instead of '%s'", show(s.flags).c_str(), show(want).c_str()); return; }
    }
    if (rejected || help) { fail("C15", "ran-rejected", "the application ran although its command line %s", rejected ? "was rejected" : "asks for help"); return; }
  }
  bool unlucky = p.get("oom") != 0;
  if (unlucky && !exited && !rejected) { fatal_about(status, "running out of memory"); return; }
  if (kind < 0) {
    fatal_about(status, "starting no application");
    if (err.data.empty() && !faulty) fail("C15", "silent", "starting no application was not reported");
    reach("no-application");
    return;
  }
  if (starts > 1 && !exited && !rejected && !(gives_result(kind) && doing.fails)) {
    fatal_about(status, "starting twice");
    if (!faulty && !has(err.data, "twice") && !(doing.extra == 2 && has(err.data, "world_app.cc"))) fail("C15", "silent", "starting twice reported '%s'", show(err.data).c_str());
    return;
  }
  if (starts > 1 && !exited && !rejected) { fatal_about(status, "starting twice or failing"); return; }
  if (rejected || help) {
    if (!orderly) { fail("C15", "crashed", "reporting a command line crashed: %s", show(err.data).c_str()); return; }
    if (rejected && kind == 12) {
      if (status != doing.ret && !((starts > 1 || unlucky) && status == Crash)) fail("C15", "status", "a rejected command line ended the process with status %d instead of %d", status, doing.ret);
    } else if (rejected && status <= 0) fail("C15", "status", "a rejected command line ended the process with status %d", status);
    if (help && status != 0) fail("C15", "status", "asking for help ended the process with status %d", status);
    if (faulty) return;
    std::string &right = rejected ? err.data : out.data, &wrong = rejected ? out.data : err.data;
    if ((starts > 1 || unlucky) && status == Crash && !has(right, message)) { if (seen.empty() && err.data.empty()) fail("C15", "silent", "the process ended with status %d and said nothing", status); return; }
    if (!has(right, message)) fail("C15", "message", "'%s' is not on standard %s, which holds '%s'", show(message).c_str(), rejected ? "error" : "output", show(right).c_str());
    if (starts == 1 && !wrong.empty()) fail("C15", "message", "standard %s holds '%s'", rejected ? "output" : "error", show(wrong).c_str());
    return;
  }
  if (seen.empty()) { fail("C15", "never-ran", "the application never ran: status %d, %s", status, show(err.data).c_str()); return; }
  if (doing.extra == 1) {
    if (exited) fail("C15", "not-fatal", "starting again from within ended the process with status %d", status);
    fatal_about(status, "starting again from within");
    if (!faulty && !has(err.data, "twice")) fail("C15", "silent", "starting again from within reported '%s'", show(err.data).c_str());
    return;
  }
  if (doing.extra == 2) {
    if (exited) fail("C15", "not-fatal", "installing another application from within ended the process with status %d", status);
    fatal_about(status, "installing another application from within");
    if (!faulty && count_of(err.data, "world_app.cc") < 2) fail("C15", "silent", "installing another application from within reported '%s'", show(err.data).c_str());
    return;
  }
  if (doing.extra != 3 && gives_result(kind) && doing.fails) {
    reach("failed");
    fatal_about(status, "a main that reports an error");
    std::string want = kind == 2 || kind == 6 ? "boom" : kind == 11 ? "err" : "Err-" + std::to_string(doing.ret);
    if (!faulty && !has(err.data, want)) fail("C15", "silent", "a main that reported an error left '%s' on standard error", show(err.data).c_str());
    return;
  }
  int want = gives_status(kind) || doing.extra == 3 ? doing.ret : 0;
  if (!exited) { fail("C15", "crashed", "running the application ended the process by %s with status %d: %s", last_end_how, status, show(err.data).c_str()); return; }
  if (status != want) { fail("C15", "status", "the process ended with status %d, and the application gave %d", status, want); return; }
  reach("succeeded");
  if (!faulty && starts == 1) {
    if (out.data != doing.print) fail("C15", "output", "standard output holds '%s' instead of what the application printed", show(out.data).c_str());
    if (err.data != doing.print) fail("C15", "output", "standard error holds '%s' instead of what the application printed", show(err.data).c_str());
  }
}
RegisterWorld w1({"app", gen, run, 6, true});
}  // namespace
}  // namespace sim

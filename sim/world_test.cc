// World: test programs, with any number of tests that pass, fail once or many
// times, run each other or crash, registered in any order, selected in any way
// and run once or again, while the loader, the heap and the streams fail (C14).
#include <dlfcn.h>
#include <algorithm>
#include <cmath>
#include <cstring>
#include <new>
#include <utility>
#include <vector>
#include "sim.h"
#include "best/cli/app.h"
#include "best/container/option.h"
#include "best/container/vec.h"
#include "best/log/wtf.h"
#include "best/test/test.h"
#include "best/text/strbuf.h"

namespace test_world {
// A value with no formatting of its own.
struct Opaque { int v; bool operator==(const Opaque&) const = default; auto operator<=>(const Opaque&) const = default; };
}  // namespace test_world

namespace sim {
namespace {
using namespace test_world;
constexpr int Max = 20;
alignas(best::test) char storage[Max][sizeof(best::test)];
best::test& object(int i) { return *(best::test*)storage[i]; }
struct Step { int what = 0; u64 salt = 0; bool message = false, leave = false; int only = 0; };
struct Report { int line; std::string message; };
struct Execution { int test; bool nested = false, failed = false, over = false; std::vector<Report> reports; };
std::vector<std::vector<Step>> scripts;
std::vector<std::string> names;
std::vector<int> lines, unknown, times;
std::vector<Execution> log_; std::vector<size_t> stack;
int registered;
std::vector<int> early; int lost;   // registered while parts of the program were not initialised; one that never ran

std::string words(u64 salt) { static const char* w[] = {"first", "it is broken", "a {} brace", "\xf0\x9f\x90\x88", "50%", "line one\nline two"}; return std::string(w[salt % 6]) + " " + std::to_string(salt % 89); }
best::str view(const std::string& s) { return *best::str::from(best::span(s.data(), s.size())); }
bool outcome(bool want, bool got, int line, const std::string& message) {
  Quiet q;
  if (want != got) fail("C14", "answer", "a check whose condition is %s answered %s", want ? "true" : "false", got ? "true" : "false");
  if (!want) { auto& e = log_[stack.back()]; e.failed = true; e.reports.push_back({line, message}); note("failed at %d", line); }
  return want;
}
#define CMP(k, name, rel) \
  case k: line = __LINE__; want = a rel b; got = t.expect_##name(a, b); break; \
  case k + 6: line = __LINE__; want = a rel b; got = t.expect_##name(a, b, "{}", view(m)); break;
template <typename A, typename B>
bool compare(best::test& t, u64 op, bool message, const A& a, const B& b) {
  int line = 0; bool want = true, got = true; std::string m = message ? words(op) : "";
  switch (op % 6 + (message ? 6 : 0)) {
    CMP(0, eq, ==)
    CMP(1, ne, !=)
    CMP(2, lt, <)
    CMP(3, le, <=)
    CMP(4, gt, >)
    CMP(5, ge, >=)
  }
  return outcome(want, got, line, m);
}
bool enter(int k, best::test& t) {
  Quiet q;
  if (&t != &object(k)) fail("C14", "other-test", "the body of one test was given another test");
  note("test %d", k);
  for (auto s : stack) if (log_[s].test == k) { harness_error("a test runs itself"); }
  log_.push_back({k, !stack.empty()}); stack.push_back(log_.size() - 1);
  if (log_.size() > 4000) { fail("C14", "endless", "tests are run over and over"); return false; }
  return true;
}
void body(int k, best::test& t) {
  if (!enter(k, t)) return;
  int time = ++times[(size_t)k];
  for (auto& s : scripts[(size_t)k]) {
    if (s.only && s.only != time) continue;
    bool ok = true; u64 v = s.salt; int x = (int)(v % 3), y = (int)(v / 3 % 3); std::string m = s.message ? words(v) : "";
    switch (s.what) {
      case 0: { int line = __LINE__; bool got = s.message ? t.expect(v & 1, "{}", view(m)) : t.expect(v & 1); ok = outcome(v & 1, got, line, m); break; }
      case 1: { int line = __LINE__; if (s.message) t.fail("{}", view(m)); else t.fail(); ok = outcome(false, false, line, m); break; }
      case 2: ok = compare(t, v / 9, s.message, x, y); break;
      case 3: ok = compare(t, v / 9, s.message, (x ? x : -1) * 1e9, y == 1 ? NAN : y * 1e9); break;
      case 4: { std::string a = words(x), b = words(y); ok = compare(t, v / 9, s.message, view(a), view(b)); break; }
      case 5: { best::vec<int> a, b; for (int i = 0; i < x; ++i) a.push(i); for (int i = 0; i < y; ++i) b.push(v & 1024 ? 1 - i : i); ok = compare(t, v / 9, s.message, a, b); break; }
      case 6: ok = compare(t, v / 9, s.message, Opaque{x}, Opaque{y}); break;
      case 7: { best::option<int> a, b; if (x) a = x; if (y) b = y; ok = compare(t, v / 9, s.message, a, b); break; }
      case 8: ok = compare(t, v / 9, s.message, (long long)x - 1, y); break;
      case 9: { // Runs another test.
        int other = (int)(v % (u64)registered); bool busy = other < k || !unknown.empty();
        for (auto e : stack) busy |= log_[e].test == other;
        if (busy || stack.size() > 2) break;
        reach("runs-another");
        size_t mine = log_.size(); bool passed = object(other).run();
        Quiet q;
        if (log_.size() == mine || log_[mine].test != other) fail("C14", "run", "running a test did not run it");
        else if (passed == log_[mine].failed) fail("C14", "answer", "running a test answered that it %s", passed ? "passed" : "failed");
        break;
      }
      case 10: best::print("noise {}\n", v % 7); best::eprint("[ noise ]"); break;
      default: { Quiet q; reach("test-crashes"); } best::wtf("a test crashes"); break;
    }
    if (!ok && s.leave) break;
  }
  log_[stack.back()].over = true; stack.pop_back();
}
template <int K> void install_as() { new (storage[K]) best::test([](best::test& t) { body(K, t); }); lines[K] = __LINE__; }
template <int... K> void install_any(int k, std::integer_sequence<int, K...>) { (void)((K == k && (install_as<K>(), true)) || ...); }
void install(int k) { install_any(k, std::make_integer_sequence<int, Max>()); }

int lookup(const void* p, void* info) {
  auto& di = *(Dl_info*)info;
  for (int i = 0; i < Max; ++i) if ((char*)p >= storage[i] && (char*)p < storage[i] + sizeof(best::test)) {
    di = {"/opt/bin/tests", storage, nullptr, nullptr};
    if (std::find(unknown.begin(), unknown.end(), i) != unknown.end()) { fault("loader-does-not-know"); if (i & 1) return 0; return 1; }
    di.dli_sname = names[(size_t)i].c_str(); di.dli_saddr = storage[i];
    return 1;
  }
  return 0;
}

std::string name_of(Rng& r, int k) {
  static const char* spaces[] = {"4best8vec_test", "4best9text_test", "4best4test", "1a", "3one3two", "6t\xc3\xa9st\xc3\xa9"};
  static const char* own[] = {"4Push", "7PushAll", "1x", "5Empty", "3pop"};
  (void)k;
  if (r.chance(10)) return std::string("test_of_everything").substr(0, 1 + r.below(18));
  return std::string("_ZN") + spaces[r.below(6)] + own[r.below(5)] + "E";
}
std::string filter_of(Rng& r, const std::vector<std::string>& names) {
  static const char* odd[] = {"", "nothing", "best", "_ZN", "E", "vec_test", "Push", "4Push", "t\xc3\xa9", "7PushAllE", "st"};
  if (names.empty() || r.chance(55)) return odd[r.below(11)];
  auto& n = names[r.below(names.size())];
  if (r.chance(40)) return n;
  size_t a = r.below(n.size()), b = a + r.below(n.size() - a + 1);
  while (a < n.size() && ((u8)n[a] & 0xc0) == 0x80) ++a;
  while (b < n.size() && ((u8)n[b] & 0xc0) == 0x80) ++b;
  return b > a ? n.substr(a, b - a) : n;
}

void gen(Rng& r, Plan& p) {
  p.cfg["order"] = r.chance(10) ? 1 + (i64)r.below(1000000) : 0;
  p.cfg["announced"] = r.chance(6);
  p.cfg["direct"] = r.chance(40) ? 1 + (i64)r.below(3) : 0;
  p.cfg["names"] = (i64)r.below(1000000);
  p.cfg["buffered"] = r.below(2);
  if (r.chance(8)) p.cfg["oom"] = 1 + (i64)r.below(60);
  int n = r.chance(4) ? 0 : 1 + (int)r.below(r.chance(70) ? 6 : Max - 1);
  bool crashes = r.chance(8), good = r.chance(25);
  for (int k = 0; k < n; ++k) p.add("test", {});
  for (int k = 0; k < n; ++k) {
    int m = r.chance(30) ? 0 : (int)r.below(6); bool pass = good || r.chance(50);
    while (m--) {
      u64 salt = r.below(1u << 20); i64 what = (i64)r.below(11);
      if (crashes && r.chance(6)) what = 11;
      if (pass && what < 9) { what = r.chance(30) ? 0 : 2; salt |= 1; if (what == 2) salt = 4 * r.below(3) + 9 * 6 * r.below(999); }
      p.add("step", {k, what, (i64)salt, (i64)r.below(2), r.chance(20), r.chance(25) ? 1 + (i64)r.below(3) : 0});
    }
  }
  int f = r.chance(50) ? 0 : 1 + (int)r.below(3); while (f--) p.add("filter", {(i64)r.below(100000), (i64)r.below(3)});
  f = r.chance(60) ? 0 : 1 + (int)r.below(2); while (f--) p.add("skip", {(i64)r.below(100000), (i64)r.below(2)});
  if (r.chance(4)) p.add("unknown", {(i64)r.below(Max)});
  if (r.chance(15)) { f = 1 + (int)r.below(3); while (f--) p.add("stream", {1 + (i64)r.below(60), 1 + (i64)r.below(2), (i64)r.below(20)}); }
}

std::string plain(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == 0x1b && i + 1 < s.size() && s[i + 1] == '[') { while (i < s.size() && s[i] != 'm') ++i; continue; }
    o += s[i];
  }
  return o;
}
bool has(const std::string& s, const std::string& w) { return s.find(w) != s.npos; }
std::string show(const std::string& s) { std::string o; for (size_t i = s.size() > 300 ? s.size() - 300 : 0; i < s.size(); ++i) { if (s[i] == '\n') o += '/'; else o += s[i]; } return o; }

// Whether one run of the whole, whose executions start at `from` and whose
// report is `text`, did what the selection asks for and says so.
void judge(const Plan& p, std::vector<int> selected, size_t from, int verdict, const std::string& report, bool readable) {
  std::vector<int> ran, failed; size_t pos = 0;
  for (size_t i = from; i < log_.size(); ++i) if (!log_[i].nested) { ran.push_back(log_[i].test); if (log_[i].failed) failed.push_back(log_[i].test); }
  auto sorted = ran; std::sort(sorted.begin(), sorted.end());
  for (size_t i = 1; i < sorted.size(); ++i) if (sorted[i] == sorted[i - 1]) { fail("C14", "twice", "test %s was run more than once", names[(size_t)sorted[i]].c_str()); return; }
  for (int k : sorted) if (!std::binary_search(selected.begin(), selected.end(), k)) { fail("C14", "unselected", "test %s was run although it was not selected", names[(size_t)k].c_str()); return; }
  // Tests registered before the library was initialised, if the first of them are all that is missing.
  size_t gone = 0; while (gone < early.size() && !std::binary_search(sorted.begin(), sorted.end(), early[gone])) ++gone;
  std::vector<int> forgotten;
  for (size_t i = 0; i < gone; ++i) if (std::binary_search(selected.begin(), selected.end(), early[i])) forgotten.push_back(early[i]);
  for (int k : forgotten) selected.erase(std::find(selected.begin(), selected.end(), k));
  if (!forgotten.empty()) lost = forgotten[0];
  for (int k : selected) if (!std::binary_search(sorted.begin(), sorted.end(), k)) { fail("C14", "never-ran", "test %s was selected and never ran", names[(size_t)k].c_str()); return; }
  if (verdict == (failed.empty() ? 0 : 1)) { fail("C14", "verdict", "%zu of %zu tests failed, and the run as a whole %s", failed.size(), ran.size(), verdict ? "passed" : "failed"); return; }
  if (!failed.empty()) reach("failing"); if (failed.size() < ran.size() && !failed.empty()) reach("mixed"); if (ran.size() < (size_t)registered) reach("not-all-selected");
  if (!readable) return;
  std::string text = plain(report);
  size_t results = text.rfind("[ RESULTS ]\n");
  if (results == text.npos) { fail("C14", "report", "no results were reported: '%s'", show(text).c_str()); return; }
  size_t here = text.find("executing "); 
  if (here == text.npos) { fail("C14", "report", "the number of tests was not reported: '%s'", show(text).c_str()); return; }
  size_t announced = strtoul(text.c_str() + here + 10, nullptr, 10);
  bool all = announced <= (size_t)registered && announced + early.size() >= (size_t)registered;
  if (announced != selected.size() && !all) { fail("C14", "totals", "%zu tests were announced and %zu are selected", announced, selected.size()); return; }
  // Every failing check is reported, in order, between its test's beginning and its end.
  std::vector<std::pair<std::string, std::string>> want;
  size_t reports = 0;
  for (size_t i = from; i < log_.size(); ++i) {
    auto& e = log_[i]; auto& name = names[(size_t)e.test];
    if (e.nested) { reports += e.reports.size(); continue; }
    size_t begin = text.find("[ TEST: " + name + " ]", pos), ok = text.find("[ Ok: " + name + " ]", pos), bad = text.find("[ FAIL: " + name + " ]", pos), end = std::min(ok, bad);
    if (begin == text.npos) { fail("C14", "report", "the beginning of test %s was not reported: '%s'", name.c_str(), show(text).c_str()); return; }
    if (end == text.npos || end < begin) { fail("C14", "report", "the end of test %s was not reported", name.c_str()); return; }
    if ((bad < ok) != e.failed) { fail("C14", "report", "test %s %s and was reported otherwise", name.c_str(), e.failed ? "failed" : "passed"); return; }
    pos = begin;
    for (auto& r : e.reports) {
      std::string where = "world_test.cc:" + std::to_string(r.line) + "\n"; 
      size_t at = text.find(where, pos);
      if (at == text.npos || at > end) { fail("C14", "location", "the failure of a check in line %d was not reported: '%s'", r.line, show(text.substr(begin, end - begin)).c_str()); return; }
      pos = at + where.size(); ++reports;
      if (!r.message.empty()) {
        at = text.find(r.message, pos);
        if (at == text.npos || at > end) { fail("C14", "message", "the message of a failing check was not reported"); return; }
        pos = at + r.message.size();
      }
    }
    pos = end + 1;
  }
  size_t n = 0; for (size_t at = 0; (at = text.find("world_test.cc:", at)) != text.npos; ++at) ++n;
  if (n != reports) { fail("C14", "location", "%zu failing checks were reported %zu times", reports, n); return; }
  std::vector<std::string> lists[2], should[2]; size_t totals[2] = {0, 0}; int list = -1;
  for (size_t at = results + 12; at < text.size();) {
    size_t e = text.find('\n', at); if (e == text.npos) e = text.size();
    std::string line = text.substr(at, e - at); at = e + 1;
    if (!line.compare(0, 7, "passed ")) { list = 0; totals[0] = strtoul(line.c_str() + 7, nullptr, 10); }
    else if (!line.compare(0, 7, "failed ")) { list = 1; totals[1] = strtoul(line.c_str() + 7, nullptr, 10); }
    else if (!line.compare(0, 3, " * ") && list >= 0) lists[list].push_back(line.substr(3));
  }
  for (int k : ran) should[std::count(failed.begin(), failed.end(), k) ? 1 : 0].push_back(names[(size_t)k]);
  for (int l = 0; l < 2; ++l) {
    if (totals[l] != should[l].size()) { fail("C14", "totals", "%zu tests %s and %zu were counted", should[l].size(), l ? "failed" : "passed", totals[l]); return; }
    std::sort(lists[l].begin(), lists[l].end()); std::sort(should[l].begin(), should[l].end());
    if (lists[l] != should[l]) { fail("C14", "lists", "the list of tests that %s is another than those that did", l ? "failed" : "passed"); return; }
  }
  if (announced != selected.size() && p.get("announced")) fail("C14", "announced-unselected", "all %zu registered tests were announced and %zu are selected", announced, selected.size());
}

void run(const Plan& p) {
  death_means("C14,C11");
  log_.clear(); stack.clear(); scripts.clear(); names.clear(); unknown.clear(); lines.assign(Max, 0); times.assign(Max, 0); out.clear(); err.clear();
  registered = 0; for (auto& op : p.ops) if (op.kind == "test" && registered < Max) ++registered;
  scripts.resize((size_t)registered);
  Rng nr((u64)p.get("names") + 3);
  bool apart = p.get("names") % 8;
  for (int k = 0; k < registered; ++k) { std::string n = name_of(nr, k); if (apart) while (std::count(names.begin(), names.end(), n)) n.insert(n.size() > 3 ? 3 : n.size(), "1n"); names.push_back(n); }
  std::vector<std::string> filters, skips; std::vector<std::string> argv{"/opt/bin/tests"};
  bool faulty = false;
  for (auto& op : p.ops) {
    if (op.kind == "step" && registered) scripts[(size_t)((u64)op.arg(0) % (u64)registered)].push_back({(int)((u64)op.arg(1) % 12), (u64)op.arg(2), op.arg(3) != 0, op.arg(4) != 0, (int)op.arg(5)});
    if (op.kind == "filter" || op.kind == "skip") {
      Rng r((u64)op.arg(0) + 77); std::string f = filter_of(r, names);
      if (op.kind == "filter") { if (f[0] == '-') f = "n"; filters.push_back(f); argv.push_back(f); }
      else { skips.push_back(f); if (op.arg(1) || f.empty()) { argv.push_back("--skip"); argv.push_back(f); } else argv.push_back("--skip=" + f); }
    }
    if (op.kind == "unknown" && op.arg(0) % Max < registered) unknown.push_back((int)(op.arg(0) % Max));
    if (op.kind == "stream") { faulty = true; err.faults[(u64)op.arg(0)] = {(int)op.arg(1), op.arg(2)}; }
  }
  err.buffered = false; out.buffered = p.get("buffered");
  nontrivial();
  loader_lookup = lookup;
  struct Restore { ~Restore() { loader_lookup = nullptr; } } restore;
  int parts = start::initialisers(); std::vector<int> order;
  for (int i = 0; i < parts; ++i) order.push_back(i);
  for (int k = 0; k < registered; ++k) order.push_back(-1 - k);
  Rng r((u64)p.get("order"));
  if (p.get("order")) for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
  early.clear(); lost = -1;
  for (size_t i = 0, last = 0; i < order.size(); ++i) if (order[i] >= 0) { for (; last < i; ++last) if (order[last] < 0) early.push_back(-1 - order[last]); }
  if (order[0] < 0) reach("registered-first");
  int st = run_process([&] { for (int i : order) { if (i >= 0) start::run_initialiser(i); else install(-1 - i); } });
  heap::adopt_statics();
  if (!unknown.empty()) {
    if (st == -1) { fail("C14", "nameless", "a test without a name was registered"); return; }
    if (st <= 0 || strcmp(last_end_how, "exit")) { fail("C14", "nameless", "a test without a name ended the process by %s with status %d", last_end_how, st); return; }
    if (!faulty && !has(err.data, "world_test.cc:" + std::to_string(__LINE__))) { bool named = has(err.data, "world_test.cc:"); if (!named) fail("C14", "nameless", "the report '%s' does not say where the test is", show(err.data).c_str()); }
    reach("nameless");
    return;
  }
  if (st != -1) { fail("C14", "start", "registering tests ended the process with status %d: %s", st, show(err.data).c_str()); return; }
  for (int k = 0; k < registered; ++k) {
    auto n = object(k).name();
    if (std::string(n.data(), n.size()) != names[(size_t)k]) { fail("C14", "name", "a test was given another name"); return; }
    if (object(k).where().line() != lines[(size_t)k]) { fail("C14", "where", "a test was given another location"); return; }
  }
  auto contains = [](const std::string& n, const std::vector<std::string>& v) { return std::any_of(v.begin(), v.end(), [&](auto& f) { return has(n, f); }); };
  std::vector<int> selected;
  for (int k = 0; k < registered; ++k) if (!contains(names[(size_t)k], skips) && (filters.empty() || contains(names[(size_t)k], filters))) selected.push_back(k);
  state(mix2(mix2((u64)selected.size(), (u64)registered), mix2(filters.size(), skips.size())));
  if (selected.empty() && registered) reach("none-selected");
  bool unlucky = p.get("oom") != 0;
  int direct = (int)std::min<i64>(3, std::max<i64>(0, p.get("direct")));
  if (direct) {
    best::test::flags flags;
    for (auto& f : filters) flags.filters.push(view(f));
    for (auto& f : skips) flags.skip.push(view(f));
    for (int i = 0; i < direct; ++i) {
      if (i) reach("run-again");
      size_t from = log_.size(), text = err.data.size(); int verdict = -1; stack.clear();
      if (unlucky) heap::fail_nth((u64)p.get("oom"));
      int status = run_process([&] { verdict = best::test::run_all(flags); });
      heap::fail_nth(0);
      if (status != -1) {
        if (status <= 0) fail("C14", "status", "a run that did not end ended the process with status %d", status);
        if (!unlucky && (stack.empty() || strcmp(last_end_how, "exit"))) fail("C14", "crashed", "the runner crashed: %s", show(err.data).c_str());
        return;
      }
      judge(p, selected, from, verdict, err.data.substr(text), !faulty);
    }
  } else {
    std::vector<char*> v; for (auto& a : argv) v.push_back(a.data()); v.push_back(nullptr);
    if (unlucky) heap::fail_nth((u64)p.get("oom"));
    int status = run_process([&] { best::app::start((int)argv.size(), v.data()); });
    heap::fail_nth(0);
    std::string text = err.data;
    if (!strcmp(last_end_how, "exit")) {
      int again = run_process([] { start::run_exit_handlers(); });
      if (again != -1) { fail("C14", "exit", "the process failed while exiting: %s", show(err.data).c_str()); return; }
    }
    out.drain();
    if (status == -1) { fail("C14", "returned", "running the tests returned"); return; }
    if (!stack.empty() || (unlucky && status > 1)) {
      if (status <= 0) fail("C14", "status", "a run that did not end ended the process with status %d", status);
      return;
    }
    if (status == 128 && log_.empty() && has(text, "fatal")) { fail("C14", "arguments", "the arguments were rejected: %s", show(text).c_str()); return; }
    if (strcmp(last_end_how, "exit") || status > 1) { fail("C14", "crashed", "the runner ended the process by %s with status %d: %s", last_end_how, status, show(text).c_str()); return; }
    judge(p, selected, 0, status == 0, text, !faulty);
    reach("whole-process");
  }
  if (lost >= 0) fail("C14", "forgotten", "test %s, registered before the library was initialised, was selected and never ran", names[(size_t)lost].c_str());
}
RegisterWorld w1({"tests", gen, run, 0, true});
}  // namespace
}  // namespace sim

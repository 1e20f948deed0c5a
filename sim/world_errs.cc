// World: threads that fail, capture the system error, and use the captured
// value while everything goes on failing (C19).
#include <cerrno>
#include <cstring>
#include <map>
#include "sim.h"
#include "best/container/option.h"
#include "best/io/ioerr.h"
#include "best/text/format.h"

extern char early_name[64];
extern char early_text[256];
namespace sim {
namespace {
constexpr int Slots = 3;
struct Known { std::string name, message; };
const std::map<int, Known>& known() {
  static std::map<int, Known> k = [] {
    std::map<int, Known> m;
    for (int i = 1; i < 200; ++i)
      if (const char* n = strerrorname_np(i)) m[i] = {n, strerrordesc_np(i)};
    return m;
  }();
  return k;
}
bool same_name(int code, const std::string& got) {
  auto it = known().find(code);
  if (it == known().end()) return false;
  if (it->second.name == got) return true;
  struct A { const char* n; int c; };
  for (A a : {A{"EWOULDBLOCK", EWOULDBLOCK}, A{"EAGAIN", EAGAIN}, A{"EDEADLOCK", EDEADLOCK}, A{"EDEADLK", EDEADLK}, A{"ENOTSUP", ENOTSUP}, A{"EOPNOTSUPP", EOPNOTSUPP}})
    if (a.c == code && got == a.n) return true;
  return false;
}
std::string text(best::str s) { return std::string(s.data(), s.size()); }

void inspect(const best::ioerr& e, int code, int how) {
  int before = errno;
  if (e.raw() != code || (int)e != code) { fail("C19", "code-changed", "a captured error holds %d instead of %d", e.raw(), code); return; }
  auto n = e.name(); auto m = e.message();
  bool is_known = known().count(code);
  if (n.has_value() != m.has_value()) fail("C19", "name-without-message", "error %d has only one of name and message", code);
  if (n.has_value() != is_known) { fail("C19", is_known ? "known-unnamed" : "unknown-named", "error %d %s", code, is_known ? "is known but has no name" : "is not known but has a name"); return; }
  std::string name = n.has_value() ? text(*n) : "";
  if (is_known) {
    if (!same_name(code, name)) fail("C19", "wrong-name", "error %d (%s) calls itself %s", code, known().at(code).name.c_str(), name.c_str());
    if (text(*m) != known().at(code).message) fail("C19", "wrong-message", "error %d (%s) says '%s' instead of '%s'", code, known().at(code).name.c_str(), text(*m).c_str(), known().at(code).message.c_str());
  }
  if (errno != before) fail("C19", "errno-changed", "looking at a captured error changed errno from %d to %d", before, errno);
  best::strbuf out;
  switch (how % 3) {
    case 0: out = best::format("{}", e); break;
    case 1: out = best::format("{:?}", e); break;
    case 2: out.push("before "); best::format(out, "{}", e); break;
  }
  if (errno != before) fail("C19", "errno-changed", "formatting a captured error changed errno from %d to %d", before, errno);
  Quiet q;
  std::string s(out.data(), out.size());
  if (s.find(std::to_string(code)) == s.npos) fail("C19", "not-distinguishable", "error %d formats as '%s'", code, s.c_str());
  if (is_known) {
    bool has = s.find(name) != s.npos && s.find(known().at(code).message) != s.npos;
    if (!has) fail("C19", "format-anonymous", "error %d (%s) formats as '%s'", code, known().at(code).name.c_str(), s.c_str());
    if (how % 2 && has) for (auto& [c, k] : known())
      if (c != code && s.find("(" + k.name + ")") != s.npos) fail("C19", "format-other", "error %d formats as '%s', which names another error", code, s.c_str());
  }
}
struct Slot { bool up = false; int code = 0; best::ioerr e = 1; best::ioresult<> r = best::ok(); best::option<best::ioerr> o; };

void thread_body(const std::vector<const Op*>& ops, const best::ioerr& shared, int shared_code) {
  Slot s[Slots];
  int cur = 0;            // what errno of this thread must be
  errno = 0;
  for (const Op* op : ops) {
    auto i = (u64)op->arg(1) % Slots, j = (u64)op->arg(2) % Slots;
    const std::string& k = op->kind;
    if (errno != cur) { fail("C19", "errno-changed", "errno became %d, it was left at %d", errno, cur); return; }
    if (k == "sysfail") { cur = (int)op->arg(3); errno = cur; continue; }
    if (k == "capture") {
      auto r = best::ioerr::current();
      if (errno != cur) { fail("C19", "errno-changed", "capturing the error changed errno from %d to %d", cur, errno); return; }
      if (r.is_ok() != (cur == 0)) { fail("C19", "captured-wrong", "capturing errno %d gave %s", cur, r.is_ok() ? "success" : "an error"); return; }
      s[i].up = cur != 0; s[i].code = cur;
      if (cur) {
        if (r.err()->raw() != cur) { fail("C19", "captured-wrong", "capturing errno %d gave error %d", cur, r.err()->raw()); return; }
        s[i].e = *r.err(); s[i].o = *r.err();
        s[i].r = std::move(r);
      } else { s[i].r = r; s[i].o = best::none; }
    } else if (k == "check") {
      if (!s[i].up) {
        if (s[i].o.has_value()) { fail("C19", "captured-wrong", "an absent error is present"); return; }
        continue;
      }
      switch (op->arg(3) % 3) {
        case 0: inspect(s[i].e, s[i].code, (int)op->arg(2)); break;
        case 1: if (!s[i].r.is_err()) { fail("C19", "captured-wrong", "a kept error turned into success"); return; } inspect(*s[i].r.err(), s[i].code, (int)op->arg(2)); break;
        case 2: if (!s[i].o.has_value()) { fail("C19", "captured-wrong", "a kept error vanished"); return; } inspect(*s[i].o, s[i].code, (int)op->arg(2)); break;
      }
    } else if (k == "copy") {
      if (i != j) s[i] = s[j];
    } else if (k == "compare") {
      if (s[i].up && s[j].up && (s[i].e == s[j].e) != (s[i].code == s[j].code)) { fail("C19", "comparison", "errors %d and %d compare as %s", s[i].code, s[j].code, s[i].e == s[j].e ? "equal" : "different"); return; }
    } else if (k == "shared") {
      inspect(shared, shared_code, (int)op->arg(2)); reach("shared-error");
    } else if (k == "alloc") {
      best::strbuf b; for (int q = 0; q < op->arg(3) % 60; ++q) b.push('x');
      b.clear();
    }
    note("op %lld errno %d", (long long)op->uid, cur);
    if (errno != cur) { fail("C19", "errno-changed", "%s changed errno from %d to %d", k.c_str(), cur, errno); return; }
  }
  for (auto& x : s) if (x.up) inspect(x.e, x.code, 0);
}
void gen(Rng& r, Plan& p) {
  int n = 1 + r.below(3);
  p.cfg["threads"] = n;
  auto code = [&]() -> i64 { return r.chance(10) ? 0 : r.chance(80) ? r.range(1, 140) : r.chance(50) ? r.range(120, 260) : r.range(1, 2147483647); };
  p.cfg["shared"] = 1 + code();
  int m = 3 + r.below(12);
  const char* ks[] = {"sysfail", "sysfail", "capture", "capture", "check", "check", "copy", "compare", "shared", "alloc"};
  for (int i = 0; i < m; ++i) {
    const char* k = ks[r.below(10)];
    i64 c = strcmp(k, "sysfail") ? (i64)r.below(60) : code();
    p.add(k, {(i64)r.below(n), (i64)r.below(Slots), (i64)r.below(12), c});
  }
}
void run(const Plan& p) {
  death_means("C19");
  errno = 0;
  if (strcmp(early_name, "EACCES")) fail("C19", "early-name", "during program start error 13 is named '%s'", early_name);
  if (!strstr(early_text, "EACCES")) fail("C19", "early-name", "during program start error 13 formats as '%s'", early_text);
  int n = (int)p.get("threads", 1); if (n < 1) n = 1;
  int sc = (int)p.get("shared", 5); if (sc < 1) sc = 1;
  best::ioerr shared(sc);
  std::vector<std::vector<const Op*>> ops(n);
  for (auto& op : p.ops) ops[(u64)op.arg(0) % n].push_back(&op);
  std::vector<std::function<void()>> bodies;
  for (int t = 0; t < n; ++t) bodies.push_back([&, t] { thread_body(ops[t], shared, sc); });
  if (!sched::run(bodies, p.sw)) fail("C19", "deadlock", "threads using errors wait for one another for ever");
  if (p.ops.size() >= 3) nontrivial();
  state(mix2(n, p.ops.size()));
}
RegisterWorld w1({"errs", gen, run, 6});
}  // namespace
}  // namespace sim

// Part of the simulated program: one command-line description, initialised
// with it, and parsing into text. CLI_N selects the type.
#include "cliw.h"
#include "best/cli/parser.h"

namespace cliw {
namespace {
std::string s(const auto& t) { return std::string(t.data(), t.size()); }
std::string n(long long v) { return std::to_string(v); }
std::string parse_one(best::pretext<best::wtf8> exe, best::span<const best::pretext<best::wtf8>> argv) {
  auto r = best::parse_flags<Flags<CLI_N>>(exe, argv);
  if (!r) return std::string(r.err()->is_fatal() ? "fatal " : "info ") + s(r.err()->message());
  auto& f = *r;
  std::string o = "ok " + n(f.alpha) + " " + n(f.beta) + " " + n(f.gamma) + " " + n(f.delta) + " " + n(f.epsilon) + " [";
  for (int x : f.more) o += n(x) + ",";
  o += "] " + (f.maybe ? n(*f.maybe) : std::string("-"));
  o += f.quick ? (*f.quick ? " +q" : " -q") : " .q";
  o += f.loud ? (*f.loud ? " +v" : " -v") : " .v";
  o += " '" + s(f.name) + "' {" + n(f.sub.level) + " '" + s(f.sub.arg) + "'}";
  for (auto* g : {&f.group, &f.flat}) {
    o += " (" + n(g->eks) + " " + n(g->why) + " ";
    for (int x : g->many) o += n(x) + ",";
    o += ")";
  }
  o += " '" + s(f.first) + "' <";
  for (auto& x : f.rest) o += "'" + s(x) + "'";
  return o + ">";
}
}  // namespace
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
std::string CAT(parse_, CLI_N)(const std::string& exe, const std::vector<std::string>& argv) {
  using P = best::pretext<best::wtf8>;
  best::vec<P> av;
  for (auto& a : argv) av.push(P(best::span(a.data(), a.size())));
  return parse_one(P(best::span(exe.data(), exe.size())), av);
}
}  // namespace cliw

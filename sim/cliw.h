// Command-line types that are identical but for where their descriptions lie.
#pragma once
#include <string>
#include <vector>
#include "best/cli/cli.h"
#include "best/container/option.h"
#include "best/container/vec.h"
#include "best/text/strbuf.h"

namespace cliw {
constexpr int Types = 3;
// What parsing gives, as text: every value, or the diagnostic.
using Argv = std::vector<std::string>;
std::string parse_0(const std::string& exe, const Argv& argv);
std::string parse_1(const std::string& exe, const Argv& argv);
std::string parse_2(const std::string& exe, const Argv& argv);
inline std::string parse(int type, const std::string& exe, const Argv& argv) {
  return type == 0 ? parse_0(exe, argv) : type == 1 ? parse_1(exe, argv) : parse_2(exe, argv);
}

template <int N> struct Sub {
  int level = 0;
  best::str arg;
  constexpr friend auto BestReflect(auto& m, Sub*) {
    using ::best::cli;
    return m.infer().with(&Sub::level, cli::flag{.letter = 'l', .arg = "INT", .help = "how deep"});
  }
};
template <int N> struct Grp {
  int eks = 0, why = 0;
  best::vec<int> many;
  constexpr friend auto BestReflect(auto& m, Grp*) {
    using ::best::cli;
    return m.infer()
      .with(&Grp::eks, cli::flag{.letter = 'x', .arg = "INT", .help = "a group integer"})
      .with(&Grp::why, cli::flag{.letter = 'y', .arg = "INT", .help = "another"})
      .with(&Grp::many, cli::flag{.arg = "INT", .help = "several"});
  }
};
template <int N> struct Flags {
  int alpha = 0, beta = 0, gamma = 0, delta = 0, epsilon = 0;
  best::vec<int> more;
  best::option<int> maybe;
  best::option<bool> quick, loud;
  best::strbuf name;
  Sub<N> sub;
  Grp<N> group, flat;
  best::str first;
  best::vec<best::strbuf> rest;
  constexpr friend auto BestReflect(auto& m, Flags*) {
    using ::best::cli;
    return m.infer()
      .with(cli::app{.name = "many", .about = "a program", .version = "1.2.3"})
      .with(&Flags::alpha, cli::flag{.arg = "INT", .count = cli::Required, .help = "first"})
      .with(&Flags::beta, cli::flag{.letter = 'B', .arg = "INT", .count = cli::Required, .help = "second"})
      .with(&Flags::gamma, cli::flag{.arg = "INT", .count = cli::Required, .help = "third"}, cli::alias{"gee"})
      .with(&Flags::delta, cli::flag{.arg = "INT", .count = cli::Required, .help = "fourth"})
      .with(&Flags::epsilon, cli::flag{.arg = "INT", .count = cli::Required, .help = "fifth"})
      .with(&Flags::more, cli::flag{.letter = 'm', .arg = "INT", .help = "any number"})
      .with(&Flags::maybe, cli::flag{.arg = "INT", .help = "at most one"})
      .with(&Flags::quick, cli::flag{.letter = 'q', .help = "quickly"})
      .with(&Flags::loud, cli::flag{.letter = 'v', .count = cli::Repeated, .help = "loudly"})
      .with(&Flags::name, cli::flag{.letter = 'n', .vis = cli::Hidden, .help = "a name"}, cli::alias{"title"})
      .with(&Flags::sub, cli::subcommand{.help = "something else", .about = "something else entirely"})
      .with(&Flags::group, cli::group{.name = "group", .letter = 'G', .help = "grouped"})
      .with(&Flags::flat, cli::group{});
  }
};
}  // namespace cliw

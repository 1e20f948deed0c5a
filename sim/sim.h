// Simulator core: seeded PRNG, plans, event log, violation reporting,
// simulated heap, simulated standard streams, simulated process end, and a
// cooperative scheduler for real threads.
//
// Nothing in here includes library headers; worlds do.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <csetjmp>

namespace sim {
using i64 = std::int64_t;
using u64 = std::uint64_t;
using u32 = std::uint32_t;
using u8 = std::uint8_t;

// ---------------------------------------------------------------- PRNG
inline u64 mix(u64 x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline u64 mix2(u64 a, u64 b) { return mix(mix(a) ^ (b * 0xd6e8feb86659fd93ull)); }
struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(mix(seed ^ 0x5151)) {}
  u64 next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
  // Uniform in [0, n).
  u64 below(u64 n) { return n ? next() % n : 0; }
  i64 range(i64 lo, i64 hi) { return lo + (i64)below((u64)(hi - lo + 1)); }
  bool chance(int pct) { return below(100) < (u64)pct; }
  template <typename C> auto& pick(C& c) { return c[below(c.size())]; }
};

// ---------------------------------------------------------------- plans
struct Op {
  i64 uid = 0;             // stable across minimisation
  std::string kind;
  std::vector<i64> a;      // arguments; missing ones read as 0
  i64 arg(size_t i) const { return i < a.size() ? a[i] : 0; }
};
struct Switch { u64 at; int to; };  // at global step `at`, run thread `to`
struct Plan {
  std::string world;
  u64 seed = 0;
  std::map<std::string, i64> cfg;
  std::vector<Op> ops;
  std::vector<Switch> sw;
  i64 get(const char* k, i64 d = 0) const {
    auto it = cfg.find(k);
    return it == cfg.end() ? d : it->second;
  }
  Op& add(std::string kind, std::vector<i64> a) {
    ops.push_back({(i64)ops.size() + 1, std::move(kind), std::move(a)});
    return ops.back();
  }
};

// ---------------------------------------------------------------- worlds
struct World {
  const char* name;
  void (*gen)(Rng&, Plan&);
  void (*run)(const Plan&);
  // If non-null, called once the base plan has run to completion with no
  // thread switches, to draw schedules: number of extra schedules per plan.
  int schedules;
  bool manual_start = false;
};
void add_world(World w);
struct RegisterWorld { RegisterWorld(World w) { add_world(w); } };

// ---------------------------------------------------------------- log
// Mixes an event into the run's log hash (and prints it in verbose mode).
// Never draws randomness, never reads clocks, never contains host addresses.
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void note_bytes(const char* tag, const void* p, size_t n);
// Abstract-state coverage: counts distinct keys over the batch.
void state(u64 key);
// Rare-condition probes and faults that really fired.
void reach(const char* probe);
void fault(const char* kind);
// Makes the run count as non-trivial.
void nontrivial();

// Reports a violation of `prop` (e.g. "C01"; several separated by commas).
// If none of them is being checked, the violation is ignored and this returns.
void fail(const char* props, const char* cls, const char* fmt, ...)
    __attribute__((format(printf, 3, 4)));
bool checking(const char* prop);
// Harness misuse: ends with an error exit (never counts as a violation).
[[noreturn]] void harness_error(const char* fmt, ...)
    __attribute__((format(printf, 1, 2)));
// What is being done now; part of crash reports.
void set_op(const Op* op);
// Which properties a raw process death (signal, sanitizer report, hang,
// unexpected process end) violates in this world, e.g. "C01,C02".
void death_means(const char* props);

// ---------------------------------------------------------------- heap
struct HeapCfg {
  int gap = 0;        // 0 tight, 1 random gaps
  int reuse = 0;      // 0 never, 1 LIFO immediate, 2 random
  int realloc_ = 0;   // 0 always move, 1 in place when possible, 2 random
  int fill = 0;       // 0: 0x00, 1: 0xff, 2: random, 3: stale contents
  int desc = 0;       // 1: descending addresses
  u64 salt = 0;
};
struct Block {
  u64 addr; size_t size, align; int owner; u64 serial; bool is_static = false;
};
namespace heap {
void reset(const HeapCfg&);            // start of a run
void* get(size_t size, size_t align, int owner, bool zero);
void put(void* p);
// Grows/shrinks; may move. Contents preserved up to min.
void* resize(void* p, size_t size, size_t align);
Block* find(const void* p);            // live block starting exactly at p
Block* containing(const void* p);      // live block containing p
bool in_arena(const void* p);
size_t live();                         // number of live blocks, statics aside
void adopt_statics();                  // live blocks now belong to the process
size_t live(int owner);
void each_live(const std::function<void(Block&)>&);
extern u64 allocs, frees, resizes, moved_resizes;    // per run
extern u64 total_allocs;               // per process
void on_free(void (*)(u64 addr, size_t size));  // hook before a block dies
// Exhaustion: the nth heap request from now fails (0 = off).
void fail_nth(u64 n);
bool pending();                        // that request has not come yet
bool should_fail();                    // consumes one request
// Memory that is asked for but not needed (sorting): the next requests refused,
// and how many were granted.
extern u64 refuse_optional, optional;
u64 rel(const void* p);                // arena-relative address (loggable)
void dump();
}  // namespace heap
// C heap used by library code (interposed). owner id of those blocks:
constexpr int kCHeap = -7;
struct CHeapHooks {
  // When set, observes each C heap call.
  void (*on_call)(const char* fn, void* in, size_t size, size_t align, void* out);
};
extern CHeapHooks cheap_hooks;

// ---------------------------------------------------------------- process end
// Runs `f`; returns -1 if it returned normally, or the exit status with which
// it ended the simulated process (abort = 134). After a simulated end, no
// destructors have been run (as in a real process).
int run_process(const std::function<void()>& f);
// Whether the current thread is inside run_process.
bool in_process();
// Used by seams to end the simulated process (e.g. allocator exhaustion).
[[noreturn]] void end_process(int status, const char* how);
extern const char* last_end_how;

// ---------------------------------------------------------------- process start
// Each run starts from the library's pristine static storage, as a new process
// would; then the library's static initialisers run, in link order unless the
// world asks to run them itself (World::manual_start).
namespace start {
int initialisers();                    // how many there are
void run_initialiser(int i);           // in link order
void run_all();
void run_exit_handlers();              // what exit() would run, in reverse
}  // namespace start

// ---------------------------------------------------------------- streams
struct Stream {
  std::string data;             // accepted bytes
  struct Piece { int thread; size_t off, len; };
  std::vector<Piece> pieces;    // individual accepted writes
  bool closed = false;
  // Fault plan: per write call index -> (kind, amount).
  std::map<u64, std::pair<int, i64>> faults;  // kind 1 = error, 2 = short
  u64 calls = 0;
  // A stdio stream that is not flushed by each call: what it holds reaches the
  // device at a flush, or at exit() or the return of main; never at _exit().
  bool buffered = false;
  std::vector<std::pair<int, std::string>> pending;
  void drain();
  // What each thread has had accepted, and how many of its writes failed, at
  // the points it marked.
  struct Mark { u64 accepted = 0, faults = 0; };
  std::map<int, Mark> now;
  std::map<int, std::vector<Mark>> marks;
  void mark(int who) { marks[who].push_back(now[who]); }
  void clear() { *this = Stream(); }
};
extern Stream out, err;

// ---------------------------------------------------------------- loader
// What the program sees instead of dladdr(); `info` is a Dl_info.
extern int (*loader_lookup)(const void* p, void* info);

// ---------------------------------------------------------------- scheduler
namespace sched {
// Runs the given bodies as threads under the plan's switch list. Step
// numbering continues over the whole run. Returns false on deadlock.
bool run(const std::vector<std::function<void()>>& bodies,
         const std::vector<Switch>& sw);
void yield(int site);                   // possible switch point
void block_until(const std::function<bool()>& ready, const char* why);
int self();                             // -1 outside threads
extern bool armed;                      // coverage callbacks yield only if set
extern u64 steps, switches;
extern int ended_status, ended_by;      // of the last run(): -1 unless a thread ended the process
extern u64 trace_hash;                  // hash of the interleaving taken
}  // namespace sched

// No switch points while one of these is alive (the harness's own work).
struct Quiet { bool was = sched::armed; Quiet() { sched::armed = false; } ~Quiet() { sched::armed = was; } };
// ---------------------------------------------------------------- helpers
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string hex(const void* p, size_t n);
extern bool verbose;
}  // namespace sim

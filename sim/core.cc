// Simulator core implementation. Not instrumented, not symbol-redirected.
#include "sim.h"
#include <dlfcn.h>
#include <new>

#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sys/uio.h>
#include <semaphore.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <unistd.h>

#include <algorithm>
#include <set>
#include <unordered_set>
#include <sanitizer/asan_interface.h>

namespace sim {
bool verbose = false;
namespace {
std::vector<World>& worlds() { static std::vector<World> w; return w; }

u64 log_hash;
u64 log_events;
const Op* cur_op;
const char* death_props = "";
std::vector<std::string> enabled;   // properties being checked
bool running = false;
bool is_nontrivial = false;

std::map<std::string, u64> reach_counts, fault_counts;
u64 runs_with_fault;
bool run_had_fault;
std::unordered_set<u64> states_seen, runs_seen, traces_seen, nontrivial_seen;
u64 total_ops, total_steps, total_switches, total_events, n_runs, n_ignored;
u64 n_ends;

void raw(const std::string& s) {
  size_t off = 0;
  while (off < s.size()) {
    ssize_t n = ::write(1, s.data() + off, s.size() - off);
    if (n <= 0) { if (errno == EINTR) continue; break; }
    off += n;
  }
}
std::string jesc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
const Plan* gen_base = nullptr;
std::string (*gen_text)(const Plan&) = nullptr;
void report(const char* props, const std::string& cls, const std::string& msg) {
  // Asked only for the plan, and already its schedule-free form fails: that is
  // the plan.
  if (gen_base) { std::string t = gen_text(*gen_base); raw(t); _exit(0); }
  raw(fmt("\nFAIL {\"props\":\"%s\",\"class\":\"%s\",\"msg\":\"%s\",\"op\":%lld,"
          "\"opkind\":\"%s\",\"hash\":\"%016llx\"}\n",
          props, jesc(cls).c_str(), jesc(msg).c_str(),
          cur_op ? (long long)cur_op->uid : 0LL,
          cur_op ? jesc(cur_op->kind).c_str() : "",
          (unsigned long long)log_hash));
}
bool in_list(const char* props, const std::string& p) {
  const char* s = props;
  while (*s) {
    const char* e = strchr(s, ',');
    size_t n = e ? size_t(e - s) : strlen(s);
    if (p.size() == n && !memcmp(p.data(), s, n)) return true;
    s += n + (e ? 1 : 0);
  }
  return false;
}
}  // namespace

std::string fmt(const char* f, ...) {
  va_list va, vb;
  va_start(va, f);
  va_copy(vb, va);
  int n = vsnprintf(nullptr, 0, f, va);
  std::string s(n, 0);
  vsnprintf(s.data(), n + 1, f, vb);
  va_end(va); va_end(vb);
  return s;
}
std::string hex(const void* p, size_t n) {
  std::string s;
  for (size_t i = 0; i < n; ++i) {
    char b[4]; snprintf(b, 4, "%02x", ((const u8*)p)[i]); s += b;
  }
  return s;
}
void add_world(World w) { worlds().push_back(w); }

static void absorb(const char* p, size_t n) {
  u64 h = log_hash;
  for (size_t i = 0; i < n; ++i) h = (h ^ (u8)p[i]) * 0x100000001b3ull;
  log_hash = mix(h);
  ++log_events;
}
void note(const char* f, ...) {
  char buf[1024];
  va_list va; va_start(va, f);
  int n = vsnprintf(buf, sizeof buf, f, va);
  va_end(va);
  if (n >= (int)sizeof buf) n = sizeof buf - 1;
  absorb(buf, n);
  if (verbose) raw(fmt("  [%d] %s\n", sched::self(), buf));
}
void note_bytes(const char* tag, const void* p, size_t n) {
  absorb(tag, strlen(tag));
  absorb((const char*)p, n);
  if (verbose) raw(fmt("  [%d] %s %s\n", sched::self(), tag, hex(p, n < 200 ? n : 200).c_str()));
}
void state(u64 k) { states_seen.insert(k); }
void reach(const char* p) { ++reach_counts[p]; }
void fault(const char* k) { ++fault_counts[k]; run_had_fault = true; }
void nontrivial() { is_nontrivial = true; }
bool checking(const char* p) {
  return enabled.empty() ||
         std::find(enabled.begin(), enabled.end(), p) != enabled.end();
}
void set_op(const Op* op) {
  cur_op = op;
  if (op) {
    ++total_ops;
    std::string s = op->kind;
    for (i64 v : op->a) s += fmt(" %lld", (long long)v);
    note("op %lld %s", (long long)op->uid, s.c_str());
  }
}
void death_means(const char* p) { death_props = p; }
// Recorded findings ("class|part of the message"): counted, and the run goes on.
static std::vector<std::string> known;
static std::map<std::string, u64> known_counts;
void fail(const char* props, const char* cls, const char* f, ...) {
  char buf[4096];
  va_list va; va_start(va, f);
  vsnprintf(buf, sizeof buf, f, va);
  va_end(va);
  bool on = enabled.empty();
  for (auto& e : enabled) on |= in_list(props, e);
  if (!on) {
    ++n_ignored;
    if (verbose) raw(fmt("  (ignored) %s %s: %s\n", props, cls, buf));
    return;
  }
  for (auto& k : known) {
    size_t bar = k.find('|');
    if (k.compare(0, bar, cls) == 0 && std::string(buf).find(k.substr(bar + 1)) != std::string::npos) {
      ++known_counts[k];
      if (verbose) raw(fmt("  (recorded) %s %s: %s\n", props, cls, buf));
      return;
    }
  }
  report(props, cls, buf);
  _exit(1);
}
void harness_error(const char* f, ...) {
  char buf[4096];
  va_list va; va_start(va, f);
  vsnprintf(buf, sizeof buf, f, va);
  va_end(va);
  raw(fmt("\nHARNESS %s\n", buf));
  _exit(3);
}
static void death(const std::string& cls, const std::string& msg) {
  static volatile sig_atomic_t once = 0;
  if (once++) return;
  if (!running) { raw(fmt("\nHARNESS death outside run: %s %s\n", cls.c_str(), msg.c_str())); return; }
  report(death_props, cls, msg);
}

// ------------------------------------------------------------------- heap
namespace heap {
namespace {
constexpr u64 Base = 0x200000000000ull;
constexpr u64 Size = 1ull << 30;
HeapCfg cfg;
Rng rng(0);
u64 lo, hi;                       // bump cursors
u64 touched_lo, touched_hi;       // what to re-poison
bool mapped = false;
std::map<u64, Block> blocks;      // live
std::vector<Block> freed;         // reusable
u64 serial;
u64 fail_in;
void (*free_hook)(u64, size_t);
void map_arena() {
  if (mapped) return;
  void* p = mmap((void*)Base, Size, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)Base) harness_error("cannot map arena");
  mapped = true;
  touched_lo = Base; touched_hi = Base + 4096;
}
u64 place(size_t size, size_t align) {
  if (align < 8) align = 8;
  size_t gap = 32 + (cfg.gap ? 16 * rng.below(8) : 0);
  u64 p;
  if (!cfg.desc) {
    p = lo + gap;
    p = (p + align - 1) / align * align;
    // Exactly aligned, never more.
    if (p % (2 * align) == 0) p += align;
    lo = p + size;
    if (lo >= Base + Size) { report(death_props, "memory-explosion", "simulated heap exhausted"); _exit(1); }
  } else {
    p = hi - gap - size;
    p = p / align * align;
    if (p % (2 * align) == 0) p -= align;
    hi = p;
    if (hi <= Base) { report(death_props, "memory-explosion", "simulated heap exhausted"); _exit(1); }
  }
  touched_lo = std::min(touched_lo, p > Base + 64 ? p - 64 : Base);
  touched_hi = std::max(touched_hi, p + size + 64);
  return p;
}
}  // namespace
u64 allocs, frees, resizes, moved_resizes, total_allocs;

void reset(const HeapCfg& c) {
  map_arena();
  cfg = c;
  rng = Rng(c.salt);
  blocks.clear(); freed.clear();
  if (touched_hi > touched_lo) {
    size_t n = touched_hi - touched_lo;
    __asan_unpoison_memory_region((void*)touched_lo, n);
    memset((void*)touched_lo, 0xA5, n);
    u64 a = touched_lo & ~7ull, b = (touched_hi + 7) & ~7ull;
    __asan_poison_memory_region((void*)a, b - a);
  } 
  static bool first = true;
  if (first) { __asan_poison_memory_region((void*)Base, Size); first = false; }
  u64 mid = Base + Size / 2;
  lo = mid; hi = mid;
  touched_lo = touched_hi = mid;
  serial = 0; fail_in = 0; refuse_optional = optional = 0;
  allocs = frees = resizes = moved_resizes = 0;
  free_hook = nullptr;
}
void on_free(void (*f)(u64, size_t)) { free_hook = f; }
void fail_nth(u64 n) { fail_in = n; }
bool pending() { return fail_in != 0; }
u64 refuse_optional = 0, optional = 0;
bool should_fail() {
  if (fail_in && --fail_in == 0) { fault("heap-exhausted"); return true; }
  return false;
}
void* get(size_t size, size_t align, int owner, bool zero) {
  ++allocs; ++total_allocs;
  u64 p = 0;
  if (cfg.reuse && !freed.empty() && (cfg.reuse == 1 || rng.chance(50))) {
    for (size_t i = freed.size(); i-- > 0;) {
      if (freed[i].size == size && freed[i].addr % (align < 8 ? 8 : align) == 0) {
        p = freed[i].addr;
        freed.erase(freed.begin() + i);
        fault("block-reused");
        break;
      }
    }
  }
  if (!p) p = place(size, align);
  blocks[p] = Block{p, size, align, owner, ++serial};
  __asan_unpoison_memory_region((void*)p, size);
  if (zero) memset((void*)p, 0, size);
  else if (cfg.fill == 0) memset((void*)p, 0x00, size);
  else if (cfg.fill == 1) memset((void*)p, 0xff, size);
  else if (cfg.fill == 2) { u64 x = mix2(cfg.salt, serial); for (size_t i = 0; i < size; ++i) { if (i % 8 == 0) x = mix(x); ((u8*)p)[i] = x >> (8 * (i % 8)); } }
  return (void*)p;
}
void put(void* q) {
  u64 p = (u64)q;
  auto it = blocks.find(p);
  if (it == blocks.end()) harness_error("heap::put of unknown block");
  Block b = it->second;
  if (free_hook) free_hook(b.addr, b.size);
  blocks.erase(it);
  ++frees;
  __asan_poison_memory_region((void*)(p), (b.size + 7) & ~7ull);
  freed.push_back(b);
}
void* resize(void* q, size_t size, size_t align) {
  u64 p = (u64)q;
  auto it = blocks.find(p);
  if (it == blocks.end()) harness_error("heap::resize of unknown block");
  Block b = it->second;
  ++resizes;
  bool in_place = cfg.realloc_ == 1 || (cfg.realloc_ == 2 && rng.chance(50));
  if (in_place && p % (align < 8 ? 8 : align) == 0) {
    bool last = !cfg.desc && p + b.size == lo;
    if (size <= b.size || last) {
      if (last && size > b.size) { lo = p + size; touched_hi = std::max(touched_hi, lo + 64); if (lo >= Base + Size) { report(death_props, "memory-explosion", "simulated heap exhausted"); _exit(1); } }
      u64 end = p + std::max(size, b.size);
      u64 a = (p + size) & ~7ull; 
      if (size < b.size) {
        if (free_hook) free_hook(p + size, b.size - size);
        __asan_poison_memory_region((void*)(p + size), ((end + 7) & ~7ull) - (p + size));
      } else {
        __asan_unpoison_memory_region((void*)p, size);
        memset((void*)(p + b.size), cfg.fill == 0 ? 0 : cfg.fill == 1 ? 0xff : 0x5c, size - b.size);
      }
      (void)a;
      it->second.size = size;
      it->second.align = align;
      fault("resize-in-place");
      return q;
    }
  }
  ++moved_resizes;
  fault("resize-moved");
  void* n = get(size, align, b.owner, false);
  --allocs;
  memcpy(n, q, std::min(size, b.size));
  auto hook = free_hook; free_hook = nullptr;
  put(q);
  free_hook = hook;
  --frees;
  return n;
}
Block* find(const void* p) {
  auto it = blocks.find((u64)p);
  return it == blocks.end() ? nullptr : &it->second;
}
Block* containing(const void* q) {
  u64 p = (u64)q;
  auto it = blocks.upper_bound(p);
  if (it == blocks.begin()) return nullptr;
  --it;
  return p < it->second.addr + it->second.size ? &it->second : nullptr;
}
bool in_arena(const void* p) { return (u64)p >= Base && (u64)p < Base + Size; }
size_t live() { size_t n = 0; for (auto& [k, b] : blocks) n += !b.is_static; return n; }
size_t live(int o) { size_t n = 0; for (auto& [k, b] : blocks) n += !b.is_static && b.owner == o; return n; }
static void adopt_since(u64 n) { for (auto& [k, b] : blocks) if (b.serial > n) b.is_static = true; }
static u64 last_serial() { return serial; }
void adopt_statics() { for (auto& [k, b] : blocks) b.is_static = true; }
void each_live(const std::function<void(Block&)>& f) { for (auto& [k, b] : blocks) if (!b.is_static) f(b); }
u64 rel(const void* p) { return (u64)p - Base; }
void dump() { for (auto& [k, b] : blocks) raw(fmt("   block +%llx size %zu align %zu owner %d #%llu\n", (unsigned long long)(k - Base), b.size, b.align, b.owner, (unsigned long long)b.serial)); }
}  // namespace heap
CHeapHooks cheap_hooks;

// ------------------------------------------------------------------- process start
}  // namespace sim
extern "C" {
// Bounds of the library's writable static storage and initialisers (lib.ld).
extern char sim_lib_start[] __attribute__((weak));
extern char sim_lib_end[] __attribute__((weak));
extern char sim_has_tls[] __attribute__((weak));   // its address is the answer
extern void (*__start_sim_init[])() __attribute__((weak));
extern void (*__stop_sim_init[])() __attribute__((weak));
}
namespace sim {
namespace start {
namespace {
std::vector<u64> pristine;
struct Exit { void (*fn)(void*); void* arg; };
std::vector<Exit> exits;
__attribute__((no_sanitize("address"), noinline)) void copy_out() {
  volatile u64* p = (volatile u64*)sim_lib_start;
  size_t n = (sim_lib_end - sim_lib_start) / 8;
  pristine.resize(n);
  u64* q = pristine.data();
  for (size_t i = 0; i < n; ++i) { u64 x = p[i]; q[i] = x; }
}
__attribute__((no_sanitize("address"), noinline)) void copy_in() {
  volatile u64* p = (volatile u64*)sim_lib_start;
  const u64* q = pristine.data();
  for (size_t i = 0; i < pristine.size(); ++i) p[i] = q[i];
}
}  // namespace
bool is_static(const void* p) { return (const char*)p >= sim_lib_start && (const char*)p < sim_lib_end; }
void save() { if (sim_lib_start) copy_out(); }
void restore() { exits.clear(); if (sim_lib_start) copy_in(); }
int initialisers() { return __start_sim_init ? int(__stop_sim_init - __start_sim_init) : 0; }
void run_initialiser(int i) { __start_sim_init[i](); }
void run_all() { for (int i = 0; i < initialisers(); ++i) run_initialiser(i); }
void at_exit(void (*fn)(void*), void* arg) { exits.push_back({fn, arg}); }
// Destructors of thread-local objects of the simulated thread running here.
thread_local std::vector<Exit>* thread_exits = nullptr;
void at_thread_exit(void (*fn)(void*), void* arg) {
  if (!thread_exits) thread_exits = new std::vector<Exit>;
  thread_exits->push_back({fn, arg});
}
void end_thread() {
  while (thread_exits && !thread_exits->empty()) { Exit e = thread_exits->back(); thread_exits->pop_back(); e.fn(e.arg); }
}
void forget_thread() { delete thread_exits; thread_exits = nullptr; }
void run_exit_handlers() {
  end_thread();
  while (!exits.empty()) { Exit e = exits.back(); exits.pop_back(); e.fn(e.arg); }
}
}  // namespace start

// ------------------------------------------------------------------- process end
namespace {
thread_local jmp_buf* proc_top = nullptr;
thread_local int proc_status;
}
const char* last_end_how = "";
bool in_process() { return proc_top != nullptr || sched::self() >= 0; }

// ------------------------------------------------------------------- scheduler
static int lock_owner[2] = {-2, -2};
namespace sched {
bool armed = false;
u64 steps, switches, trace_hash;
int ended_status, ended_by;
namespace {
struct Thread {
  int id; sem_t sem; pthread_t th;
  std::function<void()> body;
  bool done = false;
  const std::function<bool()>* ready = nullptr;
  const char* why = "";
  jmp_buf top;
};
thread_local Thread* me = nullptr;
std::vector<Thread*> threads;
const std::vector<Switch>* sw; size_t swi;
sem_t main_sem;
bool dying, deadlock;
bool runnable(Thread* t) { return !t->done && (!t->ready || dying || (*t->ready)()); }
void resume(Thread* t) { trace_hash = mix2(trace_hash, (u64)t->id * 1000003 + steps); sem_post(&t->sem); }
void park(Thread* t) { while (sem_wait(&t->sem) != 0) {} }
// Picks the first runnable thread at or after `from` (cyclically).
Thread* choose(int from, Thread* except) {
  int n = threads.size();
  for (int i = 0; i < n; ++i) {
    Thread* t = threads[((from % n + n) + i) % n];
    if (t != except && runnable(t)) return t;
  }
  return nullptr;
}
void after_resume() {
  if (dying && me) longjmp(me->top, 1);
}
void* entry(void* p) {
  me = (Thread*)p;
  park(me);
  if (setjmp(me->top) == 0) { if (!dying) { me->body(); start::end_thread(); } }
  start::forget_thread();
  proc_top = nullptr;
  me->done = true;
  Thread* n = choose(me->id + 1, me);
  if (n) resume(n);
  else {
    for (auto* t : threads) if (!t->done) deadlock = true;
    if (deadlock) {
      dying = true;
      n = choose(0, me);
      if (n) { resume(n); return nullptr; }
    }
    sem_post(&main_sem);
  }
  return nullptr;
}
}  // namespace
int self() { return me ? me->id : -1; }
std::vector<u64> seam_steps;   // steps at seams or at accesses to static storage
void yield(int site) {
  if (!me || !sw) return;
  ++steps;
  if (site < 10 && site && seam_steps.size() < 1024) seam_steps.push_back(steps);
  if (swi < sw->size() && (*sw)[swi].at <= steps) {
    int to = (*sw)[swi].to;
    while (swi < sw->size() && (*sw)[swi].at <= steps) ++swi;
    Thread* t = choose(to, nullptr);
    if (t && t != me) {
      ++switches;
      Thread* m = me;
      resume(t);
      park(m);
      after_resume();
    }
  }
}
void block_until(const std::function<bool()>& ready, const char* why) {
  if (!me) { if (!ready()) fail(death_props, "self-deadlock", "%s", why); return; }
  while (!ready()) {
    ++steps;
    me->ready = &ready; me->why = why;
    Thread* t = choose(me->id + 1, me);
    if (!t) { deadlock = true; dying = true; t = choose(me->id + 1, me); }
    Thread* m = me;
    if (t) { ++switches; resume(t); park(m); }
    m->ready = nullptr;
    after_resume();
  }
}
// What runs after the threads (the rest of the process's exit) is not blocked by
// locks they held: their holder is the one exiting, or would have gone on.
bool run(const std::vector<std::function<void()>>& bodies, const std::vector<Switch>& s) {
  threads.clear();
  sem_init(&main_sem, 0, 0);
  dying = deadlock = false;
  ended_by = ended_status = -1;
  sw = &s; swi = 0;
  for (size_t i = 0; i < bodies.size(); ++i) {
    Thread* t = new Thread();
    t->id = i; t->body = bodies[i];
    sem_init(&t->sem, 0, 0);
    threads.push_back(t);
    pthread_attr_t at; pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1 << 20);
    if (pthread_create(&t->th, &at, entry, t)) harness_error("pthread_create");
    pthread_attr_destroy(&at);
  }
  armed = true;
  if (!threads.empty()) {
    resume(choose(0, nullptr));
    while (sem_wait(&main_sem) != 0) {}
  }
  armed = false;
  for (auto* t : threads) { pthread_join(t->th, nullptr); sem_destroy(&t->sem); delete t; }
  threads.clear();
  for (auto& o : lock_owner) o = -2;
  sw = nullptr;
  sem_destroy(&main_sem);
  return !deadlock;
}
}  // namespace sched

static thread_local int holding = 0;
int (*loader_lookup)(const void*, void*) = nullptr;
int run_process(const std::function<void()>& f) {
  jmp_buf jb;
  jmp_buf* saved = proc_top;
  const u64 before = heap::last_serial();
  if (setjmp(jb) == 0) {
    proc_top = &jb;
    f();
    proc_top = saved;
    return -1;
  }
  proc_top = saved;
  heap::adopt_since(before);   // memory ends with its process
  for (auto& o : lock_owner) if (o == sched::self()) o = -2;   // locks end with their process
  holding = 0;
  return proc_status;
}
void end_process(int status, const char* how) {
  ++n_ends;
  note("process-end %d %s", status, how);
  last_end_how = how;
  if (!strcmp(how, "exit")) { out.drain(); err.drain(); }
  else { out.pending.clear(); err.pending.clear(); }
  if (proc_top) { proc_status = status; longjmp(*proc_top, 1); }
  if (sched::me) {
    sched::yield(0);
    proc_status = status;
    if (sched::ended_by < 0) { sched::ended_by = sched::self(); sched::ended_status = status; }
    sched::dying = true;
    sched::after_resume();
  }
  fail(death_props, "process-end", "simulated process ended unexpectedly with status %d (%s); stderr: %s",
       status, how, err.data.c_str());
  // Not a checked property: the run cannot go on.
  raw(fmt("\nABANDON process-end status %d\n", status));
  _exit(4);
}

// ------------------------------------------------------------------- streams
Stream out, err;
static Stream* stream_of(FILE* f) {
  if (f == stdout) return &out;
  if (f == stderr) return &err;
  return nullptr;
}
// Returns accepted bytes.
void Stream::drain() {
  for (auto& [who, text] : pending) { pieces.push_back({who, data.size(), text.size()}); data += text; }
  pending.clear();
}
static size_t accept(Stream& s, const char* p, size_t n, bool& failed, bool direct = false, bool locked = true) {
  int idx = &s == &err;
  sched::yield(1);
  int meid = sched::self();
  if (!direct && locked && lock_owner[idx] != -2 && lock_owner[idx] != meid)
    sched::block_until([&] { return lock_owner[idx] == -2; }, "stream lock");
  u64 call = s.calls++;
  failed = false;
  size_t take = n;
  auto it = s.faults.find(call);
  if (it != s.faults.end()) {
    if (it->second.first == 1) { take = 0; failed = true; errno = EIO; fault(idx ? "stderr-error" : "stdout-error"); }
    else if (it->second.first == 2) { take = std::min<size_t>(n, it->second.second); if (take < n) { failed = true; errno = ENOSPC; fault(idx ? "stderr-short" : "stdout-short"); } }
  }
  s.now[meid].accepted += take;
  s.now[meid].faults += failed;
  if (s.buffered && !direct) {
    s.pending.push_back({meid, std::string(p, take)});
  } else {
    s.pieces.push_back({meid, s.data.size(), take});
    s.data.append(p, take);
  }
  note_bytes(idx ? "stderr" : "stdout", p, take);
  sched::yield(2);
  return take;
}

}  // namespace sim

// ------------------------------------------------------------------- seams
// Library objects have these C symbols redirected to sim_*.
using namespace sim;
extern "C" {
[[noreturn]] void sim_exit(int st) { end_process(st, "exit"); }
[[noreturn]] void sim__exit(int st) { end_process(st, "_exit"); }
[[noreturn]] void sim_abort() { end_process(134, "abort"); }
int sim_raise(int sig) { end_process(128 + sig, "raise"); }

size_t sim_fwrite(const void* p, size_t sz, size_t n, FILE* f) {
  Stream* s = stream_of(f);
  if (!s) return fwrite(p, sz, n, f);
  if (sz == 0 || n == 0) return 0;
  // Touch everything, so that over-long writes are seen by the sanitizer.
  std::string copy((const char*)p, sz * n);
  bool failed;
  size_t t = accept(*s, copy.data(), copy.size(), failed);
  return t / sz;
}
int sim_fputs(const char* str, FILE* f) {
  Stream* s = stream_of(f);
  if (!s) return fputs(str, f);
  std::string copy(str);
  bool failed = false;
  if (!copy.empty()) accept(*s, copy.data(), copy.size(), failed);
  return failed ? EOF : 1;
}
int sim_fputc(int c, FILE* f) {
  Stream* s = stream_of(f);
  if (!s) return fputc(c, f);
  char ch = (char)c; bool failed;
  accept(*s, &ch, 1, failed);
  return failed ? EOF : (unsigned char)c;
}
int sim_putc(int c, FILE* f) { return sim_fputc(c, f); }
int sim_putchar(int c) { return sim_fputc(c, stdout); }
int sim_puts(const char* str) {
  std::string copy(str); copy += '\n'; bool failed;
  accept(out, copy.data(), copy.size(), failed);
  return failed ? EOF : 1;
}
int sim_vfprintf(FILE* f, const char* fm, va_list va) {
  Stream* s = stream_of(f);
  if (!s) return vfprintf(f, fm, va);
  va_list vb; va_copy(vb, va);
  int n = vsnprintf(nullptr, 0, fm, va);
  std::string copy(n > 0 ? n : 0, 0);
  vsnprintf(copy.data(), copy.size() + 1, fm, vb);
  va_end(vb);
  bool failed = false;
  if (!copy.empty()) accept(*s, copy.data(), copy.size(), failed);
  return failed ? -1 : n;
}
int sim_fprintf(FILE* f, const char* fm, ...) {
  va_list va; va_start(va, fm);
  int n = sim_vfprintf(f, fm, va);
  va_end(va);
  return n;
}
int sim_printf(const char* fm, ...) {
  va_list va; va_start(va, fm);
  int n = sim_vfprintf(stdout, fm, va);
  va_end(va);
  return n;
}
int sim_vprintf(const char* fm, va_list va) { return sim_vfprintf(stdout, fm, va); }
int sim_fflush(FILE* f) {
  if (f && !stream_of(f)) return fflush(f);
  if (!f || f == stdout) out.drain();
  if (!f || f == stderr) err.drain();
  sched::yield(3);
  return 0;
}
// Without the stream's lock, a write can be overtaken halfway.
size_t sim_fwrite_unlocked(const void* p, size_t sz, size_t n, FILE* f) {
  Stream* s = stream_of(f);
  if (!s) return fwrite_unlocked(p, sz, n, f);
  if (sz == 0 || n == 0) return 0;
  std::string copy((const char*)p, sz * n);
  bool failed;
  size_t half = lock_owner[s == &err] == sched::self() ? copy.size() : copy.size() / 2;
  size_t t = half ? accept(*s, copy.data(), half, failed, false, false) : 0;
  if (half < copy.size() && t == half) t += accept(*s, copy.data() + half, copy.size() - half, failed, false, false);
  return t / sz;
}
int sim_setvbuf(FILE* f, char* b, int mode, size_t n) {
  Stream* s = stream_of(f);
  if (!s) return setvbuf(f, b, mode, n);
  if (mode == _IONBF) { s->drain(); s->buffered = false; }
  return 0;
}
void sim_setbuf(FILE* f, char* b) { sim_setvbuf(f, b, b ? _IOFBF : _IONBF, BUFSIZ); }
ssize_t sim_write(int fd, const void* p, size_t n) {
  if (fd != 1 && fd != 2) return write(fd, p, n);
  std::string copy((const char*)p, n);
  bool failed;
  size_t t = n ? accept(fd == 1 ? out : err, copy.data(), n, failed, true) : 0;
  return (n && failed && t == 0) ? -1 : (ssize_t)t;
}
ssize_t sim_writev(int fd, const iovec* v, int n) {
  if (fd != 1 && fd != 2) return writev(fd, v, n);
  std::string all;
  for (int i = 0; i < n; ++i) all.append((const char*)v[i].iov_base, v[i].iov_len);
  return sim_write(fd, all.data(), all.size());
}
int sim_vdprintf(int fd, const char* fm, va_list va) {
  if (fd != 1 && fd != 2) return vdprintf(fd, fm, va);
  va_list vb; va_copy(vb, va);
  int n = vsnprintf(nullptr, 0, fm, va);
  std::string copy(n > 0 ? n : 0, 0);
  vsnprintf(copy.data(), copy.size() + 1, fm, vb);
  va_end(vb);
  return (int)sim_write(fd, copy.data(), copy.size());
}
int sim_dprintf(int fd, const char* fm, ...) {
  va_list va; va_start(va, fm);
  int n = sim_vdprintf(fd, fm, va);
  va_end(va);
  return n;
}
void sim_flockfile(FILE* f) {
  Stream* s = stream_of(f);
  if (!s) return flockfile(f);
  int idx = s == &err, id = sched::self();
  if (lock_owner[idx] == id) { ++holding; return; }
  sched::block_until([idx] { return lock_owner[idx] == -2; }, "flockfile");
  lock_owner[idx] = id; holding = 1;
}
void sim_funlockfile(FILE* f) {
  Stream* s = stream_of(f);
  if (!s) return funlockfile(f);
  if (--holding == 0) lock_owner[s == &err] = -2;
  sched::yield(4);
}

// Loader.
int sim_dladdr(const void* p, void* info) { return loader_lookup ? loader_lookup(p, info) : dladdr(p, (Dl_info*)info); }

// C heap.
static void hook(const char* fn, void* in, size_t size, size_t align, void* o) {
  if (cheap_hooks.on_call) cheap_hooks.on_call(fn, in, size, align, o);
}
void* sim_malloc(size_t n) {
  sched::yield(5);
  if (heap::should_fail() || n > (256u << 20)) { errno = ENOMEM; if (n > (256u << 20)) fault("heap-too-large"); hook("malloc", nullptr, n, 16, nullptr); return nullptr; }
  void* p = heap::get(n, 16, kCHeap, false);
  hook("malloc", nullptr, n, 16, p);
  return p;
}
// Requests for optional memory (std::get_temporary_buffer).
void* sim_new_nothrow(size_t n, const std::nothrow_t& t) {
  if (sim::heap::refuse_optional) { --sim::heap::refuse_optional; sim::fault("optional-memory-refused"); return nullptr; }
  ++sim::heap::optional;
  return ::operator new(n, t);
}
void* sim_new_aligned_nothrow(size_t n, std::align_val_t al, const std::nothrow_t& t) {
  if (sim::heap::refuse_optional) { --sim::heap::refuse_optional; sim::fault("optional-memory-refused"); return nullptr; }
  ++sim::heap::optional;
  return ::operator new(n, al, t);
}
void* sim_calloc(size_t a, size_t b) {
  sched::yield(5);
  size_t n;
  if (__builtin_mul_overflow(a, b, &n) || n > (256u << 20) || heap::should_fail()) { errno = ENOMEM; hook("calloc", nullptr, a * b, 16, nullptr); return nullptr; }
  void* p = heap::get(n, 16, kCHeap, true);
  hook("calloc", nullptr, n, 16, p);
  return p;
}
void* sim_aligned_alloc(size_t al, size_t n) {
  sched::yield(5);
  if (heap::should_fail() || n > (256u << 20) || (al & (al - 1))) { errno = ENOMEM; hook("aligned_alloc", nullptr, n, al, nullptr); return nullptr; }
  void* p = heap::get(n, al, kCHeap, false);
  hook("aligned_alloc", nullptr, n, al, p);
  return p;
}
int sim_posix_memalign(void** o, size_t al, size_t n) {
  void* p = sim_aligned_alloc(al, n);
  if (!p) return ENOMEM;
  *o = p;
  return 0;
}
void* sim_memalign(size_t al, size_t n) { return sim_aligned_alloc(al, n); }
void sim_free(void* p) {
  sched::yield(6);
  if (!p) return;
  if (!heap::in_arena(p)) { fail(death_props, "free-of-foreign", "free() of a pointer that was never allocated"); death("free-of-foreign", "free() of a pointer that was never allocated"); _exit(1); }
  if (!heap::find(p)) { death("bad-free", fmt("free() of arena+%llx which is not a live block", (unsigned long long)heap::rel(p))); _exit(1); }
  hook("free", p, heap::find(p)->size, heap::find(p)->align, nullptr);
  heap::put(p);
}
void* sim_realloc(void* p, size_t n) {
  sched::yield(6);
  if (!p) return sim_malloc(n);
  if (!heap::in_arena(p) || !heap::find(p)) { death("bad-realloc", "realloc() of something that is not a live block"); _exit(1); }
  if (heap::should_fail() || n > (256u << 20)) { errno = ENOMEM; hook("realloc", p, n, 16, nullptr); return nullptr; }
  // C realloc only guarantees fundamental alignment; over-aligned blocks may
  // lose their alignment.
  void* q = heap::resize(p, n, 16);
  hook("realloc", p, n, 16, q);
  return q;
}
void* sim_reallocarray(void* p, size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  return sim_realloc(p, n);
}

int sim___cxa_atexit(void (*fn)(void*), void* arg, void*) { start::at_exit(fn, arg); return 0; }
int sim___cxa_thread_atexit(void (*fn)(void*), void* arg, void*) { start::at_thread_exit(fn, arg); return 0; }
int sim_atexit(void (*fn)()) { start::at_exit([](void* f) { ((void (*)())f)(); }, (void*)fn); return 0; }

// Function-local static initialisation: no real blocking under the scheduler.
int sim___cxa_guard_acquire(u64* g) {
  u8* b = (u8*)g;
  if (b[0]) return 0;
  sched::yield(7);
  while (true) {
    if (b[0]) return 0;
    if (!b[1]) { b[1] = 1; return 1; }
    reach("static-init-contended");
    sched::block_until([b] { return b[0] || !b[1]; }, "static initialisation");
  }
}
void sim___cxa_guard_release(u64* g) { ((u8*)g)[0] = 1; ((u8*)g)[1] = 0; sched::yield(7); }
void sim___cxa_guard_abort(u64* g) { ((u8*)g)[1] = 0; }

// Mutexes (pthread and libc++), in case library code uses them.
static std::map<void*, std::pair<int, int>>& mutexes() { static std::map<void*, std::pair<int, int>> m; return m; }
int sim_mutex_lock(void* m) {
  sched::yield(8);
  int id = sched::self();
  auto& st = mutexes();
  if (st.count(m) && st[m].second && st[m].first == id) { ++st[m].second; return 0; }
  sched::block_until([m] { auto& st = mutexes(); return !st.count(m) || st[m].second == 0; }, "mutex");
  st[m] = {id, 1};
  return 0;
}
int sim_mutex_trylock(void* m) {
  sched::yield(8);
  auto& st = mutexes();
  if (st.count(m) && st[m].second) return EBUSY;
  st[m] = {sched::self(), 1};
  return 0;
}
bool sim_mutex_trylockb(void* m) { return sim_mutex_trylock(m) == 0; }
int sim_mutex_unlock(void* m) {
  auto& st = mutexes();
  if (st.count(m) && st[m].second) --st[m].second;
  sched::yield(8);
  return 0;
}
int sim_sched_yield() { sched::yield(9); return 0; }
int sim_usleep(unsigned) { sched::yield(9); return 0; }
int sim_nanosleep(const timespec*, timespec*) { sched::yield(9); return 0; }

// Coverage callbacks of instrumented objects: possible switch points.
void __sanitizer_cov_trace_pc_guard(u32*) { if (sched::armed) sched::yield(10); }
void __sanitizer_cov_trace_pc_guard_init(u32* a, u32* b) { (void)a; (void)b; }
#define SITE(n) \
  void __sanitizer_cov_load##n(void* p) { if (sched::armed) sched::yield(start::is_static(p) ? 8 : 11); } \
  void __sanitizer_cov_store##n(void* p) { if (sched::armed) sched::yield(start::is_static(p) ? 8 : 12); }
SITE(1) SITE(2) SITE(4) SITE(8) SITE(16)

const char* __asan_default_options() {
  return "exitcode=99:detect_leaks=0:abort_on_error=0:handle_segv=2:handle_sigbus=2:"
         "handle_sigill=2:handle_sigfpe=2:handle_abort=2:allow_user_poisoning=1:"
         "detect_stack_use_after_return=1:check_printf=0:replace_str=1:"
         "detect_odr_violation=0:max_malloc_fill_size=0:print_legend=0:symbolize=0";
}
const char* __ubsan_default_options() { return "halt_on_error=1:exitcode=99:print_stacktrace=0"; }
void __asan_on_error() {
  const char* d = __asan_report_present() ? __asan_get_report_description() : nullptr;
  death(fmt("memory:%s", d && *d ? d : "fault"), "the sanitizer reported a memory error");
}
}

namespace sim {
// ------------------------------------------------------------------- plans I/O
static std::string plan_text(const Plan& p) {
  std::string s = fmt("plan %s %llu\n", p.world.c_str(), (unsigned long long)p.seed);
  for (auto& [k, v] : p.cfg) s += fmt("cfg %s %lld\n", k.c_str(), (long long)v);
  for (auto& o : p.ops) {
    s += fmt("op %lld %s", (long long)o.uid, o.kind.c_str());
    for (i64 v : o.a) s += fmt(" %lld", (long long)v);
    s += "\n";
  }
  for (auto& w : p.sw) s += fmt("sw %llu %d\n", (unsigned long long)w.at, w.to);
  s += "end\n";
  return s;
}
static std::vector<Plan> parse_plans(const char* path) {
  FILE* f = strcmp(path, "-") ? fopen(path, "r") : stdin;
  if (!f) harness_error("cannot open %s", path);
  std::vector<Plan> ps;
  char* line = nullptr; size_t cap = 0; ssize_t n;
  while ((n = getline(&line, &cap, f)) > 0) {
    std::string l(line, n);
    while (!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back();
    std::vector<std::string> t;
    for (size_t i = 0; i < l.size();) {
      size_t j = l.find(' ', i);
      if (j == l.npos) j = l.size();
      if (j > i) t.push_back(l.substr(i, j - i));
      i = j + 1;
    }
    if (t.empty() || t[0][0] == '#') continue;
    if (t[0] == "plan") { ps.push_back({}); ps.back().world = t.at(1); ps.back().seed = strtoull(t.at(2).c_str(), 0, 10); }
    else if (ps.empty()) harness_error("bad plan file");
    else if (t[0] == "cfg") ps.back().cfg[t.at(1)] = strtoll(t.at(2).c_str(), 0, 10);
    else if (t[0] == "op") {
      Op o; o.uid = strtoll(t.at(1).c_str(), 0, 10); o.kind = t.at(2);
      for (size_t i = 3; i < t.size(); ++i) o.a.push_back(strtoll(t[i].c_str(), 0, 10));
      ps.back().ops.push_back(o);
    } else if (t[0] == "sw") ps.back().sw.push_back({strtoull(t.at(1).c_str(), 0, 10), atoi(t.at(2).c_str())});
  }
  free(line);
  if (f != stdin) fclose(f);
  return ps;
}
static bool gen_mode = false;
static World* find_world(const std::string& n) {
  for (auto& w : worlds()) if (n == w.name) return &w;
  harness_error("no world %s", n.c_str());
}
static void on_timer(int) {
  death("hang", "no progress within the run's processor-time bound");
  _exit(99);
}
static void arm_timer(int sec) {
  itimerval tv{}; tv.it_value.tv_sec = sec;
  setitimer(ITIMER_VIRTUAL, &tv, nullptr);
}
static void exec_plan(const Plan& p) {
  World* w = find_world(p.world);
  log_hash = 0x1234567; log_events = 0; cur_op = nullptr;
  is_nontrivial = false; run_had_fault = false;
  out.clear(); err.clear();
  lock_owner[0] = lock_owner[1] = -2; holding = 0;
  mutexes().clear();
  cheap_hooks = {};
  sched::steps = sched::switches = 0; sched::seam_steps.clear(); sched::trace_hash = 0x77;
  HeapCfg hc;
  hc.gap = p.get("gap"); hc.reuse = p.get("reuse"); hc.realloc_ = p.get("realloc");
  hc.fill = p.get("fill"); hc.desc = p.get("desc"); hc.salt = (u64)p.get("salt");
  heap::reset(hc);
  arm_timer(20);
  running = true;
  start::restore();
  // If the library has thread-local storage, on a thread of its own, so that
  // this too is pristine.
  struct Job { World* w; const Plan* p; } job{w, &p};
  auto body = [](void* v) -> void* {
        Job& j = *(Job*)v;
        static char tname[] = "main";
        pthread_setname_np(pthread_self(), tname);
        errno = 0;
        if (!j.w->manual_start) { start::run_all(); heap::adopt_statics(); }
        j.w->run(*j.p);
        start::forget_thread();
        return nullptr;
      };
  pthread_t th;
  if (!(u64)sim_has_tls) body(&job);
  else if (pthread_create(&th, nullptr, body, &job)) harness_error("pthread_create");
  else pthread_join(th, nullptr);
  running = false;
  arm_timer(0);
  cur_op = nullptr;
  ++n_runs;
  total_steps += sched::steps; total_switches += sched::switches; total_events += log_events;
  runs_seen.insert(log_hash);
  if (sched::steps) traces_seen.insert(mix2(sched::trace_hash, p.seed));
  if (is_nontrivial) nontrivial_seen.insert(sched::steps ? mix2(log_hash, sched::trace_hash) : log_hash);
  if (run_had_fault) ++runs_with_fault;
}
static u64 str_hash(const char* s) { u64 h = 5381; while (*s) h = h * 33 + (u8)*s++; return mix(h); }

// Run `idx` of a batch: base plan idx/(S+1), schedule idx%(S+1).
static Plan make_plan(World* w, u64 vseed, u64 idx) {
  u64 S = w->schedules + 1;
  u64 base = idx / S, sub = idx % S;
  u64 seed = mix2(mix2(vseed, str_hash(w->name)), base);
  Plan p;
  p.world = w->name; p.seed = seed;
  Rng r(seed);
  // Heap personality, per run (swarm).
  p.cfg["gap"] = r.below(2); p.cfg["reuse"] = r.below(3); p.cfg["realloc"] = r.below(3);
  p.cfg["fill"] = r.below(4); p.cfg["desc"] = r.below(2); p.cfg["salt"] = r.next() >> 2;
  w->gen(r, p);
  if (sub) {
    static u64 cached = ~0ull, cached_steps = 0;
    static std::vector<u64> seams;
    if (cached != seed) { 
      bool v = verbose; verbose = false;
      if (gen_mode) gen_base = &p;
      exec_plan(p); --n_runs;
      gen_base = nullptr;
      verbose = v;
      cached = seed; cached_steps = sched::steps; seams = sched::seam_steps; }
    Rng q(mix2(seed, sub));
    int nth = (int)p.get("threads", 2);
    // Few switches find most bugs; sometimes many.
    int n = q.chance(60) ? 1 + q.below(4) : q.chance(70) ? 4 + q.below(12) : 16 + q.below(200);
    std::vector<u64> at;
    // Half of the schedules prefer seams and static storage, where threads can
    // meet, to steps at large.
    bool meet = q.chance(50) && !seams.empty();
    for (int i = 0; i < n; ++i)
      at.push_back(meet && q.chance(80) ? seams[q.below(seams.size())] + q.below(2) : 1 + q.below(cached_steps + cached_steps / 4 + 2));
    std::sort(at.begin(), at.end());
    at.erase(std::unique(at.begin(), at.end()), at.end());
    for (u64 a : at) p.sw.push_back({a, (int)q.below(nth)});
  }
  return p;
}
static void stats() {
  std::string s = "\nSTATS {";
  s += fmt("\"runs\":%llu,\"distinct_runs\":%zu,\"distinct_nontrivial\":%zu,\"distinct_traces\":%zu,"
           "\"states\":%zu,\"ops\":%llu,\"steps\":%llu,\"switches\":%llu,\"events\":%llu,"
           "\"runs_with_fault\":%llu,\"ignored\":%llu,\"heap_requests\":%llu,\"process_ends\":%llu",
           (unsigned long long)n_runs, runs_seen.size(), nontrivial_seen.size(), traces_seen.size(),
           states_seen.size(), (unsigned long long)total_ops, (unsigned long long)total_steps,
           (unsigned long long)total_switches, (unsigned long long)total_events,
           (unsigned long long)runs_with_fault, (unsigned long long)n_ignored,
           (unsigned long long)heap::total_allocs, (unsigned long long)n_ends);
  auto dump = [&](const char* k, std::map<std::string, u64>& m) {
    s += fmt(",\"%s\":{", k);
    bool first = true;
    for (auto& [a, b] : m) { s += fmt("%s\"%s\":%llu", first ? "" : ",", jesc(a).c_str(), (unsigned long long)b); first = false; }
    s += "}";
  };
  dump("faults", fault_counts);
  dump("reach", reach_counts);
  dump("known", known_counts);
  s += "}\n";
  raw(s);
}
}  // namespace sim

int main(int argc, char** argv) {
  using namespace sim;
  // No address-space randomisation: addresses are part of the replay.
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1) {
      setenv("SIM_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  std::string mode = argc > 1 ? argv[1] : "";
  std::string world, status;
  u64 seed = 1, from = 0, count = 1, stride = 1; std::vector<std::string> pos;
  double secs = 1e9;
  bool hashes = false;
  std::string dumpfile;
  for (int i = 2; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { if (++i >= argc) harness_error("missing value"); return argv[i]; };
    if (a == "--world") world = val();
    else if (a == "--seed") seed = strtoull(val(), 0, 10);
    else if (a == "--from") from = strtoull(val(), 0, 10);
    else if (a == "--count") count = strtoull(val(), 0, 10);
    else if (a == "--stride") stride = strtoull(val(), 0, 10);
    else if (a == "--secs") secs = atof(val());
    else if (a == "--status") status = val();
    else if (a == "--known") known.push_back(val());
    else if (a == "--hashes") hashes = true;
    else if (a == "--dump") dumpfile = val();
    else if (a == "--props") { std::string v = val(); size_t k = 0; while (k <= v.size()) { size_t e = v.find(',', k); if (e == v.npos) e = v.size(); if (e > k) enabled.push_back(v.substr(k, e - k)); k = e + 1; } }
    else if (a == "-v") verbose = true;
    else pos.push_back(a);
  }
  signal(SIGVTALRM, on_timer);
  start::save();
  signal(SIGPIPE, SIG_IGN);
  if (world.empty() && !worlds().empty()) world = worlds()[0].name;
  if (mode == "list") { for (auto& w : worlds()) raw(fmt("%s %d\n", w.name, w.schedules)); return 0; }
  if (mode == "gen") {
    gen_mode = true; gen_text = plan_text;
    World* w = find_world(world);
    for (u64 k = 0; k < count; ++k) raw(plan_text(make_plan(w, seed, from + k * stride)));
    return 0;
  }
  if (mode == "exec") {
    for (auto& p : parse_plans(pos.at(0).c_str())) {
      if (verbose) raw(plan_text(p));
      exec_plan(p);
      raw(fmt("OK %016llx events %llu steps %llu\n", (unsigned long long)log_hash, (unsigned long long)log_events, (unsigned long long)sched::steps));
    }
    stats();
    return 0;
  }
  if (mode == "batch") {
    World* w = find_world(world);
    int fd = status.empty() ? -1 : open(status.c_str(), O_CREAT | O_RDWR, 0644);
    timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    for (u64 k = 0; k < count; ++k) {
      u64 idx = from + k * stride;
      if (fd >= 0) { u64 v[2] = {idx, k}; if (pwrite(fd, v, 16, 0) != 16) {} }
      Plan p = make_plan(w, seed, idx);
      exec_plan(p);
      if (hashes) raw(fmt("H %llu %016llx\n", (unsigned long long)idx, (unsigned long long)log_hash));
      if (k % 16 == 0) {
        timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
        if ((t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec) > secs) { reach("time-cap"); break; }
      }
    }
    stats();
    if (!dumpfile.empty()) {
      if (FILE* f = fopen(dumpfile.c_str(), "wb")) {
        for (auto* set : {&nontrivial_seen, &states_seen, &traces_seen}) {
          u64 n = set->size();
          fwrite(&n, 8, 1, f);
          for (u64 v : *set) fwrite(&v, 8, 1, f);
        }
        fclose(f);
      }
    }
    return 0;
  }
  harness_error("usage: list|gen|exec|batch");
}

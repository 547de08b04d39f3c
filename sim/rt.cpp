// Deterministic simulation runtime.
//
// Replaces libgomp (threads are fibers on one OS thread and a seeded scheduler
// decides every switch), the tsan runtime (each instrumented access is a
// possible preemption point, a happens-before race check and a heap bounds
// check), the heap, the disk (stdio streams over an in-memory disk with fault
// injection), the clocks and sysconf.
#include "rt.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <ctime>
#include <cmath>
#include <unordered_map>
#include <algorithm>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <unistd.h>
#include <poll.h>
#include <link.h>
#include <elf.h>

extern "C" int GLU_main(int argc, const char *argv[]) __attribute__((weak));
extern "C" char __data_start, _end, __executable_start, etext;

namespace sim {

const char *fault_name(int k) {
  static const char *n[] = {"none", "open_read_fails", "open_write_fails", "write_error",
    "short_write", "disk_full", "read_error", "short_read", "early_eof", "close_error",
    "crash_in_write", "crash_at_step", "alloc_fails", "clock_jump"};
  return (k >= 0 && k < F_NKINDS) ? n[k] : "?";
}
const char *status_name(int s) {
  static const char *n[] = {"running", "exit", "killed", "memory-error", "signal", "deadlock",
    "barrier-divergence", "livelock", "simulator-failure"};
  return (s >= 0 && s <= ST_SIMFAIL) ? n[s] : "?";
}

const char *strategy_name(int s) {
  static const char *n[] = {"sync-points-only", "random", "priorities", "starve-one", "round-robin", "hot-locations", "explicit", "race-directed"};
  return (s >= 0 && s < S_NSTRAT) ? n[s] : "?";
}
u64 fnv(const void *p, size_t n, u64 h) {
  const u8 *c = (const u8 *)p;
  for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}

// ------------------------------------------------------------------ layout
static const uintptr_t ARENA = 0x100000000000ull;
static const size_t ARENA_SZ = 1ull << 31;
static const uintptr_t STACKS = 0x200000000000ull;
static const size_t STACK_SZ = 32ull << 20;
#ifndef SIM_MAXT
#define SIM_MAXT 9             // fiber of the program's initial thread and up to eight threads
#endif
static const int MAXT = SIM_MAXT;
static const uintptr_t SH_ARENA = 0x300000000000ull;   // race cells of the arena
static const uintptr_t SH_STACK = 0x380000000000ull;   // race cells of the first stack
static const uintptr_t SH_GLOB = 0x390000000000ull;
static const uintptr_t SH_ADDR = 0x3A0000000000ull;    // addressability, one byte per 8

struct Cell {                 // 64 bytes (128 for more than 8 threads) per 8 bytes of program memory
  u32 wclk; u32 wpc; u8 wtid; u8 wmask; u8 watomic; u8 silent;
  u32 rclk[MAXT]; u32 rpc; u8 rmask[MAXT]; u8 ratomic;
} __attribute__((aligned(64)));
static_assert(sizeof(Cell) == (MAXT > 9 ? 128 : 64), "cell");

// ------------------------------------------------------------------ state
static Result *R;
static Disk *D;
static const RunCfg *C;
static bool active = false;       // inside the simulated program
static Rng sched(1), fillr(1), urnd(1);

struct WShare { int kind; long long next, end, incr, chunk; unsigned long long unext, uend, uincr, uchunk; bool up; bool ull; int finished; bool taken; };

struct Team {
  int n = 1;
  int arrived = 0;
  bool serial = false;
  void (*fn)(void *) = nullptr; void *data = nullptr;
  std::unordered_map<u32, WShare> ws;
  int ended = 0;
  Team *parent = nullptr;
  int saved_tid = 0; u32 saved_ws = 0;
  void *copyprivate = nullptr;
};
enum FState { FS_IDLE, FS_RUN, FS_BARRIER, FS_LOCK, FS_DONE };
struct Fiber {
  void *sp = nullptr;
  FState st = FS_IDLE;
  int tid = 0;
  uintptr_t stk = 0;
  u32 vc[MAXT];
  Team *team = nullptr;
  int omp_tid = 0;
  u32 wsn = 0;
  uintptr_t lockkey = 0;
  int cur_ws = -1;
};
static Fiber F[MAXT];
static int cur = 0;
static void *host_sp = nullptr;
static Team *par = nullptr;         // the active parallel team (outermost), if any
static uintptr_t par_sp = 0;
static u64 tick = 0;                // preemption opportunities so far
static long long gapleft = 0;
static size_t expl_i = 0;
static int prio[MAXT];
static int victim = -1;

struct VC { u32 c[MAXT]; };
static std::unordered_map<uintptr_t, VC> *syncvc;
static std::unordered_map<uintptr_t, int> *lockowner;

// pending store of the running fiber: the hook runs before the store
static struct { bool on; uintptr_t a; u32 n; u32 pc; u8 old[64]; bool atomic; bool big; } pend;

static void die(int status, const char *msg, u64 pc, u64 addr) __attribute__((noreturn));
static void simfail(const char *m) { die(ST_SIMFAIL, m, 0, 0); }
static void leave() __attribute__((noreturn));
static void leave() { active = false; _exit(0); }
static void die(int status, const char *msg, u64 pc, u64 addr) {
  active = false;
  if (R->status == ST_RUNNING) {
    snprintf(R->msg, sizeof R->msg, "%s", msg);
    R->pc = pc; R->addr = addr;
    R->status = status;
  }
  _exit(0);
}

static inline void synchash(int kind) {
  R->sync_ops++;
  R->sync_hash = (R->sync_hash ^ (u64)(cur * 16 + kind)) * 1099511628211ull;
}

// ------------------------------------------------------------------ switching
extern "C" void sim_switch(void **from, void *to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");

static void fiber_main();
static void fiber_prepare(int i) {
  uintptr_t top = F[i].stk + STACK_SZ - 64;
  top &= ~(uintptr_t)15;
  void **s = (void **)top;
  *--s = nullptr;                  // alignment: at function entry rsp%16==8
  *--s = (void *)fiber_main;
  for (int k = 0; k < 6; k++) *--s = nullptr;
  F[i].sp = s;
}

static void switch_to(int t, int kind) {
  if (t == cur) return;
  int f = cur;
  R->switches++;
  cur = t;
  sim_switch(&F[f].sp, F[t].sp);
}

static void record(int t, int kind) {
  if (R->ntrace < MAXTRACE) { R->trace[R->ntrace++] = {tick, (u32)t, (u32)kind}; }
  else R->trace_over = 1;
}

static void new_gap() {
  if (C->strategy == S_EXPLICIT) {
    while (expl_i < C->explicit_sched.size() && C->explicit_sched[expl_i].tick <= tick) expl_i++;
    gapleft = expl_i < C->explicit_sched.size() ? (long long)(C->explicit_sched[expl_i].tick - tick) : (1ll << 60);
    return;
  }
  if (C->strategy == S_SYNCONLY || C->strategy == S_RACEPC) { gapleft = 1ll << 60; return; }
  if (C->strategy == S_RR) { gapleft = C->gap; return; }
  double u = sched.uni();
  double g = -log(1.0 - u) * (double)C->gap;
  gapleft = 1 + (long long)g;
}

// candidate threads that could run now
static int runnable(int *out) {
  int n = 0;
  for (int i = 0; i < MAXT; i++) if (F[i].st == FS_RUN) out[n++] = i;
  return n;
}

static int default_choice(bool cur_ok) {
  if (cur_ok) return cur;
  for (int k = 1; k <= MAXT; k++) { int i = (cur + k) % MAXT; if (F[i].st == FS_RUN) return i; }
  return -1;
}

// decide who runs next. cur_ok: the current fiber may continue
static int choose(bool cur_ok, bool at_access) {
  int cand[MAXT], n = runnable(cand);
  int dflt = default_choice(cur_ok);
  if (n == 0) return -1;
  int t = dflt;
  switch (C->strategy) {
  case S_EXPLICIT:
    if (expl_i < C->explicit_sched.size() && C->explicit_sched[expl_i].tick == tick) {
      int w = C->explicit_sched[expl_i].tid;
      if (w < MAXT && F[w].st == FS_RUN) t = w;
    }
    break;
  case S_SYNCONLY:
  case S_RANDOM:
  case S_HOT:
    t = cand[sched.below(n)];
    break;
  case S_RR: {
    t = -1;
    for (int k = 1; k <= MAXT; k++) { int i = (cur + k) % MAXT; if (F[i].st == FS_RUN) { t = i; break; } }
    break;
  }
  case S_PRIO:
  case S_RACEPC:
    if (at_access || sched.chance(0.02)) prio[cur] = -(int)(sched.below(1 << 20)) - (int)(tick & 0xffff);
    t = cand[0];
    for (int k = 1; k < n; k++) if (prio[cand[k]] > prio[t]) t = cand[k];
    break;
  case S_STARVE:
    if (at_access && sched.chance(0.2) && C->nthreads > 0) victim = sched.below(C->nthreads);
    if (n == 1) { t = cand[0]; break; }
    do t = cand[sched.below(n)]; while (t == victim);
    break;
  }
  if (t != dflt) record(t, at_access ? 1 : 0);
  return t;
}

static void preempt_at_access() {
  // called with gapleft exhausted
  int t = choose(true, true);
  new_gap();
  if (t >= 0) switch_to(t, 1);
}

static void finalize();

// synchronisation point at which the current fiber may be descheduled
static void sync_point(int kind) {
  if (!active || !par) return;
  finalize();
  tick++; if (gapleft > 0) gapleft--;
  synchash(kind);
  if (C->strategy == S_EXPLICIT) {
    while (expl_i < C->explicit_sched.size() && C->explicit_sched[expl_i].tick < tick) expl_i++;
  }
  int t = choose(F[cur].st == FS_RUN, false);
  if (C->strategy == S_EXPLICIT) new_gap();
  if (t < 0) {
    // everybody is blocked
    int ended = 0, barr = 0, lock = 0;
    for (int i = 0; i < MAXT; i++) { ended += F[i].st == FS_DONE; barr += F[i].st == FS_BARRIER; lock += F[i].st == FS_LOCK; }
    char m[200];
    snprintf(m, sizeof m, "%d threads wait at a barrier, %d left the parallel region, %d wait for a lock", barr, ended, lock);
    die(ended && barr && !lock ? ST_DIVERGED : ST_DEADLOCK, m, 0, 0);
  }
  switch_to(t, 0);
}

// ------------------------------------------------------------------ race detection
static inline Cell *cell_of(uintptr_t a) {
  if (a - ARENA < ARENA_SZ) return (Cell *)(SH_ARENA + ((a - ARENA) >> 3) * sizeof(Cell));
  uintptr_t g0 = (uintptr_t)&__data_start & ~7ull;
  if (a >= g0 && a < (uintptr_t)&_end) return (Cell *)(SH_GLOB + ((a - g0) >> 3) * sizeof(Cell));
  if (a - STACKS < STACK_SZ) {
    if (a < par_sp) return nullptr;
    return (Cell *)(SH_STACK + ((a - STACKS) >> 3) * sizeof(Cell));
  }
  return nullptr;
}

static void report_race(uintptr_t a, u32 pc1, int t1, int w1, u32 pc2, int t2, int w2) {
  R->race_total++;
  for (u32 i = 0; i < R->nrace; i++) if (R->race[i].pc1 == pc1 && R->race[i].pc2 == pc2) return;
  if (R->nrace >= MAXRACE) return;
  Race &r = R->race[R->nrace++];
  r.addr = a; r.pc1 = pc1; r.pc2 = pc2; r.tid1 = t1; r.tid2 = t2; r.w1 = w1; r.w2 = w2; r.region = R->regions;
}

static inline u8 bytemask(uintptr_t a, u32 n) { return (u8)(((1u << n) - 1) << (a & 7)); }

static inline void race_read1(uintptr_t a, u8 m, u32 pc, bool atomic) {
  Cell *c = cell_of(a);
  if (!c) return;
  Fiber &f = F[cur];
  if (c->wclk && (c->wmask & m) && c->wtid != cur && c->wclk > f.vc[c->wtid] &&
      !(c->silent & (1 << cur)) && !(atomic && c->watomic))
    report_race(a, c->wpc, c->wtid, 1, pc, cur, 0);
  if (c->rclk[cur] != f.vc[cur]) { c->rclk[cur] = f.vc[cur]; c->rmask[cur] = 0; }
  c->rmask[cur] |= m;
  c->rpc = pc;
}
static inline void race_write1(uintptr_t a, u8 m, u32 pc, bool silent, bool atomic) {
  Cell *c = cell_of(a);
  if (!c) return;
  Fiber &f = F[cur];
  if (silent) {
    if (c->wclk && (c->wmask & m)) c->silent |= (u8)(1 << cur);
    return;
  }
  if (c->wclk && (c->wmask & m) && c->wtid != cur && c->wclk > f.vc[c->wtid] && !(atomic && c->watomic))
    report_race(a, c->wpc, c->wtid, 1, pc, cur, 1);
  for (int t = 0; t < MAXT; t++)
    if (t != cur && (c->rmask[t] & m) && c->rclk[t] > f.vc[t] && !(atomic && c->watomic)) {
      report_race(a, c->rpc, t, 0, pc, cur, 1);
      break;
    }
  c->wclk = f.vc[cur]; c->wtid = cur; c->wmask = m; c->wpc = pc; c->watomic = atomic;
  c->silent = 0;
  for (int t = 0; t < MAXT; t++) c->rmask[t] &= ~m;
}

static void for_granules(uintptr_t a, size_t n, bool write, u32 pc, bool atomic, const u8 *old) {
  uintptr_t e = a + n;
  while (a < e) {
    u32 k = 8 - (a & 7); if (k > e - a) k = e - a;
    u8 m = bytemask(a, k);
    if (write) {
      bool silent = old ? memcmp((void *)a, old, k) == 0 : false;
      race_write1(a, m, pc, silent, atomic);
    } else race_read1(a, m, pc, atomic);
    if (old) old += k;
    a += k;
  }
}

static void finalize() {
  if (!pend.on) return;
  pend.on = false;
  for_granules(pend.a, pend.n, true, pend.pc, pend.atomic, pend.big ? nullptr : pend.old);
}

static const Fault *fault_at(int kind, u64 ord) {
  for (auto &f : C->faults) if (f.kind == kind && f.ordinal == ord) return &f;
  return nullptr;
}
static const Fault *fault_any(int kind) {
  for (auto &f : C->faults) if (f.kind == kind) return &f;
  return nullptr;
}

// ------------------------------------------------------------------ heap bounds
static inline u8 *addr_of(uintptr_t a) { return (u8 *)(SH_ADDR + ((a - ARENA) >> 3)); }
static const u8 FREED = 0xfd;
static void bad_access(uintptr_t a, size_t n, bool w, u64 pc) {
  char m[160];
  u8 s = *addr_of(a);
  snprintf(m, sizeof m, "heap %s of %zu bytes %s", w ? "write" : "read", n,
           s == FREED ? "to freed memory" : "outside any allocation");
  die(ST_MEMERR, m, pc, a);
}
static inline void check_heap(uintptr_t a, size_t n, bool w, u64 pc) {
  if (a - ARENA >= ARENA_SZ) return;
  uintptr_t e = a + n;
  uintptr_t g = a & ~7ull;
  while (g < e) {
    u8 s = *addr_of(g);
    if (s != 8) {
      if (s == 0 || s == FREED || (e - g) > s) bad_access(a < g ? g : a, n, w, pc);
      else if ((e > g + 8 ? 8 : e - g) > s) bad_access(a < g ? g : a, n, w, pc);
    }
    g += 8;
  }
}

static u64 step_limit = ~0ull;
static void at_step_limit(u64 pc, u64 a) {
  if (const Fault *f = fault_any(F_CRASH_STEP)) if (R->steps >= f->ordinal) { R->fired[F_CRASH_STEP]++; die(ST_KILLED, "killed", pc, a); }
  if (R->steps > C->max_steps) die(ST_LIVELOCK, "step budget exhausted", pc, a);
}

static const u64 PCMASK = 0xffffffffu;

static bool is_hot(u32 pc) { for (u32 h : C->hot) if (h == pc) return true; return false; }

static inline void access(uintptr_t a, size_t n, bool w, u64 pc, bool atomic = false) {
  if (!active) return;
  R->steps++;
  if (__builtin_expect(R->steps >= step_limit, 0)) at_step_limit(pc, a);
  check_heap(a, n, w, pc);
  if (!par) return;
  finalize();
  tick++;
  if (--gapleft <= 0) preempt_at_access();
  else if (C->strategy == S_RACEPC && is_hot((u32)pc) && sched.chance(0.5)) preempt_at_access();
  if (!C->race) return;
  // own worker stacks are private
  if (a - STACKS < MAXT * STACK_SZ) {
    uintptr_t o = (a - STACKS) / STACK_SZ;
    if ((int)o == cur && o != 0) return;
    if (o != 0) return;
    if (a < par_sp) return;
  }
  if (C->strategy == S_HOT && w && sched.chance(0.02)) {
    Cell *c = cell_of(a);
    if (c && (c->rpc || c->wclk) && (c->wtid != cur)) preempt_at_access();
  }
  if (!w) { for_granules(a, n, false, (u32)(pc & PCMASK), atomic, nullptr); return; }
  pend.on = true; pend.a = a; pend.n = n; pend.pc = (u32)(pc & PCMASK); pend.atomic = atomic;
  pend.big = n > sizeof pend.old;
  if (!pend.big) memcpy(pend.old, (void *)a, n);
}

// ranges touched by library calls on behalf of the program
static void range_read(const void *p, size_t n, u64 pc) {
  if (!active || !n) return;
  R->steps += 1 + n / 8;
  check_heap((uintptr_t)p, n, false, pc);
  if (!par || !C->race) return;
  finalize();
  uintptr_t a = (uintptr_t)p;
  if (a - STACKS < MAXT * STACK_SZ && (a - STACKS) / STACK_SZ != 0) return;
  if (a - STACKS < STACK_SZ && a < par_sp) return;
  for_granules(a, n, false, (u32)pc, false, nullptr);
}
// before: check; after: the store happened, old is the previous contents (or null)
static void range_write_check(const void *p, size_t n, u64 pc) {
  if (!active || !n) return;
  R->steps += 1 + n / 8;
  check_heap((uintptr_t)p, n, true, pc);
  if (par) finalize();
}
static void range_written(const void *p, size_t n, u64 pc, const u8 *old) {
  if (!active || !n || !par || !C->race) return;
  uintptr_t a = (uintptr_t)p;
  if (a - STACKS < MAXT * STACK_SZ && (a - STACKS) / STACK_SZ != 0) return;
  if (a - STACKS < STACK_SZ && a < par_sp) return;
  for_granules(a, n, true, (u32)pc, false, old);
}

// ------------------------------------------------------------------ heap
static uintptr_t brk_ = 0;
static std::unordered_map<uintptr_t, size_t> *live;

} extern "C" { extern sim::u64 sim_scrib_tab[128]; } static char scrib_on, scrib_due; namespace sim {
static void fill(void *p, size_t n) {
  u64 mode = C->fill_seed % 5;
  if (mode == 0) { memset(p, 0, n); return; }
  if (mode == 1) { memset(p, 0xff, n); return; }
  if (mode == 2) { memset(p, 0x7f, n); return; }
  u64 *q = (u64 *)p; size_t k = 0;
  for (; k + 8 <= n; k += 8) { u64 v = fillr.next(); if (mode == 3) v = (v >> 12) | 0x3ff0000000000000ull; memcpy(q++, &v, 8); }
  u64 v = fillr.next(); memcpy(q, &v, n - k);
}

// where allocations come from: return addresses of the call and of its two callers
struct CallStack { u32 d; u32 pc[256]; };
static CallStack callst[64];
static void note_alloc(u64 pc) {
  CallStack &k = callst[cur]; u64 h = pc * 0x9e3779b97f4a7c15ull;
  for (u32 i = 1; i <= 3 && i <= k.d && k.d <= 256; i++) h = (h ^ k.pc[k.d - i]) * 0x9e3779b97f4a7c15ull;
  u32 i = 0; for (; i < R->nasite; i++) if (R->asite[i].key == h) break;
  if (i == R->nasite) { if (i == MAXASITE) return; R->nasite++; R->asite[i] = {h, R->allocs, 0, R->allocs, R->allocs}; }
  ASite &a = R->asite[i]; a.n++; a.last = R->allocs; if (!(a.n & (a.n - 1))) a.mid = R->allocs;
}
static void *heap_alloc(size_t n, size_t align, bool clear, u64 pc) {
  if (par) sync_point(7);
  R->allocs++; note_alloc(pc);
  if (fault_at(F_ALLOC, R->allocs)) { R->fired[F_ALLOC]++; errno = ENOMEM; return nullptr; }
  if (n > (1ull << 30)) { errno = ENOMEM; return nullptr; }   // no machine has this
  if (align < 16) align = 16;
  uintptr_t a = (brk_ + 48 + align - 1) & ~(uintptr_t)(align - 1);
  size_t sz = (n + 15) & ~(size_t)15;
  if (a + sz + 64 > ARENA + ARENA_SZ) simfail("simulated heap exhausted");
  brk_ = a + sz;
  u8 *s = addr_of(a);
  memset(s, 8, n / 8);
  if (n & 7) s[n / 8] = n & 7;
  (*live)[a] = n;
  if (clear) memset((void *)a, 0, n); else fill((void *)a, n);
  return (void *)a;
}
static void heap_free(void *p, u64 pc) {
  if (!p) return;
  uintptr_t a = (uintptr_t)p;
  auto it = live->find(a);
  if (it == live->end()) die(ST_MEMERR, (a - ARENA < ARENA_SZ && *addr_of(a) == FREED) ? "double free" : "free of a pointer that was not allocated", pc, a);
  size_t n = it->second;
  live->erase(it);
  memset(addr_of(a), FREED, (n + 7) / 8);
  if (n > (1 << 16)) { // give pages back
    uintptr_t b = (a + 4095) & ~4095ull, e = (a + n) & ~4095ull;
    if (e > b) madvise((void *)b, e - b, MADV_DONTNEED);
  }
}

// ------------------------------------------------------------------ disk
struct Stream { FILE *fp; VFile *vf; u64 pos; bool rd, wr, app, dev; u64 devstate; bool isout; int kind; bool failed; };
static std::unordered_map<FILE *, Stream *> *streams;
static FILE *sim_out, *sim_err;

VFile *disk_find(const char *name) {
  for (int i = 0; i < MAXF; i++) if (D->f[i].exists && !strcmp(D->f[i].name, name)) return &D->f[i];
  return nullptr;
}
VFile *disk_put(const char *name, const void *data, size_t n) {
  VFile *v = disk_find(name);
  if (!v) for (int i = 0; i < MAXF && !v; i++) if (!D->f[i].exists) v = &D->f[i];
  if (!v || n > FCAP || strlen(name) >= sizeof v->name) { fprintf(stderr, "disk_put: no room for %s (%zu)\n", name, n); abort(); }
  v->exists = 1; strcpy(v->name, name); v->size = n;
  if (n) memcpy(v->data, data, n);
  return v;
}
bool disk_get(const char *name, std::string &out) {
  VFile *v = disk_find(name);
  if (!v) return false;
  out.assign((char *)v->data, v->size);
  return true;
}
void disk_remove(const char *name) { VFile *v = disk_find(name); if (v) v->exists = 0; }
void disk_clear() { for (int i = 0; i < MAXF; i++) { D->f[i].exists = 0; D->f[i].size = 0; } }
std::map<std::string, std::string> disk_snapshot() {
  std::map<std::string, std::string> m;
  for (int i = 0; i < MAXF; i++) if (D->f[i].exists) m[D->f[i].name] = std::string((char *)D->f[i].data, D->f[i].size);
  return m;
}
void disk_restore(const std::map<std::string, std::string> &m) {
  disk_clear();
  for (auto &p : m) disk_put(p.first.c_str(), p.second.data(), p.second.size());
}

static void append_out(char *buf, u32 &n, size_t cap, const char *s, size_t k) {
  size_t room = cap - n; if (k > room) k = room;
  memcpy(buf + n, s, k); n += k;
}

static u64 disk_used_new = 0;

static ssize_t ck_write(void *c, const char *buf, size_t n) {
  Stream *s = (Stream *)c;
  if (s->kind == 1) { append_out(R->out, R->nout, OUTCAP, buf, n); return n; }
  if (s->kind == 2) { append_out(R->err, R->nerr, OUTCAP / 4, buf, n); return n; }
  if (!active) { return n; }
  u64 o = ++R->dev_writes;
  if (const Fault *f = fault_at(F_WRITE_ERR, o)) { R->fired[F_WRITE_ERR]++; s->failed = true; errno = f->arg ? (int)f->arg : EIO; return 0; }
  size_t k = n; bool err = false, kill = false;
  if (const Fault *f = fault_at(F_WRITE_SHORT, o)) { k = n * (u64)f->arg / 1000; err = true; R->fired[F_WRITE_SHORT]++; }
  if (const Fault *f = fault_at(F_CRASH_WRITE, o)) { k = n * (u64)f->arg / 1000; kill = true; R->fired[F_CRASH_WRITE]++; }
  if (const Fault *f = fault_any(F_DISK_FULL)) {
    u64 grow = s->pos + k > s->vf->size ? s->pos + k - s->vf->size : 0;
    if (disk_used_new + grow > (u64)f->arg) {
      u64 room = (u64)f->arg - disk_used_new;
      k = grow - room <= k ? k - (grow - room) : 0; err = true; R->fired[F_DISK_FULL]++;
    }
  }
  if (s->app) s->pos = s->vf->size;
  if (s->pos + k > FCAP) simfail("simulated file too large");
  if (s->pos > s->vf->size) memset(s->vf->data + s->vf->size, 0, s->pos - s->vf->size);
  memcpy(s->vf->data + s->pos, buf, k);
  s->pos += k;
  if (s->pos > s->vf->size) { disk_used_new += s->pos - s->vf->size; s->vf->size = s->pos; }
  R->bytes_written += k;
  if (kill) { R->crash_file = s->vf - D->f; R->status = ST_KILLED; active = false; _exit(0); }
  if (err) { s->failed = true; errno = ENOSPC; }
  return k;
}
static ssize_t ck_read(void *c, char *buf, size_t n) {
  Stream *s = (Stream *)c;
  if (s->dev) { for (size_t i = 0; i < n; i++) buf[i] = (char)urnd.next(); return n; }
  u64 o = ++R->dev_reads;
  if (fault_at(F_READ_ERR, o)) { R->fired[F_READ_ERR]++; errno = EIO; return -1; }
  if (fault_at(F_READ_EOF, o)) { R->fired[F_READ_EOF]++; return 0; }
  size_t k = n;
  if (s->pos >= s->vf->size) return 0;
  if (k > s->vf->size - s->pos) k = s->vf->size - s->pos;
  if (const Fault *f = fault_at(F_READ_SHORT, o)) { size_t q = k * (u64)f->arg / 1000; if (q < 1) q = 1; if (q < k) { k = q; R->fired[F_READ_SHORT]++; } }
  memcpy(buf, s->vf->data + s->pos, k);
  s->pos += k;
  return k;
}
static int ck_seek(void *c, off64_t *off, int wh) {
  Stream *s = (Stream *)c;
  if (s->kind || s->dev) { errno = ESPIPE; return -1; }
  long long b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (long long)s->pos : (long long)s->vf->size;
  b += *off;
  if (b < 0) { errno = EINVAL; return -1; }
  s->pos = b; *off = b;
  return 0;
}
static int ck_close(void *c) {
  Stream *s = (Stream *)c;
  int rc = 0;
  if (s->wr && !s->kind && active) {
    u64 o = ++R->closes_w;
    R->openw_unclosed--;
    if (const Fault *f = fault_at(F_CLOSE_ERR, o)) { R->fired[F_CLOSE_ERR]++; errno = f->arg ? (int)f->arg : EIO; rc = -1; }
  }
  delete s;
  return rc;
}
static cookie_io_functions_t CK = {ck_read, ck_write, ck_seek, ck_close};

static FILE *sim_fopen(const char *name, const char *mode) {
  bool rd = mode[0] == 'r' || strchr(mode, '+'), wr = mode[0] != 'r' || strchr(mode, '+');
  if (par) sync_point(8);
  if (!strcmp(name, "/dev/urandom") || !strcmp(name, "/dev/random")) {
    Stream *s = new Stream(); s->dev = true; s->rd = true; s->kind = 0;
    FILE *fp = fopencookie(s, "r", CK);
    setvbuf(fp, nullptr, _IONBF, 0);
    s->fp = fp; (*streams)[fp] = s;
    return fp;
  }
  if (mode[0] == 'r') {
    u64 o = ++R->opens_r;
    if (const Fault *f = fault_at(F_OPEN_R, o)) { R->fired[F_OPEN_R]++; errno = f->arg ? (int)f->arg : EACCES; return nullptr; }
  } else {
    u64 o = ++R->opens_w;
    if (const Fault *f = fault_at(F_OPEN_W, o)) { R->fired[F_OPEN_W]++; errno = f->arg ? (int)f->arg : EACCES; return nullptr; }
  }
  if (!name[0] || strlen(name) >= sizeof(VFile::name)) { errno = ENOENT; return nullptr; }
  const char *nm = name; while (nm[0] == '.' && nm[1] == '/') nm += 2;
  VFile *v = disk_find(nm);
  if (mode[0] == 'r' && !v) { errno = ENOENT; return nullptr; }
  if (!v) {
    for (int i = 0; i < MAXF && !v; i++) if (!D->f[i].exists) v = &D->f[i];
    if (!v) { errno = ENFILE; return nullptr; }
    v->exists = 1; v->size = 0; snprintf(v->name, sizeof v->name, "%s", nm);
  } else if (strchr(mode, 'x')) { errno = EEXIST; return nullptr; }
  if (mode[0] == 'w') v->size = 0;
  Stream *s = new Stream(); s->vf = v; s->rd = rd; s->wr = wr; s->app = mode[0] == 'a';
  if (s->wr) R->openw_unclosed++;
  FILE *fp = fopencookie(s, mode, CK);
  if (!fp) return nullptr;
  setvbuf(fp, nullptr, _IOFBF, C->stdio_buf);
  s->fp = fp; (*streams)[fp] = s;
  return fp;
}

// ------------------------------------------------------------------ clocks
static double vclock = 0;
static double read_clock() {
  u64 o = ++R->clock_reads;
  if (const Fault *f = fault_at(F_CLOCK_JUMP, o)) { R->fired[F_CLOCK_JUMP]++; vclock += (double)f->arg; }
  vclock += 1e-6;
  return vclock + (double)R->steps * 2e-9;
}

// ------------------------------------------------------------------ OpenMP runtime
static inline Team *team() { return F[cur].team; }

static void vc_join(u32 *a, const u32 *b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }

static void acquire(uintptr_t key) { auto it = syncvc->find(key); if (it != syncvc->end()) vc_join(F[cur].vc, it->second.c); }
static void release(uintptr_t key) {
  VC &v = (*syncvc)[key];
  vc_join(v.c, F[cur].vc);
  F[cur].vc[cur]++;
}

static void barrier_all(Team *t) {
  // called by the last arrival: everybody's history is merged
  u32 m[MAXT]; memset(m, 0, sizeof m);
  for (int i = 0; i < t->n; i++) vc_join(m, F[i].vc);
  for (int i = 0; i < t->n; i++) { memcpy(F[i].vc, m, sizeof m); F[i].vc[i]++; }
}

static void team_barrier() {
  Team *t = team();
  if (!t || t->serial || t->n == 1 || !par) return;
  finalize();
  t->arrived++;
  if (t->arrived == t->n) {
    t->arrived = 0;
    barrier_all(t);
    for (int i = 0; i < t->n; i++) if (F[i].st == FS_BARRIER) F[i].st = FS_RUN;
    sync_point(1);
    return;
  }
  F[cur].st = FS_BARRIER;
  sync_point(2);
}

static void run_region_body() {
  Team *t = F[cur].team;
  t->fn(t->data);
}

static void fiber_main() {
  for (;;) {
    // a worker starting a region (or fiber 0 starting the program)
    if (cur == 0) {
      std::vector<const char *> av;
      for (auto &s : C->argv) av.push_back(s.c_str());
      av.push_back(nullptr);
      active = true;
      int rc = C->entry ? C->entry(C->entry_arg) : GLU_main((int)C->argv.size(), av.data());
      R->code = rc & 0xff;
      fflush(nullptr);
      active = false;
      R->status = ST_EXIT;
      leave();
    }
    run_region_body();
    finalize();
    // end of region for a worker
    Team *t = F[cur].team;
    t->ended++;
    F[cur].st = FS_DONE;
    if (t->ended == t->n) {
      barrier_all(t);
      F[0].st = FS_RUN;
    }
    sync_point(3);
    // resumed for another region
  }
}

static void do_parallel(void (*fn)(void *), void *data, unsigned nt, uintptr_t sp) {
  int n = nt ? (int)nt : C->nthreads;
  if (n > MAXT - 1) n = MAXT - 1;
  if (par || n <= 1) {
    // nested (max-active-levels is 1, as in libgomp) or serial region
    Team t; t.serial = true; t.n = 1; t.fn = fn; t.data = data;
    Fiber &f = F[cur];
    Team *old = f.team; int otid = f.omp_tid; u32 ows = f.wsn; int ocw = f.cur_ws;
    f.team = &t; f.omp_tid = 0; f.wsn = 0; f.cur_ws = -1;
    fn(data);
    Fiber &g = F[cur];
    g.team = old; g.omp_tid = otid; g.wsn = ows; g.cur_ws = ocw;
    return;
  }
  R->regions++;
  if ((u64)n > R->max_threads) R->max_threads = n;
  Team t; t.n = n; t.fn = fn; t.data = data;
  Team *old = F[0].team;
  for (int i = 0; i < n; i++) {
    F[i].team = &t; F[i].omp_tid = i; F[i].wsn = 0; F[i].cur_ws = -1;
    if (i) {
      vc_join(F[i].vc, F[0].vc);
      F[i].vc[i]++;
      if (F[i].st == FS_IDLE) fiber_prepare(i);
      F[i].st = FS_RUN;
    }
  }
  F[0].vc[0]++;
  for (int i = 0; i < MAXT; i++) prio[i] = (int)sched.below(1 << 20);
  victim = C->nthreads > 1 ? (int)sched.below(C->nthreads) : -1;
  par_sp = sp;
  par = &t;
  pend.on = false;
  new_gap();
  sync_point(4);
  fn(data);
  finalize();
  t.ended++;
  if (t.ended < t.n) {
    F[0].st = FS_DONE;
    sync_point(3);
  } else { barrier_all(&t); }
  finalize();
  for (int i = 1; i < n; i++) F[i].st = FS_DONE;   // parked until the next region
  F[0].st = FS_RUN;
  par = nullptr;
  F[0].team = old; F[0].omp_tid = 0; F[0].wsn = 0; F[0].cur_ws = -1;
}

// worksharing: the k-th construct a thread meets is the k-th of the team
static WShare *ws_enter(int kind, bool *first) {
  Team *t = team();
  u32 k = F[cur].wsn++;
  auto it = t->ws.find(k);
  if (it == t->ws.end()) { WShare w; memset(&w, 0, sizeof w); w.kind = kind; it = t->ws.emplace(k, w).first; *first = true; }
  else {
    *first = false;
    if (it->second.kind != kind) die(ST_DIVERGED, "threads of a team met different worksharing constructs", 0, 0);
  }
  F[cur].cur_ws = k;
  return &it->second;
}
static Team *serial_team_ensure();
static WShare *ws_cur() { return &team()->ws[F[cur].cur_ws]; }

static bool ws_next(long long *s, long long *e) {
  WShare *w = ws_cur();
  sync_point(5);
  w = ws_cur();
  if (w->incr > 0 ? w->next >= w->end : w->next <= w->end) return false;
  *s = w->next;
  long long step = w->incr * w->chunk;
  long long ne = w->next + step;
  if (w->incr > 0 ? ne > w->end : ne < w->end) ne = w->end;
  *e = ne; w->next = ne;
  return true;
}
static bool ws_start(long long st, long long en, long long inc, long long ch, long long *s, long long *e) {
  if (!team()) { // orphaned loop outside any region
    *s = st; *e = en;
    return inc > 0 ? st < en : st > en;
  }
  bool first; WShare *w = ws_enter(1, &first);
  if (first) { w->next = st; w->end = en; w->incr = inc; w->chunk = ch > 0 ? ch : 1; }
  return ws_next(s, e);
}
static bool uws_next(unsigned long long *s, unsigned long long *e) {
  WShare *w = ws_cur();
  sync_point(5);
  w = ws_cur();
  if (w->up ? w->unext >= w->uend : w->unext <= w->uend) return false;
  *s = w->unext;
  unsigned long long left = w->up ? (w->uend - w->unext) : (w->unext - w->uend);
  unsigned long long step = (w->up ? w->uincr : (0ull - w->uincr)) * w->uchunk;
  if (step > left) step = left;
  w->unext = w->up ? w->unext + step : w->unext - step;
  *e = w->unext;
  return true;
}
static bool uws_start(bool up, unsigned long long st, unsigned long long en, unsigned long long inc, unsigned long long ch,
                      unsigned long long *s, unsigned long long *e) {
  if (!team()) { *s = st; *e = en; return up ? st < en : st > en; }
  bool first; WShare *w = ws_enter(2, &first);
  if (first) { w->ull = true; w->up = up; w->unext = st; w->uend = en; w->uincr = inc; w->uchunk = ch ? ch : 1; }
  return uws_next(s, e);
}

static void lock_acquire(uintptr_t key) {
  if (!par) { (*lockowner)[key] = cur; return; }
  finalize();
  sync_point(6);
  for (;;) {
    auto it = lockowner->find(key);
    if (it == lockowner->end()) break;
    F[cur].st = FS_LOCK; F[cur].lockkey = key;
    sync_point(6);
  }
  (*lockowner)[key] = cur;
  acquire(key);
}
static void lock_release(uintptr_t key) {
  lockowner->erase(key);
  if (!par) return;
  finalize();
  release(key);
  for (int i = 0; i < MAXT; i++) if (F[i].st == FS_LOCK && F[i].lockkey == key) F[i].st = FS_RUN;
  sync_point(6);
}

// ------------------------------------------------------------------ running
static void on_signal(int sig, siginfo_t *si, void *uc) {
  ucontext_t *u = (ucontext_t *)uc;
  if (R && R->status == ST_RUNNING) {
    R->pc = u->uc_mcontext.gregs[REG_RIP]; R->addr = (u64)si->si_addr; R->code = sig;
    u64 sp = u->uc_mcontext.gregs[REG_RSP];
    const char *m = sig == SIGSEGV ? "segmentation fault" : sig == SIGFPE ? "floating point/integer exception" :
                    sig == SIGABRT ? "abort" : sig == SIGBUS ? "bus error" : "signal";
    // inside a library function: find the caller that belongs to the program
    if (R->pc > 0x10000000ull) {
      for (int i = 0; i < 400; i++) {
        u64 v = ((u64 *)sp)[i];
        if (v > (u64)&__executable_start && v < (u64)&etext) { R->pc = v; break; }
      }
    }
    snprintf(R->msg, sizeof R->msg, "%s", m);
    R->status = ST_SIGNAL;
  }
  _exit(0);
}

static void mapat(uintptr_t a, size_t n) {
  void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)a) { fprintf(stderr, "simulator: cannot map %lx\n", (long)a); _exit(99); }
}

void init() {
  R = (Result *)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  D = (Disk *)mmap(nullptr, sizeof(Disk), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  u8 *data = (u8 *)mmap(nullptr, FCAP * MAXF, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  for (int i = 0; i < MAXF; i++) D->f[i].data = data + FCAP * i;
}
Result *result() { return R; }
Disk *disk() { return D; }

// every 20 seconds of CPU time: a program that has not made one step since the last tick sits in a
// loop that touches no memory, which no step budget would ever end
static u64 tick_steps; static int ticks;
static void on_tick(int) {
  if (R->status != ST_RUNNING) return;
  if (R->steps && R->steps == tick_steps) { R->status = ST_LIVELOCK; snprintf(R->msg, sizeof R->msg, "a loop that touches no memory does not end"); _exit(0); }
  tick_steps = R->steps;
  if (++ticks * 20 >= (int)C->wall_limit) { R->status = ST_SIMFAIL; snprintf(R->msg, sizeof R->msg, "CPU-time limit"); _exit(0); }
}
static void child(const RunCfg &cfg) {
  C = &cfg; tick_steps = 0; ticks = 0;
  { struct sigaction ta; memset(&ta, 0, sizeof ta); ta.sa_handler = on_tick; ta.sa_flags = SA_ONSTACK | SA_RESTART; sigaction(SIGPROF, &ta, nullptr);
    struct itimerval tv; tv.it_interval.tv_sec = tv.it_value.tv_sec = 20; tv.it_interval.tv_usec = tv.it_value.tv_usec = 0; setitimer(ITIMER_PROF, &tv, nullptr); }
  mapat(ARENA, ARENA_SZ);
  mapat(STACKS, STACK_SZ * MAXT);
  mapat(SH_ADDR, ARENA_SZ / 8);
  mapat(SH_ARENA, ARENA_SZ / 8 * sizeof(Cell));
  mapat(SH_STACK, STACK_SZ / 8 * sizeof(Cell));
  mapat(SH_GLOB, ((&_end - &__data_start) / 8 + 16) * sizeof(Cell));
  sched = Rng(cfg.sched_seed * 0x2545F4914F6CDD1Dull + 7);
  fillr = Rng(cfg.fill_seed * 77 + 1);
  scrib_due = 0; scrib_on = cfg.fill_seed != 0; if (scrib_on) fill(sim_scrib_tab, sizeof sim_scrib_tab);
  urnd = Rng(cfg.urandom_seed * 991 + 3);
  vclock = cfg.clock0;
  step_limit = cfg.max_steps;
  for (auto &f : cfg.faults) if (f.kind == F_CRASH_STEP && f.ordinal < step_limit) step_limit = f.ordinal;
  brk_ = ARENA + 4096;
  live = new std::unordered_map<uintptr_t, size_t>();
  streams = new std::unordered_map<FILE *, Stream *>();
  syncvc = new std::unordered_map<uintptr_t, VC>();
  lockowner = new std::unordered_map<uintptr_t, int>();
  for (int i = 0; i < MAXT; i++) {
    F[i] = Fiber(); F[i].tid = i; F[i].stk = STACKS + STACK_SZ * i;
    memset(F[i].vc, 0, sizeof F[i].vc); F[i].vc[i] = 1;
    if (i < cfg.nthreads || i == 0) fill((void *)(F[i].stk + STACK_SZ - (192 << 10)), 192 << 10);
    mprotect((void *)F[i].stk, 65536, PROT_NONE);
  }
  // streams of the program
  Stream *so = new Stream(); so->kind = 1; sim_out = fopencookie(so, "w", CK); setvbuf(sim_out, nullptr, _IOLBF, 4096);
  Stream *se = new Stream(); se->kind = 2; sim_err = fopencookie(se, "w", CK); setvbuf(sim_err, nullptr, _IONBF, 0);
  stdout = sim_out; stderr = sim_err;
  stack_t ss; ss.ss_sp = mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); ss.ss_size = 1 << 16; ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL}) sigaction(s, &sa, nullptr);
  cur = 0;
  F[0].st = FS_RUN;
  fiber_prepare(0);
  sim_switch(&host_sp, F[0].sp);
  _exit(98);
}

int run(const RunCfg &cfg) {
  size_t head = offsetof(Result, race);
  memset((void *)R, 0, head);
  R->ntrace = R->trace_over = R->nout = R->nerr = 0; R->crash_file = 0; R->openw_unclosed = 0;
  R->sync_hash = 1469598103934665603ull;
  R->max_threads = 1;
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { perror("fork"); abort(); }
  if (p == 0) { alarm((unsigned)cfg.wall_limit * 4); child(cfg); }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (R->status == ST_RUNNING) {
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { R->status = ST_SIMFAIL; snprintf(R->msg, sizeof R->msg, "wall-clock limit"); }
    else if (WIFSIGNALED(st)) { R->status = ST_SIGNAL; R->code = WTERMSIG(st); snprintf(R->msg, sizeof R->msg, "killed by signal %d", WTERMSIG(st)); }
    else { R->status = ST_SIMFAIL; snprintf(R->msg, sizeof R->msg, "child left with %x", st); }
  }
  R->vtime = (double)R->steps * 2e-9 + 1e-6 * R->clock_reads;
  return R->status;
}

std::string result_stdout() { return std::string(R->out, R->nout); }
std::string result_stderr() { return std::string(R->err, R->nerr); }

u64 result_hash() {
  u64 h = fnv(&R->sync_hash, 8);
  int s = R->status; h = fnv(&s, 4, h); h = fnv(&R->code, 4, h); h = fnv(&R->steps, 8, h); h = fnv(&R->switches, 8, h);
  h = fnv(R->out, R->nout, h); h = fnv(R->err, R->nerr, h);
  h = fnv(R->fired, sizeof R->fired, h);
  for (int i = 0; i < MAXF; i++) if (D->f[i].exists) { h = fnv(D->f[i].name, strlen(D->f[i].name), h); h = fnv(D->f[i].data, D->f[i].size, h); }
  return h;
}

// function containing pc, from the executable's own symbol table
struct Sym { u64 a, n; std::string s; };
static std::vector<Sym> *syms;
static void load_syms() {
  syms = new std::vector<Sym>();
  FILE *f = fopen("/proc/self/exe", "rb");
  if (!f) return;
  Elf64_Ehdr eh;
  if (fread(&eh, sizeof eh, 1, f) != 1) { fclose(f); return; }
  std::vector<Elf64_Shdr> sh(eh.e_shnum);
  fseek(f, eh.e_shoff, SEEK_SET);
  if (fread(sh.data(), sizeof(Elf64_Shdr), eh.e_shnum, f) != eh.e_shnum) { fclose(f); return; }
  for (auto &s : sh) if (s.sh_type == SHT_SYMTAB) {
    std::vector<Elf64_Sym> st(s.sh_size / sizeof(Elf64_Sym));
    fseek(f, s.sh_offset, SEEK_SET); if (fread(st.data(), 1, s.sh_size, f) != s.sh_size) continue;
    auto &str = sh[s.sh_link];
    std::string names(str.sh_size, 0);
    fseek(f, str.sh_offset, SEEK_SET); if (fread(&names[0], 1, str.sh_size, f) != str.sh_size) continue;
    for (auto &y : st) if (ELF64_ST_TYPE(y.st_info) == STT_FUNC && y.st_value) syms->push_back({y.st_value, y.st_size, names.c_str() + y.st_name});
  }
  fclose(f);
  std::sort(syms->begin(), syms->end(), [](const Sym &a, const Sym &b) { return a.a < b.a; });
}
std::string symbolize(u64 pc) {
  if (!syms) load_syms();
  std::string best = "?"; 
  for (auto &s : *syms) { if (s.a > pc) break; if (pc < s.a + s.n) best = s.s; }
  // compiler suffixes do not identify the source function
  size_t d = best.find('.'); if (d != std::string::npos) best.resize(d);
  return best;
}

} // namespace sim

// =================================================================== hooks
using namespace sim;
#define RA ((u64)__builtin_return_address(0))
extern "C" {

// Locals have no value of their own: the part of the stack that the next calls will use is overwritten with the
// pattern of the run whenever a function starts, and after one has returned.
u64 sim_scrib_tab[128];
__attribute__((naked, noinline, used)) void sim_scrib() {
  asm volatile("lea -1024(%rsp), %rdi\n\tmov $sim_scrib_tab, %esi\n\tmov $128, %ecx\n\trep movsq\n\tret");
}
#define SCRIB if (__builtin_expect(scrib_due, 0)) { scrib_due = 0; sim_scrib(); }
void __tsan_init() {}
void __tsan_func_entry(void *pc) { CallStack &k = callst[cur]; if (k.d < 256) k.pc[k.d] = (u32)(u64)pc; k.d++; if (scrib_on) sim_scrib(); }
void __tsan_func_exit() { CallStack &k = callst[cur]; if (k.d) k.d--; scrib_due = scrib_on; }
#define RW(n) \
  void __tsan_read##n(void *a) { access((uintptr_t)a, n, false, RA); SCRIB } \
  void __tsan_write##n(void *a) { access((uintptr_t)a, n, true, RA); SCRIB } \
  void __tsan_unaligned_read##n(void *a) { access((uintptr_t)a, n, false, RA); } \
  void __tsan_unaligned_write##n(void *a) { access((uintptr_t)a, n, true, RA); } \
  void __tsan_volatile_read##n(void *a) { access((uintptr_t)a, n, false, RA); } \
  void __tsan_volatile_write##n(void *a) { access((uintptr_t)a, n, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { if (n) access((uintptr_t)a, n, false, RA); }
void __tsan_write_range(void *a, unsigned long n) { if (n) access((uintptr_t)a, n, true, RA); }
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}

static inline void at_pre(const volatile void *a, size_t n, u64 pc) {
  if (!active) return;
  R->steps++;
  check_heap((uintptr_t)a, n, true, pc);
  if (par) { sync_point(9); acquire((uintptr_t)a); }
}
static inline void at_post(const volatile void *a, size_t n, bool w, u64 pc, const void *old) {
  if (!active || !par) return;
  if (C->race) for_granules((uintptr_t)a, n, w, (u32)pc, true, (const u8 *)old);
  if (w) release((uintptr_t)a);
}
#define ATOM(B, T) \
  T __tsan_atomic##B##_load(const volatile T *a, int) { at_pre(a, sizeof(T), RA); T v = *a; at_post(a, sizeof(T), false, RA, nullptr); return v; } \
  void __tsan_atomic##B##_store(volatile T *a, T v, int) { at_pre(a, sizeof(T), RA); T o = *a; *a = v; at_post(a, sizeof(T), true, RA, &o); } \
  T __tsan_atomic##B##_exchange(volatile T *a, T v, int) { at_pre(a, sizeof(T), RA); T o = *a; *a = v; at_post(a, sizeof(T), true, RA, &o); return o; } \
  T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int) { at_pre(a, sizeof(T), RA); T o = *a; *a = o + v; at_post(a, sizeof(T), true, RA, &o); return o; } \
  T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int) { at_pre(a, sizeof(T), RA); T o = *a; *a = o - v; at_post(a, sizeof(T), true, RA, &o); return o; } \
  T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int) { at_pre(a, sizeof(T), RA); T o = *a; *a = o & v; at_post(a, sizeof(T), true, RA, &o); return o; } \
  T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int) { at_pre(a, sizeof(T), RA); T o = *a; *a = o | v; at_post(a, sizeof(T), true, RA, &o); return o; } \
  T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int) { at_pre(a, sizeof(T), RA); T o = *a; *a = o ^ v; at_post(a, sizeof(T), true, RA, &o); return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { at_pre(a, sizeof(T), RA); T o = *a; bool ok = o == *e; if (ok) *a = v; else *e = o; at_post(a, sizeof(T), ok, RA, &o); return ok; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *e, T v, int, int) { at_pre(a, sizeof(T), RA); T o = *a; bool ok = o == *e; if (ok) *a = v; else *e = o; at_post(a, sizeof(T), ok, RA, &o); return ok; } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T e, T v, int, int) { at_pre(a, sizeof(T), RA); T o = *a; bool ok = o == e; if (ok) *a = v; at_post(a, sizeof(T), ok, RA, &o); return o; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------- libgomp ABI
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned) { do_parallel(fn, data, nt, (uintptr_t)__builtin_frame_address(0)); }
void GOMP_barrier() { team_barrier(); }
bool GOMP_single_start() {
  if (!team() || team()->serial) return true;
  if (par) sync_point(10);
  bool first; ws_enter(3, &first);
  return first;
}
void *GOMP_single_copy_start() {
  if (!team() || team()->serial) return nullptr;
  bool first; ws_enter(3, &first);
  if (first) return nullptr;
  team_barrier();
  void *r = team()->copyprivate;
  return r;
}
void GOMP_single_copy_end(void *d) { if (!team() || team()->serial) return; team()->copyprivate = d; team_barrier(); }
void GOMP_critical_start() { lock_acquire(2); }
void GOMP_critical_end() { lock_release(2); }
void GOMP_critical_name_start(void **p) { lock_acquire((uintptr_t)p); }
void GOMP_critical_name_end(void **p) { lock_release((uintptr_t)p); }
void GOMP_atomic_start() { lock_acquire(1); }
void GOMP_atomic_end() { lock_release(1); }
void GOMP_ordered_start() {}
void GOMP_ordered_end() {}

#define LOOPS(name) \
  bool GOMP_loop_##name##_start(long s, long e, long i, long c, long *is, long *ie) { long long a, b; bool r = ws_start(s, e, i, c, &a, &b); if (r) { *is = a; *ie = b; } return r; } \
  bool GOMP_loop_##name##_next(long *is, long *ie) { if (!team()) return false; long long a, b; bool r = ws_next(&a, &b); if (r) { *is = a; *ie = b; } return r; } \
  bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long *is, unsigned long long *ie) { return uws_start(up, s, e, i, c, is, ie); } \
  bool GOMP_loop_ull_##name##_next(unsigned long long *is, unsigned long long *ie) { if (!team()) return false; return uws_next(is, ie); }
LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided) LOOPS(static)
#define LOOPSRT(name) \
  bool GOMP_loop_##name##_start(long s, long e, long i, long *is, long *ie) { long long a, b; bool r = ws_start(s, e, i, 1, &a, &b); if (r) { *is = a; *ie = b; } return r; } \
  bool GOMP_loop_##name##_next(long *is, long *ie) { if (!team()) return false; long long a, b; bool r = ws_next(&a, &b); if (r) { *is = a; *ie = b; } return r; } \
  bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long *is, unsigned long long *ie) { return uws_start(up, s, e, i, 1, is, ie); } \
  bool GOMP_loop_ull_##name##_next(unsigned long long *is, unsigned long long *ie) { if (!team()) return false; return uws_next(is, ie); }
LOOPSRT(runtime) LOOPSRT(nonmonotonic_runtime) LOOPSRT(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { if (team()) team_barrier(); }
void GOMP_loop_end_nowait() {}
static void par_loop(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, uintptr_t sp) {
  // combined construct: the first workshare is pre-entered by everybody
  struct Ctx { void (*fn)(void *); void *d; long s, e, i, c; } x = {fn, d, s, e, i, c};
  do_parallel([](void *v) {
    Ctx *x = (Ctx *)v;
    bool first; WShare *w = ws_enter(1, &first);
    if (first) { w->next = x->s; w->end = x->e; w->incr = x->i; w->chunk = x->c > 0 ? x->c : 1; }
    x->fn(x->d);
  }, &x, nt, sp);
}
#define PLOOP(name) void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned) { par_loop(fn, d, nt, s, e, i, c, (uintptr_t)__builtin_frame_address(0)); }
PLOOP(static) PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
#define PLOOPR(name) void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, unsigned) { par_loop(fn, d, nt, s, e, i, 1, (uintptr_t)__builtin_frame_address(0)); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
unsigned GOMP_sections_next() { long long a, b; if (!team()) return 0; return ws_next(&a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_start(unsigned n) { long long a, b; return ws_start(1, (long long)n + 1, 1, 1, &a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end() { if (team()) team_barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned nt, unsigned n, unsigned) { par_loop(fn, d, nt, 1, (long)n + 1, 1, 1, (uintptr_t)__builtin_frame_address(0)); }

int omp_get_thread_num() { return F[cur].omp_tid; }
int omp_get_num_threads() { return team() ? team()->n : 1; }
int omp_get_max_threads() { return C ? C->nthreads : 1; }
int omp_get_num_procs() { return C ? C->nthreads : 1; }
int omp_in_parallel() { return par != nullptr; }
int omp_get_level() { return team() ? 1 : 0; }
int omp_get_active_level() { return par ? 1 : 0; }
int omp_get_dynamic() { return 0; }
int omp_get_nested() { return 0; }
int omp_get_max_active_levels() { return 1; }
void omp_set_max_active_levels(int) {}
void omp_set_nested(int) {}
void omp_set_dynamic(int) {}
static int forced_threads;
void omp_set_num_threads(int n) { (void)n; forced_threads = n; }
int omp_get_thread_limit() { return MAXT - 1; }
double omp_get_wtime() { return read_clock(); }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void *) {}
void omp_destroy_lock(void *) {}
void omp_set_lock(void *l) { lock_acquire((uintptr_t)l); }
void omp_unset_lock(void *l) { lock_release((uintptr_t)l); }
int omp_test_lock(void *l) { if (lockowner->count((uintptr_t)l)) { sync_point(6); return 0; } lock_acquire((uintptr_t)l); return 1; }

// ------------------------------------------------------------- wrapped libc

void *__wrap_malloc(size_t n) { return heap_alloc(n, 16, false, RA); }
void *__wrap_calloc(size_t a, size_t b) { if (b && a > (size_t)-1 / b) return nullptr; return heap_alloc(a * b, 16, true, RA); }
void __wrap_free(void *p) { if (par) finalize(); heap_free(p, RA); }
void *__wrap_realloc(void *p, size_t n) {
  if (!p) return heap_alloc(n, 16, false, RA);
  if (par) finalize();
  auto it = live->find((uintptr_t)p);
  if (it == live->end()) die(ST_MEMERR, "realloc of a pointer that was not allocated", RA, (u64)p);
  size_t o = it->second;
  void *q = heap_alloc(n, 16, false, RA);
  if (!q) return nullptr;
  memcpy(q, p, o < n ? o : n);
  heap_free(p, RA);
  return q;
}
int __wrap_posix_memalign(void **p, size_t al, size_t n) {
  int e = errno; void *q = heap_alloc(n, al, false, RA); errno = e;
  if (!q) return ENOMEM;
  *p = q; return 0;
}
void *__wrap_aligned_alloc(size_t al, size_t n) { return heap_alloc(n, al, false, RA); }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *q = (char *)heap_alloc(n, 16, false, RA); if (q) memcpy(q, s, n); return q; }

void *__wrap_memcpy(void *d, const void *s, size_t n) {
  u64 pc = RA;
  range_read(s, n, pc); range_write_check(d, n, pc);
  if (active && par && C->race && n <= 65536) {
    static u8 old[65536]; memcpy(old, d, n); memmove(d, s, n); range_written(d, n, pc, old);
  } else { memmove(d, s, n); range_written(d, n, pc, nullptr); }
  return d;
}
void *__wrap_memmove(void *d, const void *s, size_t n) { return __wrap_memcpy(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) {
  u64 pc = RA;
  range_write_check(d, n, pc);
  if (active && par && C->race && n <= 65536) {
    static u8 old[65536]; memcpy(old, d, n); memset(d, c, n); range_written(d, n, pc, old);
  } else { memset(d, c, n); range_written(d, n, pc, nullptr); }
  return d;
}
size_t __wrap_strlen(const char *s) { size_t n = strlen(s); range_read(s, n + 1, RA); return n; }
int __wrap_strcmp(const char *a, const char *b) { int r = strcmp(a, b); size_t i = 0; if (active) { while (a[i] && a[i] == b[i]) i++; range_read(a, i + 1, RA); range_read(b, i + 1, RA); } return r; }
int __wrap_strncmp(const char *a, const char *b, size_t n) { int r = strncmp(a, b, n); size_t i = 0; if (active && n) { while (i + 1 < n && a[i] && a[i] == b[i]) i++; range_read(a, i + 1, RA); range_read(b, i + 1, RA); } return r; }
char *__wrap_strcpy(char *d, const char *s) { size_t n = strlen(s) + 1; range_read(s, n, RA); range_write_check(d, n, RA); memcpy(d, s, n); range_written(d, n, RA, nullptr); return d; }
char *__wrap_strncpy(char *d, const char *s, size_t n) { range_write_check(d, n, RA); char *r = strncpy(d, s, n); range_written(d, n, RA, nullptr); return r; }
char *__wrap_strcat(char *d, const char *s) { size_t k = strlen(d), n = strlen(s) + 1; range_write_check(d + k, n, RA); memcpy(d + k, s, n); range_written(d + k, n, RA, nullptr); return d; }
int __wrap_vsprintf(char *d, const char *f, va_list ap) {
  static char buf[1 << 20];
  int n = vsnprintf(buf, sizeof buf, f, ap);
  range_write_check(d, n + 1, RA); memcpy(d, buf, n + 1); range_written(d, n + 1, RA, nullptr);
  return n;
}
int __wrap_sprintf(char *d, const char *f, ...) {
  static char buf[1 << 20];
  va_list ap; va_start(ap, f); int n = vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
  range_write_check(d, n + 1, RA); memcpy(d, buf, n + 1); range_written(d, n + 1, RA, nullptr);
  return n;
}
int __wrap_snprintf(char *d, size_t c, const char *f, ...) {
  va_list ap; va_start(ap, f);
  static char buf[1 << 20];
  int n = vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
  size_t k = (size_t)n + 1 > c ? c : (size_t)n + 1;
  if (k) { range_write_check(d, k, RA); memcpy(d, buf, k); d[k - 1] = 0; range_written(d, k, RA, nullptr); }
  return n;
}
FILE *__wrap_fopen(const char *n, const char *m) { return active ? sim_fopen(n, m) : ::fopen(n, m); }
FILE *__wrap_fopen64(const char *n, const char *m) { return active ? sim_fopen(n, m) : ::fopen(n, m); }
int __wrap_fclose(FILE *f) {
  if (!active) return ::fclose(f);
  if (f == sim_out || f == sim_err) return fflush(f);
  if (f) { if (!streams->count(f)) die(ST_MEMERR, "fclose of a stream that is not open", RA, (u64)f); streams->erase(f); }
  else die(ST_SIGNAL, "fclose(NULL)", RA, 0);
  return ::fclose(f);
}
static void check_fp(FILE *f, u64 pc, const char *what) {
  if (!active || f == sim_out || f == sim_err) return;
  if (!f) { R->code = SIGSEGV; char m[80]; snprintf(m, sizeof m, "%s on a NULL stream", what); die(ST_SIGNAL, m, pc, 0); }
  if (!streams->count(f)) die(ST_MEMERR, "use of a stream that is not open", pc, (u64)f);
}
size_t __wrap_fread(void *p, size_t s, size_t n, FILE *f) {
  u64 pc = RA; check_fp(f, pc, "fread");
  if (active && par) sync_point(8);
  range_write_check(p, s * n, pc);
  size_t r = ::fread(p, s, n, f);
  range_written(p, r * s, pc, nullptr);
  return r;
}
size_t __wrap_fwrite(const void *p, size_t s, size_t n, FILE *f) {
  u64 pc = RA; check_fp(f, pc, "fwrite");
  if (active && par && f != sim_out && f != sim_err) sync_point(8);
  range_read(p, s * n, pc);
  return ::fwrite(p, s, n, f);
}
char *__wrap_fgets(char *b, int n, FILE *f) {
  u64 pc = RA; check_fp(f, pc, "fgets");
  char *r = ::fgets(b, n, f);
  if (r) range_write_check(b, strlen(b) + 1, pc);
  return r;
}
int __wrap_fgetc(FILE *f) { check_fp(f, RA, "fgetc"); return fgetc(f); }
int __wrap_getc(FILE *f) { check_fp(f, RA, "getc"); return fgetc(f); }
int __wrap_fputc(int c, FILE *f) { check_fp(f, RA, "fputc"); return fputc(c, f); }
int __wrap_putc(int c, FILE *f) { check_fp(f, RA, "putc"); return fputc(c, f); }
int __wrap_fputs(const char *s, FILE *f) { check_fp(f, RA, "fputs"); return fputs(s, f); }
int __wrap_fseek(FILE *f, long o, int w) { check_fp(f, RA, "fseek"); return fseek(f, o, w); }
int __wrap_fseeko(FILE *f, off_t o, int w) { check_fp(f, RA, "fseeko"); return fseeko(f, o, w); }
long __wrap_ftell(FILE *f) { check_fp(f, RA, "ftell"); return ftell(f); }
off_t __wrap_ftello(FILE *f) { check_fp(f, RA, "ftello"); return ftello(f); }
void __wrap_rewind(FILE *f) { check_fp(f, RA, "rewind"); rewind(f); }
int __wrap_feof(FILE *f) { check_fp(f, RA, "feof"); return feof(f); }
int __wrap_ferror(FILE *f) { check_fp(f, RA, "ferror"); return ferror(f); }
int __wrap_fflush(FILE *f) { if (f) check_fp(f, RA, "fflush"); return fflush(f); }
int __wrap_fileno(FILE *) { errno = EBADF; return 1 << 20; }
int __wrap_fsync(int) { return 0; }
int __wrap_fprintf(FILE *f, const char *fmt, ...) {
  check_fp(f, RA, "fprintf");
  va_list ap; va_start(ap, fmt); int r = vfprintf(f, fmt, ap); va_end(ap); return r;
}
int __wrap_vfprintf(FILE *f, const char *fmt, va_list ap) { check_fp(f, RA, "vfprintf"); return vfprintf(f, fmt, ap); }
int __wrap_fscanf(FILE *f, const char *fmt, ...) {
  check_fp(f, RA, "fscanf");
  va_list ap; va_start(ap, fmt); int r = vfscanf(f, fmt, ap); va_end(ap); return r;
}
int __wrap___isoc99_fscanf(FILE *f, const char *fmt, ...) {
  check_fp(f, RA, "fscanf");
  va_list ap; va_start(ap, fmt); int r = vfscanf(f, fmt, ap); va_end(ap); return r;
}
int __wrap___isoc23_fscanf(FILE *f, const char *fmt, ...) {
  check_fp(f, RA, "fscanf");
  va_list ap; va_start(ap, fmt); int r = vfscanf(f, fmt, ap); va_end(ap); return r;
}
int __wrap_remove(const char *n) { VFile *v = disk_find(n); if (!v) { errno = ENOENT; return -1; } v->exists = 0; return 0; }
int __wrap_unlink(const char *n) { return __wrap_remove(n); }
int __wrap_access(const char *n, int) { if (disk_find(n)) return 0; errno = ENOENT; return -1; }
int __wrap_rename(const char *a, const char *b) {
  VFile *v = disk_find(a); if (!v || strlen(b) >= sizeof v->name) { errno = ENOENT; return -1; }
  VFile *w = disk_find(b); if (w) w->exists = 0;
  strcpy(v->name, b); return 0;
}
time_t __wrap_time(time_t *t) { time_t v = (time_t)read_clock(); if (t) *t = v; return v; }
int __wrap_gettimeofday(struct timeval *tv, void *) { double v = read_clock(); double fl = floor(v); tv->tv_sec = (long)fl; tv->tv_usec = (long)((v - fl) * 1e6); return 0; }
int __wrap_clock_gettime(int, struct timespec *ts) { double v = read_clock(); double fl = floor(v); ts->tv_sec = (long)fl; ts->tv_nsec = (long)((v - fl) * 1e9); return 0; }
clock_t __wrap_clock() { return (clock_t)(read_clock() * 1e6); }
long __wrap_sysconf(int k) {
  if (k == _SC_PAGESIZE) return C->page_size;
  if (k == _SC_PHYS_PAGES || k == _SC_AVPHYS_PAGES) return (long)C->phys_pages;
  if (k == _SC_NPROCESSORS_ONLN || k == _SC_NPROCESSORS_CONF) return C->nthreads;
  return sysconf(k);
}
char *__wrap_getenv(const char *n) { auto it = C->env.find(n); return it == C->env.end() ? nullptr : (char *)it->second.c_str(); }
void __wrap_exit(int code) {
  if (!active) ::exit(code);
  R->via_exit = 1; R->code = code & 0xff;
  fflush(nullptr);
  active = false;
  R->status = ST_EXIT;
  _exit(0);
}
void __wrap_abort() { die(ST_SIGNAL, "abort", RA, 0); }
// -fsanitize=bounds: an index outside the declared array. Walking through the rows of an array of colour matrices with one index stays inside the field and is left alone.
void __ubsan_handle_out_of_bounds(void *d, void *i) {
  if (!active) return;
  struct Type { unsigned short kind, info; char name[1]; }; struct Data { const char *file; u32 line, col; Type *array, *index; } *l = (Data *)d;
  if (strstr(l->array->name, "omplex") && (intptr_t)i >= 0) return;
  char m[160]; const char *b = strrchr(l->file, '/'); snprintf(m, sizeof m, "index %lld outside %.40s, %.60s:%u", (long long)(intptr_t)i, l->array->name, b ? b + 1 : l->file, l->line); die(ST_MEMERR, m, RA, 0);
}
void __wrap___stack_chk_fail() { die(ST_MEMERR, "stack buffer overflow (smashed canary)", RA, 0); }
void __wrap___assert_fail(const char *e, const char *, unsigned, const char *) { die(ST_SIGNAL, e, RA, 0); }

// ------------------------------------------------------------- FFTW seam
typedef double fcx[2];
void *fftw_plan_dft(int, const int *, fcx *, fcx *, int, unsigned) __attribute__((weak));
void fftw_execute(void *) __attribute__((weak));
void fftw_destroy_plan(void *) __attribute__((weak));
struct PlanInfo { void *in, *out; size_t n; };
static std::unordered_map<void *, PlanInfo> *plans;
void *__wrap_fftw_malloc(size_t n) { return heap_alloc(n, 64, false, RA); }
void __wrap_fftw_free(void *p) { if (par) finalize(); heap_free(p, RA); }
void *__wrap_fftw_plan_dft(int rank, const int *n, fcx *in, fcx *out, int sign, unsigned flags) {
  size_t v = 1; for (int i = 0; i < rank; i++) v *= n[i];
  if (!in || !out) return nullptr;
  range_write_check(in, v * 16, RA); range_write_check(out, v * 16, RA);
  void *p = fftw_plan_dft(rank, n, in, out, sign, (1u << 6) /* FFTW_ESTIMATE */);
  if (!plans) plans = new std::unordered_map<void *, PlanInfo>();
  if (p) (*plans)[p] = {in, out, v * 16};
  return p;
}
void __wrap_fftw_execute(void *p) {
  u64 pc = RA;
  if (active && par) sync_point(11);
  auto it = plans ? plans->find(p) : decltype(plans->find(p))();
  if (!plans || it == plans->end()) { die(ST_SIGNAL, "fftw_execute of an invalid plan", pc, (u64)p); }
  PlanInfo pi = it->second;
  range_read(pi.in, pi.n, pc); range_write_check(pi.out, pi.n, pc);
  fftw_execute(p);
  range_written(pi.out, pi.n, pc, nullptr);
  if (active && par) sync_point(11);
}
void __wrap_fftw_destroy_plan(void *p) { if (plans) plans->erase(p); if (p) fftw_destroy_plan(p); }
}

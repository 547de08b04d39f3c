// Deterministic simulation runtime: interface between the simulator and the harness.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>

namespace sim {

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

// ---------- seeded generator used for every choice the simulator makes ----------
struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed) {}
  u64 next() {
    u64 z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return uni() < p; }
};

// ---------- faults ----------
enum FaultKind {
  F_NONE = 0,
  F_OPEN_R,     // the ordinal-th open for reading fails            (arg = errno)
  F_OPEN_W,     // the ordinal-th open for writing fails            (arg = errno)
  F_WRITE_ERR,  // the ordinal-th device write transfers nothing    (arg = errno)
  F_WRITE_SHORT,// the ordinal-th device write transfers arg/1000 of the bytes, then ENOSPC
  F_DISK_FULL,  // the disk has only arg bytes left for new data
  F_READ_ERR,   // the ordinal-th device read fails with EIO
  F_READ_SHORT, // the ordinal-th device read returns fewer bytes (legal), arg/1000 of the request
  F_READ_EOF,   // the ordinal-th device read reports end of file early
  F_CLOSE_ERR,  // the ordinal-th close of a written file fails      (arg = errno)
  F_CRASH_WRITE,// process is killed in the ordinal-th device write, arg/1000 of the bytes reached it
  F_CRASH_STEP, // process is killed at tick ordinal
  F_ALLOC,      // the ordinal-th allocation returns NULL
  F_CLOCK_JUMP, // the ordinal-th clock reading jumps by (signed) arg seconds
  F_NKINDS
};
const char *fault_name(int k);
struct Fault { int kind; u64 ordinal; long long arg; };

// ---------- virtual disk ----------
static const int MAXF = 120;
static const size_t FCAP = 3u << 20;
struct VFile { char name[120]; u32 exists; u32 pad; u64 size; u8 *data; };

// ---------- outcome of a run ----------
enum Status {
  ST_RUNNING = 0,
  ST_EXIT,      // main returned or exit() was called; see code
  ST_KILLED,    // simulated crash
  ST_MEMERR,    // heap access outside an allocation, double free, smashed stack ...
  ST_SIGNAL,    // SIGSEGV and friends
  ST_DEADLOCK,  // every simulated thread is blocked
  ST_DIVERGED,  // a thread left the region while others wait at a barrier inside it
  ST_LIVELOCK,  // step budget exhausted
  ST_SIMFAIL    // the simulator itself could not continue (arena exhausted, missing feature)
};
const char *status_name(int s);

struct Race { u64 addr; u32 pc1, pc2; u8 tid1, tid2, w1, w2; u32 region; };

static const int MAXRACE = 24;
static const int MAXTRACE = 1 << 18;
static const size_t OUTCAP = 1u << 20;
struct Decision { u64 tick; u32 tid; u32 kind; };

struct ASite { u64 key, first, n, mid, last; };
static const u32 MAXASITE = 512;
struct Result {
  volatile int status;
  int code;               // exit code / signal number
  int via_exit;           // exit() rather than return from main
  u64 pc, addr;           // where a MEMERR/SIGNAL happened
  char msg[256];
  u64 steps, par_ticks, switches, sync_ops, regions;
  u64 allocs, opens_r, opens_w, dev_writes, dev_reads, clock_reads, closes_w;
  u64 bytes_written;
  u64 fired[F_NKINDS];
  u64 sync_hash;          // order of synchronisation events: the interleaving class
  u64 max_threads;
  double vtime;           // simulated seconds that passed
  u32 nrace; u32 race_total;
  u32 nasite; ASite asite[MAXASITE];
  Race race[MAXRACE];
  u32 ntrace; u32 trace_over;
  Decision trace[MAXTRACE];
  u32 nout, nerr;
  char out[OUTCAP], err[OUTCAP / 4];
  // after-crash bookkeeping
  u32 crash_file; u32 pad0;
  u64 openw_unclosed;
};

struct Disk { VFile f[MAXF]; };

// ---------- scheduling ----------
enum Strategy { S_SYNCONLY = 0, S_RANDOM, S_PRIO, S_STARVE, S_RR, S_HOT, S_EXPLICIT, S_RACEPC, S_NSTRAT };
const char *strategy_name(int s);

struct RunCfg {
  std::vector<std::string> argv;
  int nthreads = 1;
  int strategy = S_SYNCONLY;
  u64 sched_seed = 1;
  u64 gap = 1000;                 // mean distance of preemptions, in memory accesses
  std::vector<Decision> explicit_sched;
  std::vector<u32> hot;           // S_RACEPC: program counters of accesses to delay
  u64 fill_seed = 1;              // contents of fresh memory and stacks
  u64 phys_pages = 4u << 20;      // what sysconf reports
  long page_size = 4096;
  u64 urandom_seed = 1;
  double clock0 = 1.5e9;
  size_t stdio_buf = 8192;
  u64 max_steps = 4000000000ull;
  double wall_limit = 120;
  int race = 1;
  std::vector<Fault> faults;
  std::map<std::string, std::string> env;
  // what to run inside the child; default is GLU's main
  int (*entry)(void *) = nullptr;
  void *entry_arg = nullptr;
  bool persist_statics = false;
};

void init();                              // once per process
Result *result();                         // shared result block of this process
Disk *disk();
void disk_clear();
VFile *disk_find(const char *name);
VFile *disk_put(const char *name, const void *data, size_t n);
bool disk_get(const char *name, std::string &out);
void disk_remove(const char *name);
std::map<std::string, std::string> disk_snapshot();
void disk_restore(const std::map<std::string, std::string> &);

// runs the program once in a forked child under the simulator
int run(const RunCfg &cfg);
std::string result_stdout();
std::string result_stderr();
u64 result_hash();                        // everything observable about the run
std::string symbolize(u64 pc);

u64 fnv(const void *p, size_t n, u64 h = 1469598103934665603ull);
inline u64 fnvs(const std::string &s, u64 h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }

} // namespace sim

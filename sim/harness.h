// Scenario plans, running the program under the simulator, verdicts.
#pragma once
#include "rt.h"
#include "model.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>

typedef std::string str;
using sim::Rng; using sim::u64;
typedef std::map<str, str> Files;

extern int NC_, ND_;          // of this build variant
extern bool HAVE_FFT_;
extern str VARIANT;

str fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
std::vector<str> split(const str &s, char c);

// An ordered key=value description of one simulated scenario: everything a run depends on.
struct Plan {
  std::map<str, str> kv;
  bool has(const str &k) const { return kv.count(k) > 0; }
  str get(const str &k, const str &d = "") const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
  long long num(const str &k, long long d = 0) const { auto i = kv.find(k); return i == kv.end() ? d : atoll(i->second.c_str()); }
  double dbl(const str &k, double d = 0) const { auto i = kv.find(k); return i == kv.end() ? d : atof(i->second.c_str()); }
  void set(const str &k, const str &v) { kv[k] = v; }
  void set(const str &k, long long v) { kv[k] = fmt("%lld", v); }
  void setd(const str &k, double v) { kv[k] = fmt("%.17g", v); }
  str text() const;
  static Plan parse(const str &t);
};
std::vector<int> plan_dims(const Plan &p);
std::vector<sim::Fault> plan_faults(const Plan &p, const str &key = "faults");
str faults_text(const std::vector<sim::Fault> &f);

// One program run: command line, files and environment.
struct Job {
  Files files;                 // disk before the run
  std::map<str, str> in;       // the input file's entries
  str in_text;                 // if not empty, the input file verbatim
  std::vector<str> argv;
  str out;                     // name of the requested output configuration, "" if none
  // schedule, environment and faults
  int nt = 1, strat = sim::S_SYNCONLY;
  u64 sseed = 1, gap = 1000;
  std::vector<sim::Decision> expl;
  u64 fill = 0;
  long mem = 0;                // thousandths of the gauge field's size; 0 = plenty
  size_t bufsz = 8192;
  double clock0 = 1.5e9;
  u64 urand = 1;
  u64 max_steps = 2500000000ull;
  std::vector<sim::Fault> faults;
  std::vector<sim::u32> hot;   // program counters at which to switch threads
  int race = 1;
  std::vector<int> dims;
};
struct RunOut {
  int status = 0, code = 0;
  str msg, site;
  str out, err;
  Files files;
  std::vector<std::pair<str, str>> races;      // function names
  std::vector<sim::u32> racepcs;
  std::vector<str> racetext;
  std::vector<sim::Decision> trace; bool trace_over = false;
  u64 hash = 0, sync_hash = 0, steps = 0, allocs = 0, opens_r = 0, opens_w = 0, dev_writes = 0, dev_reads = 0, clocks = 0, closes = 0, bytes = 0, regions = 0, switches = 0;
  u64 fired[sim::F_NKINDS] = {0};
  std::vector<sim::ASite> asites;          // allocations by origin
  double vtime = 0;
  int crash_file = 0;
  bool anyfired() const { for (auto f : fired) if (f) return true; return false; }
  bool exited() const { return status == sim::ST_EXIT; }
  bool ok() const { return status == sim::ST_EXIT && code == 0; }
  bool failed() const { return status == sim::ST_EXIT && code != 0; }
  bool abnormal() const { return status != sim::ST_EXIT && status != sim::ST_KILLED; }
  bool has(const str &f) const { return files.count(f) > 0; }
  const str &file(const str &f) const { static str e; auto i = files.find(f); return i == files.end() ? e : i->second; }
  str describe() const;
};

// the evaluation of one plan
struct Verdict {
  bool bad = false;
  str cls;        // stable name of what went wrong
  str site;       // program function(s) concerned, where one is known
  str detail;
};
struct Eval {
  Verdict v;
  u64 hash = 0;
  int runs = 0;
  u64 steps = 0; double vtime = 0;
  u64 fired[sim::F_NKINDS] = {0};
  std::set<u64> inter;              // interleaving classes
  std::map<str, long> probes;       // rare conditions reached
  std::map<str, long> statuses;
  u64 switches = 0, maxthreads = 0;
  bool nontrivial = false;
  str why_nontrivial;
  str variant_of;
  std::vector<sim::Decision> last_trace; bool trace_over = false;   // of the perturbed run
};

RunOut exec(const Job &j, Eval &e);
Files job_files(const Job &j);

// scenario building blocks
std::map<str, str> default_input(const std::vector<int> &dims);
str input_text(const std::map<str, str> &in);
// puts schedule, fill etc. of the plan into the job. ref: the quiet reference run with the same thread count
void apply_env(const Plan &p, Job &j, bool ref = false);
void gen_env(Plan &p, Rng &r, int maxthreads = 8);
bool gen_long_dims(Plan &p, Rng &r, int maxvol, bool even = false);
void gen_dims(Plan &p, Rng &r, int maxvol, bool even = false, int minside = 2);
model::Conf plan_conf(const Plan &p);
model::FileFmt plan_fmt(const Plan &p);
// the base job of the plan: input file entries "in.*", configuration file, output name
Job make_job(const Plan &p);

str strip_timing(const str &out);
// what differs between two runs' observable outcome ("" if nothing); ignores dates
str diff_runs(const RunOut &a, const RunOut &b, bool dates_differ = false, bool check_err = true);
str undate(const str &name, const str &bytes);
double number_after(const str &text, const str &key, int nth = 0);
std::vector<str> lines_with(const str &text, const str &key);
// compare two texts token by token: numbers to a tolerance, everything else exactly
str diff_text_tol(const str &a, const str &b, double rel, double abs_);
str first_diff(const str &a, const str &b);

void fail(Eval &e, const str &cls, const str &detail, const str &site = "");
// abnormal end of a run (crash, memory error, hang) as a violation
bool abnormal_bad(Eval &e, const RunOut &r, const str &what);

struct Prop {
  str id;
  std::function<Plan(u64 seed)> gen;
  std::function<void(const Plan &, Eval &)> check;
};
const std::vector<Prop> &props();
const Prop *find_prop(const str &id);

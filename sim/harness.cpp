#include "harness.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <algorithm>

int NC_ = 3, ND_ = 4; bool HAVE_FFT_ = true; str VARIANT = "nc3";

str fmt(const char *f, ...) {
  va_list ap; va_start(ap, f); char b[8192]; vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
}
std::vector<str> split(const str &s, char c) {
  std::vector<str> v; size_t p = 0;
  while (p <= s.size()) { size_t e = s.find(c, p); if (e == str::npos) e = s.size(); if (e > p) v.push_back(s.substr(p, e - p)); p = e + 1; }
  return v;
}
str Plan::text() const { str s; for (auto &p : kv) s += p.first + "=" + p.second + "\n"; return s; }
Plan Plan::parse(const str &t) {
  Plan p;
  for (auto &l : split(t, '\n')) { size_t e = l.find('='); if (e != str::npos && l[0] != '#') p.kv[l.substr(0, e)] = l.substr(e + 1); }
  return p;
}
std::vector<int> plan_dims(const Plan &p) { std::vector<int> d; for (auto &s : split(p.get("dims"), 'x')) d.push_back(atoi(s.c_str())); return d; }
std::vector<sim::Fault> plan_faults(const Plan &p, const str &key) {
  std::vector<sim::Fault> v;
  for (auto &s : split(p.get(key), ',')) { auto q = split(s, ':'); if (q.size() == 3) { sim::Fault f; f.kind = 0; for (int k = 1; k < sim::F_NKINDS; k++) if (q[0] == sim::fault_name(k)) f.kind = k; f.ordinal = strtoull(q[1].c_str(), 0, 10); f.arg = atoll(q[2].c_str()); v.push_back(f); } }
  return v;
}
str faults_text(const std::vector<sim::Fault> &f) {
  str s; for (auto &x : f) { if (!s.empty()) s += ","; s += fmt("%s:%llu:%lld", sim::fault_name(x.kind), (unsigned long long)x.ordinal, x.arg); } return s;
}

// ------------------------------------------------------------------ input
std::map<str, str> default_input(const std::vector<int> &dims) {
  std::map<str, str> m;
  m["MODE"] = "REWRITE"; m["HEADER"] = "NERSC";
  for (size_t i = 0; i < dims.size(); i++) m[fmt("DIM_%zu", i)] = fmt("%d", dims[i]);
  m["CONFNO"] = "7"; m["RANDOM_TRANSFORM"] = "NO"; m["SEED"] = "1234";
  m["GFTYPE"] = "LANDAU"; m["GF_TUNE"] = "0.09"; m["ACCURACY"] = "8"; m["MAX_ITERS"] = "60";
  m["CUTTYPE"] = "GLUON_PROPS"; m["FIELD_DEFINITION"] = "LINEAR"; m["MOM_CUT"] = "CYLINDER_CUT"; m["MAX_T"] = "3"; m["MAXMOM"] = "4";
  m["CYL_WIDTH"] = "2.0"; m["ANGLE"] = "60"; m["OUTPUT"] = "./";
  m["SMEARTYPE"] = "APE"; m["DIRECTION"] = "ALL"; m["SMITERS"] = "2"; m["ALPHA1"] = "0.6"; m["ALPHA2"] = "0.4"; m["ALPHA3"] = "0.2";
  m["U1_MEAS"] = "U1_RECTANGLE"; m["U1_ALPHA"] = "0.07957753876221914"; m["U1_CHARGE"] = "-1.0";
  m["CONFIG_INFO"] = "simulated"; m["STORAGE"] = "NERSC_NCxNC";
  m["BETA"] = "6.0"; m["ITERS"] = "6"; m["MEASURE"] = "1"; m["OVER_ITERS"] = "1"; m["SAVE"] = "2"; m["THERM"] = "1";
  return m;
}
str input_text(const std::map<str, str> &in) {
  // the usual order of the sample input file
  static const char *order[] = {"MODE", "HEADER", "DIM_0", "DIM_1", "DIM_2", "DIM_3", "CONFNO", "RANDOM_TRANSFORM", "SEED", "GFTYPE", "GF_TUNE", "ACCURACY",
    "MAX_ITERS", "CUTTYPE", "FIELD_DEFINITION", "MOM_CUT", "MAX_T", "MAXMOM", "CYL_WIDTH", "ANGLE", "OUTPUT", "SMEARTYPE", "DIRECTION", "SMITERS",
    "ALPHA1", "ALPHA2", "ALPHA3", "U1_MEAS", "U1_ALPHA", "U1_CHARGE", "CONFIG_INFO", "STORAGE", "BETA", "ITERS", "MEASURE", "OVER_ITERS", "SAVE", "THERM"};
  str s;
  for (auto k : order) { auto i = in.find(k); if (i != in.end()) s += str(k) + " = " + i->second + "\n"; }
  return s;
}
Files job_files(const Job &j) {
  Files f = j.files;
  f["in"] = j.in_text.empty() ? input_text(j.in) : j.in_text;
  return f;
}

// ------------------------------------------------------------------ running
RunOut exec(const Job &j, Eval &e) {
  sim::disk_restore(job_files(j));
  sim::RunCfg c;
  c.argv = j.argv;
  c.nthreads = j.nt; c.strategy = j.strat; c.sched_seed = j.sseed; c.gap = j.gap; c.explicit_sched = j.expl;
  c.fill_seed = j.fill; c.stdio_buf = j.bufsz; c.clock0 = j.clock0; c.urandom_seed = j.urand; c.max_steps = j.max_steps; c.faults = j.faults; c.hot = j.hot; c.race = j.race;
  if (j.mem > 0) {
    double vol = 1; for (int d : j.dims) vol *= d;
    double gauge = vol * (16.0 * NC_ * NC_ * ND_ + 4.0 * 2 * ND_);
    c.page_size = 256; c.phys_pages = (u64)ceil(gauge * j.mem / 1000.0 / 256.0);
  }
  sim::run(c);
  sim::Result *R = sim::result();
  RunOut o;
  o.status = R->status; o.code = R->code; o.msg = R->msg; if (R->pc) o.site = sim::symbolize(R->pc);
  o.out = sim::result_stdout(); o.err = sim::result_stderr();
  o.files = sim::disk_snapshot();
  for (sim::u32 i = 0; i < R->nrace; i++) {
    auto &r = R->race[i];
    str a = sim::symbolize(r.pc1), b = sim::symbolize(r.pc2); if (b < a) std::swap(a, b);
    bool dup = false; for (auto &q : o.races) if (q.first == a && q.second == b) dup = true;
    o.racepcs.push_back(r.pc1); o.racepcs.push_back(r.pc2);
    o.racetext.push_back(fmt("%s by thread %d in %s and %s by thread %d in %s", r.w1 ? "write" : "read", r.tid1, sim::symbolize(r.pc1).c_str(), r.w2 ? "write" : "read", r.tid2, sim::symbolize(r.pc2).c_str()));
    if (!dup) o.races.push_back({a, b});
  }
  o.trace.assign(R->trace, R->trace + R->ntrace); o.trace_over = R->trace_over;
  o.hash = sim::result_hash(); o.sync_hash = R->sync_hash; o.steps = R->steps; o.allocs = R->allocs; o.opens_r = R->opens_r; o.opens_w = R->opens_w;
  o.dev_writes = R->dev_writes; o.dev_reads = R->dev_reads; o.clocks = R->clock_reads; o.closes = R->closes_w; o.bytes = R->bytes_written; o.regions = R->regions; o.switches = R->switches;
  for (int k = 0; k < sim::F_NKINDS; k++) { o.fired[k] = R->fired[k]; e.fired[k] += R->fired[k]; }
  o.asites.assign(R->asite, R->asite + R->nasite);
  o.vtime = R->vtime; o.crash_file = R->crash_file;
  e.runs++; e.steps += o.steps; e.vtime += o.vtime; e.inter.insert(o.sync_hash); e.statuses[o.status == sim::ST_EXIT ? (o.code ? "exit-failure" : "exit-success") : sim::status_name(o.status)]++;
  e.switches += o.switches; if (R->max_threads > e.maxthreads) e.maxthreads = R->max_threads;
  e.hash = sim::fnv(&o.hash, 8, e.hash ? e.hash : 1469598103934665603ull);
  if (o.status == sim::ST_SIMFAIL) { fprintf(stderr, "SIMFAIL %s\n", o.msg.c_str()); }
  if (getenv("SIM_TRACE")) {
    if (R->pc) fprintf(stderr, "  at pc %llx addr %llx\n", (unsigned long long)R->pc, (unsigned long long)R->addr);
    for (sim::u32 i = 0; i < R->nrace; i++) fprintf(stderr, "  race pcs %x %x addr %llx\n", R->race[i].pc1, R->race[i].pc2, (unsigned long long)R->race[i].addr);
    fprintf(stderr, "---- run %d: nt %d %s sseed %llu gap %llu fill %llu mem %ld faults [%s] -> %s\n", e.runs, j.nt, sim::strategy_name(j.strat), (unsigned long long)j.sseed, (unsigned long long)j.gap, (unsigned long long)j.fill, j.mem, faults_text(j.faults).c_str(), o.describe().c_str());
    if (atoi(getenv("SIM_TRACE")) > 1) fprintf(stderr, "%s\n== stderr\n%s\n", o.out.c_str(), o.err.c_str());
    for (auto &t : o.racetext) fprintf(stderr, "  race: %s\n", t.c_str());
    if (getenv("SIM_DUMP")) for (auto &f : o.files) { FILE *w = fopen((str(getenv("SIM_DUMP")) + fmt("/run%d.", e.runs) + f.first.substr(f.first.rfind('/') + 1)).c_str(), "wb"); if (w) { fwrite(f.second.data(), 1, f.second.size(), w); fclose(w); } }
    for (auto &f : o.files) fprintf(stderr, "  file %s %zu bytes %016llx\n", f.first.c_str(), f.second.size(), (unsigned long long)sim::fnvs(f.second));
  }
  return o;
}
str RunOut::describe() const {
  str s = fmt("%s", sim::status_name(status));
  if (status == sim::ST_EXIT) s += fmt(" with code %d", code);
  else s += ": " + msg + (site.empty() ? "" : " in " + site);
  s += fmt(" (%llu steps, %llu switches, %llu allocs, %llu device writes, races %zu)", (unsigned long long)steps, (unsigned long long)switches, (unsigned long long)allocs, (unsigned long long)dev_writes, races.size());
  return s;
}

// ------------------------------------------------------------------ building blocks
void apply_env(const Plan &p, Job &j, bool ref) {
  j.dims = plan_dims(p);
  j.nt = (int)p.num("nt", 1);
  j.urand = p.num("urand", 1);
  if (ref) { j.strat = sim::S_SYNCONLY; j.sseed = 1; j.fill = 0; j.mem = p.num("refmem", 0); j.bufsz = 8192; j.faults.clear(); return; }
  j.strat = (int)p.num("strat"); j.sseed = p.num("sseed", 1); j.gap = p.num("gap", 1000); j.fill = p.num("fill"); j.mem = p.num("mem");
  j.bufsz = p.num("bufsz", 8192); j.clock0 = p.dbl("clock0", 1.5e9);
  j.faults = plan_faults(p);
  if (p.has("sched")) {
    j.strat = sim::S_EXPLICIT;
    for (auto &s : split(p.get("sched"), ',')) { auto q = split(s, ':'); if (q.size() == 2) j.expl.push_back({strtoull(q[0].c_str(), 0, 10), (sim::u32)atoi(q[1].c_str()), 0}); }
  }
}
void gen_env(Plan &p, Rng &r, int maxt) {
  static const int nts[] = {1, 2, 2, 3, 3, 4, 4, 4, 5, 6, 7, 8};
  int nt; do nt = nts[r.below(12)]; while (nt > maxt);
  static const int many[] = {9, 10, 11, 12, 13, 14, 16, 16};
  if (VARIANT == "nc3t16" && maxt > 7) nt = many[r.below(8)];
  p.set("nt", nt);
  static const int st[] = {sim::S_SYNCONLY, sim::S_RANDOM, sim::S_RANDOM, sim::S_PRIO, sim::S_PRIO, sim::S_STARVE, sim::S_RR, sim::S_HOT};
  p.set("strat", st[r.below(8)]);
  p.set("sseed", (long long)(1 + r.below(1u << 30)));
  static const int gaps[] = {60, 300, 1000, 5000, 20000, 100000};
  p.set("gap", gaps[r.below(6)]);
  p.set("fill", (long long)r.below(1000));
  static const int bs[] = {8192, 4096, 65536, 1024, 512, 128};
  p.set("bufsz", bs[r.below(6)]);
  p.set("clock0", (long long)(1400000000 + r.below(400000000)));
}
// one long direction, the others two sites wide (or one of them three)
bool gen_long_dims(Plan &p, Rng &r, int maxvol, bool even) {
  int w = 1; for (int i = 1; i < ND_; i++) w *= 2;
  int top = std::min(40, maxvol / w); if (top < 7) return false;
  int k = 7 + (int)r.below(top - 6), at = r.below(ND_), k3 = maxvol / (w / 2 * 3); if (even) k &= ~1;
  std::vector<int> d(ND_, 2); d[at] = k;
  if (r.chance(0.5) && !even && k3 >= 6) { d[at] = std::min(d[at], k3); d[(at + 1) % ND_] = 3; }
  str s; for (int x : d) s += (s.empty() ? "" : "x") + fmt("%d", x);
  p.set("dims", s); return true;
}
void gen_dims(Plan &p, Rng &r, int maxvol, bool even, int minside) {
  static const int ev[] = {2, 4, 2, 4, 4, 6, 8}, any[] = {2, 3, 4, 4, 5, 6, 2, 3, 8, 4, 7};
  if (r.chance(0.06) && minside <= 2 && gen_long_dims(p, r, maxvol, even)) return;
  for (;;) {
    std::vector<int> d; int v = 1;
    for (int i = 0; i < ND_; i++) { int k = even ? ev[r.below(7)] : any[r.below(11)]; if (k < minside) k = minside + (minside & 1 && even); d.push_back(k); v *= k; }
    if (v > maxvol || v < 12) continue;
    str s; for (int x : d) s += (s.empty() ? "" : "x") + fmt("%d", x);
    p.set("dims", s); return;
  }
}
model::Conf plan_conf(const Plan &p) {
  double rough = p.dbl("rough", 0.3);
  auto c = p.get("conf") == "unit" ? model::unit_conf(NC_, plan_dims(p)) : model::random_conf(NC_, plan_dims(p), p.num("cseed", 1), rough);
  return c;
}
model::FileFmt plan_fmt(const Plan &p) {
  model::FileFmt f; f.head = p.get("fmt.head", "NERSC"); f.kind = p.get("fmt.kind", "NCxNC"); f.dbl = p.num("fmt.dbl", 1); f.big = p.num("fmt.big", 1); f.flow = (int)p.num("fmt.flow", 7);
  return f;
}
Job make_job(const Plan &p) {
  Job j; j.dims = plan_dims(p);
  j.in = default_input(j.dims);
  for (auto &q : p.kv) if (q.first.compare(0, 3, "in.") == 0) { if (q.second == "<none>") j.in.erase(q.first.substr(3)); else j.in[q.first.substr(3)] = q.second; }
  if (!p.has("in.HEADER")) j.in["HEADER"] = p.get("fmt.head", "NERSC");
  str cn = p.get("confname", "conf"), key = cn.compare(0, 2, "./") ? cn : cn.substr(2);
  j.argv = {"GLU", "-i", "in", "-c", cn};
  if (p.num("out")) { j.out = p.get("outname", "out"); j.argv.push_back("-o"); j.argv.push_back(j.out); }
  str h = j.in["HEADER"];
  if (h != "UNIT" && h != "RANDOM" && h != "INSTANTON") { auto c = plan_conf(p); j.files[key] = model::encode(c, plan_fmt(p)); }
  return j;
}

// ------------------------------------------------------------------ comparing
str strip_timing(const str &out) {
  str r; size_t p = 0;
  while (p < out.size()) {
    size_t e = out.find('\n', p); if (e == str::npos) e = out.size();
    str l = out.substr(p, e - p); p = e + 1;
    size_t t = l.find("[TIMER]"); if (t != str::npos) l = l.substr(0, t) + "[TIMER]";
    r += l + "\n";
  }
  return r;
}
str undate(const str &name, const str &b) {
  str o = b;
  size_t p = 0;
  if (b.compare(0, 12, "BEGIN_HEADER") == 0) {
    for (const char *k : {"CREATION_DATE = "}) { p = o.find(k); if (p != str::npos) { size_t e = o.find('\n', p); o.replace(p, e - p, ""); } }
    return o;
  }
  for (const char *k : {"<date>"}) { p = o.find(k); if (p != str::npos && p < 4096) { size_t e = o.find("</date>", p); if (e != str::npos) o.replace(p, e - p, ""); } }
  // MILC: 64 bytes after the magic and the dimensions
  if (o.size() > 100) { uint32_t be = (uint8_t)o[0] << 24 | (uint8_t)o[1] << 16 | (uint8_t)o[2] << 8 | (uint8_t)o[3], le = (uint8_t)o[3] << 24 | (uint8_t)o[2] << 16 | (uint8_t)o[1] << 8 | (uint8_t)o[0];
    if (be == 20103 || be == 20104 || le == 20103 || le == 20104) for (int i = 0; i < 64; i++) o[4 + 4 * ND_ + i] = 0; }
  return o;
}
str first_diff(const str &a, const str &b) {
  auto la = split(a, '\n'), lb = split(b, '\n');
  for (size_t i = 0; i < std::max(la.size(), lb.size()); i++) {
    str x = i < la.size() ? la[i] : "<end>", y = i < lb.size() ? lb[i] : "<end>";
    if (x != y) return fmt("line %zu: \"%.160s\" against \"%.160s\"", i + 1, x.c_str(), y.c_str());
  }
  return "";
}
str diff_runs(const RunOut &a, const RunOut &b, bool dates, bool check_err) {
  if (a.status != b.status || a.code != b.code) return "outcome: " + a.describe() + " against " + b.describe();
  for (auto &f : a.files) {
    if (!b.has(f.first)) return "file " + f.first + " exists in one run only";
    const str &x = dates ? undate(f.first, f.second) : f.second, &y = dates ? undate(f.first, b.file(f.first)) : b.file(f.first);
    if (x != y) { size_t k = 0; while (k < x.size() && k < y.size() && x[k] == y[k]) k++; return fmt("file %s differs (%zu and %zu bytes, first at byte %zu)", f.first.c_str(), x.size(), y.size(), k); }
  }
  for (auto &f : b.files) if (!a.has(f.first)) return "file " + f.first + " exists in one run only";
  str d = first_diff(strip_timing(a.out), strip_timing(b.out));
  if (!d.empty()) return "standard output, " + d;
  if (check_err) { d = first_diff(a.err, b.err); if (!d.empty()) return "standard error, " + d; }
  return "";
}
double number_after(const str &t, const str &key, int nth) {
  size_t p = 0;
  for (int i = 0; i <= nth; i++) { p = t.find(key, p); if (p == str::npos) return NAN; p += key.size(); }
  return atof(t.c_str() + p);
}
std::vector<str> lines_with(const str &t, const str &key) { std::vector<str> v; for (auto &l : split(t, '\n')) if (l.find(key) != str::npos) v.push_back(l); return v; }
str diff_text_tol(const str &a, const str &b, double rel, double abs_) {
  auto tok = [](const str &s) { std::vector<str> v; str w; for (char c : s) { if (c == ' ' || c == '\n' || c == '\t' || c == '(' || c == ')' || c == ',' || c == ':' || c == '|') { if (!w.empty()) v.push_back(w); w.clear(); } else w += c; } if (!w.empty()) v.push_back(w); return v; };
  auto x = tok(a), y = tok(b);
  for (size_t i = 0; i < std::min(x.size(), y.size()); i++) {
    if (x[i] == y[i]) continue;
    char *e1, *e2; double u = strtod(x[i].c_str(), &e1), v = strtod(y[i].c_str(), &e2);
    if (!*e1 && !*e2 && e1 != x[i].c_str() && fabs(u - v) <= abs_ + rel * std::max(fabs(u), fabs(v))) continue;
    str ctx; for (size_t k = i > 4 ? i - 4 : 0; k < i; k++) ctx += x[k] + " ";
    return "after \"" + ctx + "\": " + x[i] + " against " + y[i];
  }
  if (x.size() != y.size()) return fmt("%zu against %zu values", x.size(), y.size());
  return "";
}
void fail(Eval &e, const str &cls, const str &detail, const str &site) {
  if (e.v.bad) return;
  e.v.bad = true; e.v.cls = cls; e.v.detail = detail; e.v.site = site;
}
bool abnormal_bad(Eval &e, const RunOut &r, const str &what) {
  if (!r.abnormal()) return false;
  if (r.status == sim::ST_SIMFAIL) { fail(e, "SIMFAIL", r.msg); return true; }
  fail(e, sim::status_name(r.status), what + ": " + r.describe(), r.site);
  return true;
}

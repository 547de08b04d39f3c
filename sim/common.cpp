#include "common.h"
#include <cmath>
#include <cstring>
Rng seed_rng(const char *id, u64 seed) { return Rng(sim::fnvs(str(id)) ^ (seed * 0x9e3779b97f4a7c15ull)); }
Plan start_plan(const char *id, u64 seed) { Plan p; p.set("prop", id); p.set("seed", (long long)seed); return p; }
void gen_mem(Plan &p, Rng &r, double pr) {
  if (!r.chance(pr)) return;
  static const int m[] = {1050, 1200, 1400, 1700, 1950, 2100, 2400, 2800, 3300, 4000, 5000, 6500, 9000};
  p.set("mem", m[r.below(13)]);
  // hypercubic smearing without temporaries is many times dearer
  if (NC_ > 3 && p.get("kind") == "smear" && p.get("in.SMEARTYPE").compare(0, 2, "HY") == 0) { gen_dims(p, r, 16, false, 2); if (p.num("in.SMITERS") > 1) p.set("in.SMITERS", 1); }
}
str last_lines(const str &s, int n) { auto v = split(s, '\n'); str o; for (size_t i = v.size() > (size_t)n ? v.size() - n : 0; i < v.size(); i++) o += v[i].substr(0, 200) + " / "; return o; }
bool nonempty(const str &s) { for (char c : s) if (!isspace((unsigned char)c)) return true; return false; }
void note_run(Eval &e, const RunOut &r) {
  if (r.switches > 0 && r.regions > 0) e.probes["threads-interleaved"]++;
  if (r.anyfired()) e.probes["fault-fired"]++;
  if (r.out.find("slow") != str::npos || r.out.find("memory cheap") != str::npos || r.out.find("slower") != str::npos) e.probes["slow-memory-path"]++;
  if (r.failed()) e.probes["exit-failure"]++;
  if (r.ok()) e.probes["exit-success"]++;
}
bool refused_memory(const RunOut &r) {
  if (!r.failed()) return false;
  return r.err.find("emory") != str::npos || r.err.find("llocat") != str::npos || r.out.find("emory") != str::npos || r.err.find("Cannot use either") != str::npos;
}
CmpOpt mem_opt() { CmpOpt o; o.skip = {"[IO] Using the", "memory", "Memory", "Total malloc", "Page size", "Page Size", "code used", "slow", "fast", "Fast", "Slow", "Running our", "Running the"}; return o; }
// the reasons for which a run on a valid input without faults may end in failure
str may_fail(const Plan &p, Job &j, const RunOut &r) {
  str kind = p.get("kind"), cut = j.in["CUTTYPE"];
  bool fft = VARIANT == "nc3nofft" || VARIANT == "nc4";
  if (fft && (kind == "u1" || (kind == "cut" && cut != "TOPOLOGICAL_MOMENTS"))) return "no Fourier transforms in this build";
  if (cut == "CONFIGSPACE_GLUONS" && p.num("in.MAX_T") > plan_dims(p).back()) return "a spacing longer than the lattice";
  if (kind == "cut" && cut == "NOTHING") return "nothing to do";
  if (cut == "NON_EXCEPTIONAL" && r.err.find("triplet") != str::npos) return "the list has no triplets";
  if (p.get("fmt.head") == "CERN" || j.in["STORAGE"] == "CERN") {
    bool odd = NC_ != 3 || ND_ != 4; for (int d : plan_dims(p)) odd |= d & 1;
    if (odd) return "CERN files are for even SU(3) lattices";
  }
  if (kind == "landau") {
    if (VARIANT == "nc3or" || p.get("conf") == "unit") return "no promise to converge";
    double ro = p.dbl("rough");
    return ro > 0 && ro <= 0.3 && p.num("in.ACCURACY") <= 8 && p.num("in.MAX_ITERS") >= 80 ? "" : "need not converge";
  }
  return "";
}
bool schedule_pair(const Plan &p, Eval &e, Pair &t, CmpOpt o, int ref_threads) {
  t.ja = make_job(p); apply_env(p, t.ja, true); if (ref_threads) t.ja.nt = ref_threads;
  t.jb = make_job(p); apply_env(p, t.jb, false);
  if (ref_threads && ref_threads != t.jb.nt) o.skip.push_back("[INIT] using");
  if (t.jb.mem || t.ja.mem) { auto m = mem_opt(); o.skip.insert(o.skip.end(), m.skip.begin(), m.skip.end()); }
  t.a = exec(t.ja, e); if (abnormal_bad(e, t.a, "reference run")) return false;
  t.b = exec(t.jb, e); e.last_trace = t.b.trace; e.trace_over = t.b.trace_over; note_run(e, t.b);
  if (abnormal_bad(e, t.b, "perturbed run")) return false;
  e.nontrivial = t.jb.nt > 1 && t.b.switches > 0;
  if (t.jb.mem && t.a.ok() && refused_memory(t.b)) { t.refused = true; e.probes["refused-for-memory"]++; return true; }
  if (!t.jb.mem && t.b.failed()) {   // no fault was injected and nothing was short: the run has to do its work
    str why = may_fail(p, t.jb, t.b);
    if (why.empty()) { fail(e, "run-fails", fmt("a complete and valid run without any fault ends in failure: ") + last_lines(t.b.err, 3)); return false; }
    e.probes["legitimate-failure"]++;
  }
  str d = diff_work(t.ja, t.a, t.b, o);
  if (!d.empty()) { fail(e, "differs", "reference and perturbed run differ: " + d); return false; }
  if (!t.b.races.empty() || !t.a.races.empty()) {
    e.probes["race-seen"]++;
    auto pcs = t.b.racepcs; pcs.insert(pcs.end(), t.a.racepcs.begin(), t.a.racepcs.end());
    str who = !t.b.races.empty() ? t.b.races[0].first : t.a.races[0].first;
    for (int k = 0; k < 4; k++) {
      Job j = t.jb; j.strat = sim::S_RACEPC; j.hot = pcs; j.sseed = 1000 + k + p.num("sseed"); j.expl.clear();
      RunOut r = exec(j, e);
      if (abnormal_bad(e, r, "race-directed run")) return false;
      if (j.mem && t.a.ok() && refused_memory(r)) continue;
      d = diff_work(t.ja, t.a, r, o);
      if (!d.empty()) { fail(e, "differs-by-race", "race-directed schedule changes the result: " + d + "; race: " + (t.b.racetext.empty() ? t.a.racetext[0] : t.b.racetext[0]), who); return false; }
    }
  }
  return true;
}
std::vector<sim::Fault> resolve_faults(const str &spec, const RunOut &pr) {
  std::vector<sim::Fault> v;
  Plan q; q.set("faults", spec);
  for (auto f : plan_faults(q)) {
    u64 n = 0;
    switch (f.kind) {
    case sim::F_OPEN_R: n = pr.opens_r; break;
    case sim::F_OPEN_W: n = pr.opens_w; break;
    case sim::F_WRITE_ERR: case sim::F_WRITE_SHORT: case sim::F_CRASH_WRITE: n = pr.dev_writes; break;
    case sim::F_READ_ERR: case sim::F_READ_SHORT: case sim::F_READ_EOF: n = pr.dev_reads; break;
    case sim::F_CLOSE_ERR: n = pr.closes; break;
    case sim::F_CRASH_STEP: n = pr.steps; break;
    case sim::F_ALLOC:   // arg 0: any allocation; 1..3: an origin, at its first, a middle or its last allocation
      if (f.arg && !pr.asites.empty()) { const sim::ASite &s = pr.asites[std::min(pr.asites.size() - 1, (size_t)(f.ordinal / 1000.0 * pr.asites.size()))]; f.ordinal = f.arg == 1 ? s.first : f.arg == 2 ? s.mid : s.last; f.arg = 0; v.push_back(f); continue; }
      n = pr.allocs; break;
    case sim::F_CLOCK_JUMP: n = pr.clocks; break;
    case sim::F_DISK_FULL: f.arg = (long long)(pr.bytes * (f.ordinal / 1000.0)); f.ordinal = 1; v.push_back(f); continue;
    }
    if (!n) continue;
    f.ordinal = 1 + (u64)((f.ordinal / 1000.0) * n); if (f.ordinal > n) f.ordinal = n;
    v.push_back(f);
  }
  return v;
}
str data_header_for(const str &s) { return s.compare(0, 5, "NERSC") == 0 ? "NERSC" : s == "ILDG" ? "ILDG_SCIDAC" : s; }
void reported_averages(const Plan &p, Eval &e, const RunOut &r, const model::Conf &c) {
  using model::cd; int T = c.nd - 1, n = c.nc; double sl = 0, tl = 0, mx = 0, sp = 0, tp = 0; int ns = 0, nt = 0;
  for (size_t s = 0; s < c.vol; s++) for (int m = 0; m <= T; m++) { cd t = 0; for (int i = 0; i < n; i++) t += c.link(s, m)[i * n + i]; (m == T ? tl : sl) += t.real() / n / c.vol; mx = std::max(mx, t.real() / n); }
  for (int m = 1; m <= T; m++) for (int k = 0; k < m; k++) { double x = model::plane_plaq(c, m, k); if (m == T) tp += x, nt++; else sp += x, ns++; }
  double link = (sl + tl) / c.nd, plaq = (sp + tp) / (ns + nt), tol = p.get("in.STORAGE") == "MILC" ? 1e-5 : 1e-9;
  auto see = [&](const char *line, const char *tag, double want) {
    auto l = lines_with(r.out, line); if (l.empty() || e.v.bad) return; size_t q = l.back().find(tag); if (q == str::npos) return;
    double g = atof(l.back().c_str() + q + strlen(tag)); e.probes["reported average"]++;
    if (!(fabs(g - want) < tol)) fail(e, "wrong-value", fmt("last reported \"%s\" is %.12g, the output has %.12g", tag, g, want));
  };
  see("[SMEAR] {Plaquette}", "{Plaquette} ", plaq); see("[SMEAR] {Plaquette}", "{Spatial} ", sp / ns); see("[SMEAR] {Plaquette}", "{Temporal} ", tp / nt);
  see("{Link trace}", "{Link trace} ", link);
  see("[GF] Plaquette :: ", "Plaquette :: ", plaq); see("|| Maximum :: ", "Link trace :: ", link); see("|| Maximum :: ", "Maximum :: ", mx);
  see("[GF] Functional :: ", "Functional :: ", 1 - link);
  see("[GF] Tlink ", "Tlink ", tl); see("[GF] Tlink ", "Slink ", sl / T); see("[GF] Tlink ", "|| Link ", link); see("[GF] Tlink ", "Plaq ", plaq);
  if (p.get("kind") == "coulomb") { see("[GF] Final Tlink :: ", "Tlink :: ", tl); see("[GF] Final Tlink :: ", "Slink :: ", sl / T); }
}
model::Conf translate(const model::Conf &c, const std::vector<int> &d) {
  model::Conf o = c; int x[8];
  for (size_t s = 0; s < c.vol; s++) { c.coord(s, x); for (int m = 0; m < c.nd; m++) x[m] = (x[m] + d[m]) % c.L[m]; size_t q = c.site(x); std::copy(c.link(s, 0), c.link(s, 0) + c.nd * c.nc * c.nc, o.link(q, 0)); }
  return o;
}
model::Conf swap_axes(const model::Conf &c, int a, int b) {
  std::vector<int> L = c.L; std::swap(L[a], L[b]);
  model::Conf o; o.alloc(c.nc, L); int x[8];
  for (size_t s = 0; s < c.vol; s++) {
    c.coord(s, x); std::swap(x[a], x[b]); size_t q = o.site(x);
    for (int m = 0; m < c.nd; m++) { int t = m == a ? b : m == b ? a : m; std::copy(c.link(s, m), c.link(s, m) + c.nc * c.nc, o.link(q, t)); }
  }
  return o;
}

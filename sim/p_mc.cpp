// C05-C07: Monte-Carlo trajectories, kill and restart, generator states
#include "common.h"
using model::Conf;

// common part of a trajectory: output names traj.<n>, counter starts at in the file's number or 0
static void gen_traj(Plan &p, Rng &r, bool small) {
  gen_kind(p, r, K_HEATBATH, small);
  static const char *cn[] = {"traj.start", "traj.start", "traj.start", "traj", "./traj.start", "runs/b5.7/traj.start", "../run.2/traj.start.nersc"};
  p.set("confname", cn[r.below(7)]); p.set("in.CONFIG_INFO", "simulated");
  if (p.has("in.HEADER")) { for (const char *k : {"fmt.head", "fmt.kind", "fmt.dbl", "fmt.big"}) p.kv.erase(k); }
  else p.set("fmt.flow", (long long)r.below(3));
  if (r.chance(0.15)) p.set("in.ITERS", (long long)(6 + r.below(5)));
  if (r.chance(0.1)) p.set("in.THERM", (long long)(14 + r.below(6)));
  gen_env(p, r);
}
// trajectory numbers of more digits
static void gen_start(Plan &p, Rng &r) {
  if (!p.has("fmt.flow") || p.has("in.HEADER") || !r.chance(0.35)) return;
  static const int s[] = {7, 8, 9, 15, 31, 97, 98, 99, 997, 12344, 999997}; long long b = s[r.below(11)];
  p.set("fmt.flow", b); p.set("in.ITERS", p.num("in.ITERS") + b);
}
// name up to the first dot of its last part
static str g_base;
static void set_base(const Plan &p) {
  str n = p.get("confname", "conf"); size_t b = n.rfind('/'); b = b == str::npos ? 0 : b + 1; while (b < n.size() && n[b] == '.') b++;
  g_base = n.substr(0, n.find('.', b)); if (g_base.compare(0, 2, "./") == 0) g_base = g_base.substr(2);   // the simulated disk drops it
}
static str traj(long long n) { return g_base + fmt(".%lld", n); }
// "[UPDATE] i :: {P} x" by trajectory number
static std::map<long long, double> history(const str &out) {
  std::map<long long, double> m;
  for (auto &l : lines_with(out, "{P}")) { long long i; double x; if (sscanf(l.c_str(), "[UPDATE] %lld :: {P} %lf", &i, &x) == 2) m[i] = x; }
  return m;
}
static long long start_of(const Plan &p) { return p.has("in.HEADER") ? 0 : p.num("fmt.flow"); }
// what a run from `start` that ended with success has to show
static bool check_traj(const Plan &p, Eval &e, const Job &j, const RunOut &r, long long start, const str &what) {
  long long it = p.num("in.ITERS"), me = p.num("in.MEASURE"), sv = p.num("in.SAVE");
  auto h = history(r.out);
  for (long long i = start; i < it; i++) {
    if ((i % me == 0) != (h.count(i) > 0)) { fail(e, "wrong-history", what + fmt(": trajectory %lld %s", i, h.count(i) ? "measured out of turn" : "not measured")); return false; }
    bool want = i % sv == 0 && i != start;
    if (want != r.has(traj(i)) && i != start) { fail(e, "wrong-saves", what + fmt(": configuration %s %s", traj(i).c_str(), want ? "is missing" : "was saved out of turn")); return false; }
    if (want && !r.has(traj(i) + ".rand")) { fail(e, "wrong-saves", what + fmt(": generator state %s.rand is missing", traj(i).c_str())); return false; }
  }
  for (auto &q : h) if (q.first < start || q.first >= it) { fail(e, "wrong-history", what + fmt(": trajectory %lld measured", q.first)); return false; }
  auto one = [&](const str &name, long long n) {
    model::Decoded d; str why;
    if (!decode_out(j, r, name, d, why)) { fail(e, "saved-malformed", what + ": " + name + ": " + why); return false; }
    double u = model::unitarity(d.c); if (!(u < 1e-9)) { fail(e, "not-unitary", what + fmt(": %s: %.3g", name.c_str(), u)); return false; }
    if (d.flow != n) { fail(e, "wrong-number", what + fmt(": %s carries trajectory number %d", name.c_str(), d.flow)); return false; }
    if (d.have_sum && !d.sum_ok) { fail(e, "stored-checksum-wrong", what + ": " + name + " " + d.sum_note); return false; }
    double pl = model::plaquette(d.c);
    if (d.have_plaq && !(fabs(pl - d.plaq) < 1e-9)) { fail(e, "stored-plaquette-wrong", what + fmt(": %s: %.15g in the header, %.15g in the links", name.c_str(), d.plaq, pl)); return false; }
    if (h.count(n) && !(fabs(pl - h[n]) < 1e-9)) { fail(e, "history-not-the-saved-field", what + fmt(": trajectory %lld reported %.12f, saved field has %.12f", n, h[n], pl)); return false; }
    return true;
  };
  for (long long i = start + 1; i < it; i++) if (i % sv == 0) if (!one(traj(i), i)) return false;
  if (!j.out.empty() && r.has(j.out) && !one(j.out, std::max(it, start))) return false;
  return true;
}
static bool started_new(const RunOut &r) { return r.err.find("NEW rng") != str::npos; }

// ------------------------------------------------------------------ C05
static Plan c05_gen(u64 seed) {
  Plan p = start_plan("C05", seed); Rng r = seed_rng("C05", seed);
  gen_traj(p, r, r.chance(0.4)); gen_start(p, r); gen_mem(p, r, 0.3);
  if (r.chance(0.2)) p.set("faults", fmt("clock_jump:%llu:%lld", (unsigned long long)(1 + r.below(20)), r.chance(0.5) ? 1000000ll : -1000000ll));
  return p;
}
static void c05_check(const Plan &p, Eval &e) {
  set_base(p);
  Pair t; CmpOpt o = mem_opt(); o.rel = 1e-9;
  if (!schedule_pair(p, e, t, o) || t.refused) return;
  if (t.a.failed()) return fail(e, "run-fails", last_lines(t.a.err));
  check_traj(p, e, t.jb, t.b, start_of(p), "heatbath");
  e.probes[fmt("threads-%d", t.jb.nt)]++;
  if (t.jb.nt > 1) e.nontrivial = true;
}

// ------------------------------------------------------------------ C06
static Plan c06_gen(u64 seed) {
  Plan p = start_plan("C06", seed); Rng r = seed_rng("C06", seed);
  gen_traj(p, r, true); p.set("out", (long long)r.below(2));
  p.set("in.ITERS", (long long)(4 + r.below(5))); p.set("in.SAVE", (long long)(1 + r.below(2))); gen_start(p, r);
  auto kill = [&] { return r.chance(0.5) ? fmt("crash_in_write:%llu:%llu", (unsigned long long)(200 + r.below(800)), (unsigned long long)r.below(1001)) : fmt("crash_at_step:%llu:0", (unsigned long long)(100 + r.below(900))); };
  p.set("wf", kill()); if (r.chance(0.4)) p.set("wf2", kill());
  p.set("strat2", (long long)r.below(5)); p.set("bufsz2", r.chance(0.5) ? 512 : 8192);
  return p;
}
// same trajectory file in both runs?
static str diff_saved(const RunOut &a, const RunOut &b, long long n) {
  str d = diff_conf_files("NERSC_NCxNC", a.file(traj(n)), b.file(traj(n)), 1e-9);
  if (!d.empty()) return traj(n) + ": " + d;
  if (a.file(traj(n) + ".rand") != b.file(traj(n) + ".rand")) return traj(n) + ".rand differs";
  return "";
}
static Job restart_job(const Plan &p, const Job &j0, const Files &disk, long long n) {
  Job j = j0; j.files.clear();
  for (auto &f : disk) {
    if (f.first == "in" || f.first == j0.out) continue;
    long long k; char c = 0;
    if (f.first.compare(0, g_base.size() + 1, g_base + ".") == 0 && sscanf(f.first.c_str() + g_base.size(), ".%lld%c", &k, &c) >= 1 && k > n) continue;   // the user clears what came after
    j.files[f.first] = f.second;
  }
  j.in["HEADER"] = "NERSC"; j.in["RANDOM_TRANSFORM"] = "NO"; j.in["THERM"] = "0";
  j.argv[4] = traj(n); j.faults.clear();
  return j;
}
// a continued run must repeat run A from trajectory n on
static bool check_continued(const Plan &p, Eval &e, const RunOut &a, const RunOut &c, const Job &j, long long n, const str &what) {
  long long it = p.num("in.ITERS"), me = p.num("in.MEASURE"), sv = p.num("in.SAVE");
  auto ha = history(a.out), hc = history(c.out);
  for (long long i = n; i < it; i++) if (i % me == 0) {
    if (!hc.count(i)) { fail(e, "continued-history-differs", what + fmt(": trajectory %lld is not measured", i)); return false; }
    if (!(fabs(ha[i] - hc[i]) < 1e-10)) { fail(e, "continued-history-differs", what + fmt(": trajectory %lld: %.12f against %.12f uninterrupted", i, hc[i], ha[i])); return false; }
  }
  for (long long i = n + 1; i < it; i++) if (i % sv == 0) {
    if (!c.has(traj(i)) || !c.has(traj(i) + ".rand")) { fail(e, "continued-save-missing", what + ": " + traj(i)); return false; }
    str d = diff_saved(a, c, i); if (!d.empty()) { fail(e, "continued-save-differs", what + ": " + d); return false; }
  }
  if (!j.out.empty() && (a.has(j.out) || c.has(j.out))) { str d = diff_conf_files("NERSC_NCxNC", a.file(j.out), c.file(j.out), 1e-9); if (!d.empty()) { fail(e, "continued-save-differs", what + ": final configuration: " + d); return false; } }
  return true;
}
static void c06_check(const Plan &p, Eval &e) {
  set_base(p);
  Job ja = make_job(p); apply_env(p, ja, true); RunOut a = exec(ja, e);
  if (abnormal_bad(e, a, "uninterrupted run")) return;
  if (a.failed()) return fail(e, "run-fails", last_lines(a.err));
  long long sv = p.num("in.SAVE"), it = p.num("in.ITERS"), start = start_of(p);
  Job j = make_job(p); apply_env(p, j, false); j.faults = resolve_faults(p.get("wf"), a);
  for (auto &f : plan_faults(p)) j.faults.push_back(f);
  str note = faults_text(j.faults); long long from = start; bool first = true; int kills = 0;
  for (int leg = 0; leg < 3; leg++) {
    RunOut b = exec(j, e); if (first) { e.last_trace = b.trace; e.trace_over = b.trace_over; } note_run(e, b);
    str what = fmt("leg %d, killed by [%s]", leg + 1, note.c_str());
    if (abnormal_bad(e, b, what)) return;
    if (b.failed()) return fail(e, "continuation-refused", what + ": " + last_lines(b.err));
    if (!first && started_new(b)) return fail(e, "complete-state-refused", what + ": " + last_lines(b.err));
    if (b.ok()) { e.probes[fmt("legs-%d", leg + 1)]++; check_continued(p, e, a, b, j, from, what); return; }
    kills++; e.nontrivial = true;
    // what reached the disk: complete files must be those of the uninterrupted run
    long long n = -1, torn = -1;
    for (long long i = start + 1; i < it; i++) if (i % sv == 0 && b.has(traj(i))) {
      str x = undate("", b.file(traj(i))), y = undate("", a.file(traj(i))); bool cc = x == y, rr = b.file(traj(i) + ".rand") == a.file(traj(i) + ".rand");
      if (!cc && b.file(traj(i)).size() >= a.file(traj(i)).size() && !diff_conf_files("NERSC_NCxNC", a.file(traj(i)), b.file(traj(i)), 1e-9).empty()) return fail(e, "saved-before-kill-differs", what + ": " + traj(i));
      if (!rr && b.has(traj(i) + ".rand") && b.file(traj(i) + ".rand").size() >= a.file(traj(i) + ".rand").size()) return fail(e, "saved-before-kill-differs", what + ": " + traj(i) + ".rand");
      if (cc && rr) n = i; else torn = i;
    }
    if (torn > 0) {
      // restarting from the partly written pair must not pass silently
      Job t = restart_job(p, ja, b.files, torn); apply_env(p, t, true); RunOut s = exec(t, e);
      if (abnormal_bad(e, s, what + ", restart from the partly written " + traj(torn))) return;
      bool tc = undate("", b.file(traj(torn))) != undate("", a.file(traj(torn)));
      e.probes[tc ? "torn-configuration" : b.has(traj(torn) + ".rand") ? "torn-state" : "state-missing"]++;
      if (tc && s.ok() && b.file(traj(torn)).size() < a.file(traj(torn)).size()) return fail(e, "torn-configuration-used", what + fmt(": restart from %s, %zu of %zu bytes, succeeded", traj(torn).c_str(), b.file(traj(torn)).size(), a.file(traj(torn)).size()));
      if (s.ok() && !started_new(s)) return fail(e, "torn-state-used", what + fmt(": restart from %s, state %zu of %zu bytes, succeeded without a warning", traj(torn).c_str(), b.file(traj(torn) + ".rand").size(), a.file(traj(torn) + ".rand").size()));
      if (s.failed() && !nonempty(s.err)) return fail(e, "silent-failure", what + ": restart from " + traj(torn));
    }
    if (n < 0 && first) { e.probes["killed-before-first-save"]++; return; }
    if (n < 0) n = from;
    e.probes["restarted"]++;
    Files disk = b.files; from = n; first = false;
    Job q = restart_job(p, ja, disk, n); apply_env(p, q, false);
    q.sseed += 77 * (leg + 1); if (q.strat != sim::S_EXPLICIT) q.strat = (int)p.num("strat2"); else { q.strat = sim::S_SYNCONLY; q.expl.clear(); }
    q.bufsz = p.num("bufsz2", 8192); q.faults.clear();
    if (leg == 0 && p.has("wf2")) { Eval e2; Job pr = q; pr.strat = sim::S_SYNCONLY; RunOut z = exec(pr, e2); e.runs++; q.faults = resolve_faults(p.get("wf2"), z); }
    note = faults_text(q.faults); j = q;
  }
  fail(e, "SIMFAIL", "still killed after the last leg");
}

// ------------------------------------------------------------------ C07
static Plan c07_gen(u64 seed) {
  Plan p = start_plan("C07", seed); Rng r = seed_rng("C07", seed);
  gen_traj(p, r, true); p.set("out", 0ll);
  p.set("in.ITERS", (long long)(3 + r.below(4))); p.set("in.SAVE", 1); p.set("in.MEASURE", 1); gen_start(p, r);
  static const char *k[] = {"none", "none", "none", "trunc", "trunc", "trunc", "missing", "empty", "generator", "table", "threads", "threads", "nothreads", "noend", "readfault", "readfault", "writefault", "writefault", "stale"};
  p.set("mut", k[r.below(19)]); p.set("mut.at", (long long)r.below(1000000)); p.set("mut.k", (long long)r.below(8));
  p.set("pick", (long long)r.below(100)); p.set("strat2", (long long)r.below(5)); p.set("fill2", (long long)r.below(1000)); p.set("bufsz2", r.chance(0.5) ? 256 : 8192);
  return p;
}
static void c07_check(const Plan &p, Eval &e) {
  set_base(p);
  Job ja = make_job(p); apply_env(p, ja, false); RunOut a = exec(ja, e);
  if (abnormal_bad(e, a, "first run")) return;
  if (a.failed()) return fail(e, "run-fails", last_lines(a.err));
  long long it = p.num("in.ITERS"), start = start_of(p); str mu = p.get("mut");
  if (start + 1 >= it) { e.probes["nothing-saved"]++; return; }
  long long n = start + 1 + p.num("pick") % (it - start - 1);
  e.probes["state-" + mu]++; e.nontrivial = true;
  if (mu == "writefault") {
    // make the save of the states fail: the count of device writes is known from the first run
    Job j = ja; static const int fk[] = {sim::F_WRITE_ERR, sim::F_WRITE_SHORT, sim::F_OPEN_W, sim::F_CLOSE_ERR, sim::F_DISK_FULL}; sim::Fault f; int kd = fk[p.num("mut.k") % 5];
    j.faults = resolve_faults(fmt("%s:%lld:%lld", sim::fault_name(kd), p.num("mut.at") / 1000, kd == sim::F_WRITE_SHORT ? 300 : kd == sim::F_DISK_FULL ? 0 : 28), a);
    RunOut b = exec(j, e); note_run(e, b); e.last_trace = b.trace; e.trace_over = b.trace_over; str what = "saving with [" + faults_text(j.faults) + "]";
    if (abnormal_bad(e, b, what)) return;
    if (b.failed() && !nonempty(b.err)) return fail(e, "silent-failure", what);
    if (b.ok() && kd != sim::F_WRITE_SHORT) {
      for (long long i = start + 1; i < it; i++) if (b.file(traj(i) + ".rand") != a.file(traj(i) + ".rand")) return fail(e, "incomplete-state-claimed", what + ": exit success but " + traj(i) + ".rand is not complete");
    }
    if (b.ok()) for (long long i = start + 1; i < it; i++) { str d = diff_saved(a, b, i); if (!d.empty()) return fail(e, "incomplete-state-claimed", what + ": exit success but " + d); }
    // whatever was left behind must not be used silently
    for (long long i = it - 1; i > start; i--) if (b.has(traj(i)) && undate("", b.file(traj(i))) == undate("", a.file(traj(i))) && b.file(traj(i) + ".rand") != a.file(traj(i) + ".rand")) {
      Job q = restart_job(p, ja, b.files, i); apply_env(p, q, true); q.files.erase("out"); RunOut s = exec(q, e);
      if (abnormal_bad(e, s, what + ", restart from " + traj(i))) return;
      if (s.ok() && !started_new(s)) return fail(e, "bad-state-used", what + ": restart from " + traj(i) + fmt(" with %zu of %zu bytes succeeded without a warning", b.file(traj(i) + ".rand").size(), a.file(traj(i) + ".rand").size()));
      break;
    }
    return;
  }
  Job j = restart_job(p, ja, a.files, n); apply_env(p, j, false);
  j.sseed += 99; if (j.strat != sim::S_EXPLICIT) j.strat = (int)p.num("strat2"); else { j.strat = sim::S_SYNCONLY; j.expl.clear(); } j.fill = p.num("fill2"); j.bufsz = p.num("bufsz2");
  str &s = j.files[traj(n) + ".rand"]; size_t full = s.size(); str note = mu; bool benign = mu == "none";
  size_t body = s.find("END_HEADER"); if (body == str::npos) return fail(e, "state-malformed", "no header in the saved state"); body = s.find('\n', body) + 1;
  auto repl = [&](const char *key, const str &val) { size_t q = s.find(key); if (q == str::npos) return false; size_t z = s.find('\n', q); s.replace(q, z - q, str(key) + val); return true; };
  if (mu == "trunc") { size_t cut = p.num("mut.k") == 0 ? p.num("mut.at") % body : p.num("mut.k") == 1 ? full - 1 - p.num("mut.at") % 40 : body + (size_t)(p.num("mut.at") / 1e6 * (full - body)); if (cut >= full) cut = full - 1; s.resize(cut); note = fmt("cut to %zu of %zu bytes", cut, full); }
  else if (mu == "missing") j.files.erase(traj(n) + ".rand");
  else if (mu == "empty") s.clear();
  else if (mu == "generator") {
    static const char *g[] = {" = PAR_KISS", " = PAR_MWC_4096", " = PAR_XOR_1024", " = PAR_MWC_1038", " = PAR_WELL_512"};
    str was = s.substr(s.find("RNG = ") + 3); was = was.substr(0, was.find('\n')); str nw = g[p.num("mut.k") % 5]; if (nw == was) nw = g[(p.num("mut.k") + 1) % 5];
    size_t q = s.find("RNG = "); s.replace(q, was.size() + 3, "RNG" + nw); note = "state says RNG" + nw;
  }
  else if (mu == "table") { repl("RNG_TABLE", fmt(" = %lld", 1 + p.num("mut.at") % 5000)); benign = false; e.probes["table-size"]++; return; }
  else if (mu == "threads") { int nt2 = 1 + p.num("mut.at") % 8; if (nt2 == j.nt) nt2 = j.nt % 8 + 1; note = fmt("state for %d threads, run with %d", j.nt, nt2); j.nt = nt2; j.strat = j.strat == sim::S_EXPLICIT ? sim::S_SYNCONLY : j.strat; }
  else if (mu == "nothreads") { size_t q = s.find("NTHREADS"); size_t z = s.find('\n', q); s.erase(q, z - q + 1); }
  else if (mu == "noend") { size_t q = s.find("END_HEADER"); s.erase(q, 11); }
  else if (mu == "stale") { if (n - 1 > start) { s = a.file(traj(n - 1) + ".rand"); } e.probes["stale-state"]++; return; }
  else if (mu == "readfault") {
    Eval e2; RunOut pr = exec(j, e2); e.runs++;
    static const char *k[] = {"read_error", "early_eof", "open_read_fails", "short_read"}; const char *kd = k[p.num("mut.k") % 4];
    j.faults = resolve_faults(fmt("%s:%lld:5", kd, p.num("mut.at") / 1000), pr); note = faults_text(j.faults); benign = p.num("mut.k") % 4 == 3;
  }
  RunOut c = exec(j, e); note_run(e, c); e.last_trace = c.trace; e.trace_over = c.trace_over; str what = "continuing " + traj(n) + ", state " + note;
  if (abnormal_bad(e, c, what)) return;
  if (c.failed()) {
    if (!nonempty(c.err)) return fail(e, "silent-failure", what);
    if (benign) return fail(e, "complete-state-refused", what + ": " + last_lines(c.err));
    e.probes["state-refused"]++; return;
  }
  if (started_new(c)) {
    if (benign) return fail(e, "complete-state-refused", what + ": " + last_lines(c.err));
    e.probes["state-replaced-with-warning"]++; return;
  }
  if (mu == "missing" || mu == "empty" || mu == "threads" || mu == "generator" || mu == "trunc") return fail(e, "bad-state-used", what + ": continued without a warning");
  check_continued(p, e, a, c, j, n, what);
}

void add_mc(PropList &L) {
  L.push_back({"C05", c05_gen, c05_check});
  L.push_back({"C06", c06_gen, c06_check});
  L.push_back({"C07", c07_gen, c07_check});
}

// C01 round trip, C02 damaged files, C03 failing saves, C04 no overwriting, C13 measurement files
#include "common.h"
#include <set>
#include <cstring>
using model::Conf;

static str pick_storage(Rng &r) {
  static const char *s[] = {"NERSC_NCxNC", "NERSC_GAUGE", "MILC", "SCIDAC", "ILDG", "HIREP", "CERN"};
  return s[r.below(7)];
}
static bool needs_even(const Plan &p) { return p.get("fmt.head") == "CERN" || p.get("in.STORAGE") == "CERN"; }
static void fix_cern(Plan &p, Rng &r) {
  if (ND_ != 4 || NC_ != 3) { if (p.get("fmt.head") == "CERN") { p.set("fmt.head", "NERSC"); p.set("fmt.kind", "NCxNC"); p.set("fmt.dbl", 1); p.set("fmt.big", 1); } if (p.get("in.STORAGE") == "CERN") p.set("in.STORAGE", "NERSC_NCxNC"); }
  if (needs_even(p)) gen_dims(p, r, 256, true);
}
static double storage_eps(const str &st) { return st == "MILC" ? 2e-6 : 1e-11; }

// an output configuration describes itself correctly
static bool check_self(Eval &e, const str &name, const model::Decoded &d, double eps) {
  if (d.have_sum && !d.sum_ok) { fail(e, "stored-checksum-wrong", name + ": " + d.sum_note); return false; }
  if (d.c.u.empty()) return true;
  double pl = model::plaquette(d.c), tr = model::linktrace(d.c);
  if (d.have_plaq && !(fabs(d.plaq - pl) <= 1e-10 + eps)) { fail(e, "stored-plaquette-wrong", fmt("%s stores plaquette %.15g, its links have %.15g", name.c_str(), d.plaq, pl)); return false; }
  if (d.have_trace && !(fabs(d.trace - tr) <= 1e-10 + eps)) { fail(e, "stored-trace-wrong", fmt("%s stores link trace %.15g, its links have %.15g", name.c_str(), d.trace, tr)); return false; }
  double u = model::unitarity(d.c);
  if (!(u <= 10 * eps + 1e-10)) { fail(e, "not-unitary", fmt("%s holds links off SU(%d) by %.3g", name.c_str(), NC_, u)); return false; }
  return true;
}

// ------------------------------------------------------------------ C01
static Plan c01_gen(u64 seed) {
  Rng r = seed_rng("C01", seed); Plan p = start_plan("C01", seed);
  gen_kind(p, r, r.chance(0.85) ? K_REWRITE : K_GENERATE);
  p.set("in.STORAGE", NC_ <= 3 && r.chance(0.08) ? "NERSC_SMALL" : pick_storage(r));
  if (p.get("in.STORAGE") == "NERSC_SMALL") p.setd("rough", 0.3 + 0.2 * r.uni());
  fix_cern(p, r); gen_names(p, r);
  gen_env(p, r); gen_mem(p, r, 0.45);
  int n = r.below(4); str f;
  for (int i = 0; i < n; i++) f += fmt("%sshort_read:%llu:%llu", f.empty() ? "" : ",", (unsigned long long)(1 + r.below(40)), (unsigned long long)(1 + r.below(999)));
  if (n) p.set("faults", f);
  p.set("strat2", (long long)r.below(5)); p.set("mem2", r.chance(0.4) ? 1050 + (long long)r.below(2000) : 0);
  return p;
}
static void c01_check(const Plan &p, Eval &e) {
  Job j = make_job(p); apply_env(p, j);
  RunOut a = exec(j, e); e.last_trace = a.trace; e.trace_over = a.trace_over; note_run(e, a);
  if (abnormal_bad(e, a, "writing run")) return;
  str st = j.in["STORAGE"]; bool small = st == "NERSC_SMALL"; bool gen = p.get("kind") == "generate";
  e.probes["format-" + p.get("fmt.head") + "-to-" + st]++;
  if (a.failed()) { if (j.mem && refused_memory(a)) { e.probes["refused-for-memory"]++; if (claims_written(a)) fail(e, "claim-after-refusal", last_lines(a.out)); return; } return fail(e, "rejected", "rewriting a sound configuration failed: " + last_lines(a.err)); }
  if (!claims_written(a)) return fail(e, "no-claim", "exit success without saying that the configuration was written");
  model::Decoded d; str why;
  if (!decode_out(j, a, j.out, d, why)) return fail(e, "output-malformed", st + ": " + why);
  double eps = std::max(gen ? 1e-11 : eps_for(p), storage_eps(st));
  if (d.c.L != j.dims && !small) return fail(e, "output-dimensions", st);
  if (!check_self(e, j.out, d, eps)) return;
  Conf c0; bool rt = p.get("in.RANDOM_TRANSFORM") == "YES";
  if (!gen) {
    c0 = plan_conf(p);
    if (!small) {
      double m = rt ? model::loops_diff(c0, d.c) : model::max_diff(c0, d.c);
      if (!(m <= (rt ? 60 : 3) * eps)) return fail(e, rt ? "loops-changed" : "links-changed", fmt("%s to %s: output differs from the input by %.3g", p.get("fmt.head").c_str(), st.c_str(), m));
    }
  } else if (p.get("in.HEADER") == "UNIT" && !rt && !small) {
    if (!(model::max_diff(model::unit_conf(NC_, j.dims), d.c) <= 1e-14)) return fail(e, "unit-field-wrong", st);
  }
  // header number
  if (d.flow >= 0 && !small) { str ih = p.get("in.HEADER"); long want = ih == "UNIT" || ih == "RANDOM" ? 0 : !gen && p.get("fmt.head") == "NERSC" ? 7 : p.num("in.CONFNO"); if (d.flow != want) return fail(e, "sequence-number", fmt("output carries %d, input %ld", d.flow, want)); }
  // and back
  Job k; k.dims = j.dims; k.in = j.in; k.in["HEADER"] = data_header_for(st); k.in["STORAGE"] = "NERSC_NCxNC"; k.in["RANDOM_TRANSFORM"] = "NO";
  k.argv = {"GLU", "-i", "in", "-c", "conf", "-o", "back"}; k.files["conf"] = a.file(j.out); k.out = "back";
  k.nt = 1 + (int)(p.num("sseed") % 5); k.strat = p.num("strat2"); k.sseed = p.num("sseed") + 5; k.gap = p.num("gap"); k.fill = p.num("fill") + 1; k.mem = p.num("mem2"); k.bufsz = p.num("bufsz");
  RunOut b = exec(k, e); if (abnormal_bad(e, b, "reading back")) return;
  if (b.failed()) { if (k.mem && refused_memory(b)) return; return fail(e, "own-output-rejected", st + " output is rejected on reading: " + last_lines(b.err)); }
  if (b.err.find("nequal") != str::npos || b.err.find("ismatch") != str::npos) return fail(e, "own-output-mismatch", st + " output is reported as mismatching: " + last_lines(b.err));
  model::Decoded q; if (!decode_out(k, b, "back", q, why)) return fail(e, "output-malformed", "NERSC_NCxNC: " + why);
  if (!check_self(e, "back", q, eps)) return;
  if (!small) { double m = model::max_diff(d.c, q.c); if (!(m <= 3 * eps)) return fail(e, "links-changed", fmt("reading %s back differs from what was written by %.3g", st.c_str(), m)); }
  else if (!gen && !rt) { double m = model::max_diff(c0, q.c); if (!(m <= 1e-6 + eps)) return fail(e, "links-changed", fmt("%s round trip changes links by %.3g", st.c_str(), m)); }
  e.nontrivial = (j.nt > 1 && a.switches > 0) || a.anyfired();
}

// ------------------------------------------------------------------ C02
static Plan c02_gen(u64 seed) {
  Rng r = seed_rng("C02", seed); Plan p = start_plan("C02", seed);
  gen_kind(p, r, K_REWRITE, true); p.set("in.RANDOM_TRANSFORM", "NO"); p.set("in.STORAGE", "NERSC_NCxNC"); fix_cern(p, r); gen_large(p, r, K_REWRITE, 0.012);
  gen_env(p, r); gen_mem(p, r, 0.4);
  static const char *k[] = {"none", "trunc", "trunc", "flip", "flip", "flip", "zero", "swap", "dup", "number", "checks", "checks", "io", "io", "nan", "scale"};
  str d = k[r.below(16)]; p.set("dmg", d);
  p.set("dmg.pos", (long long)r.below(1000000)); p.set("dmg.len", (long long)r.below(1000000)); p.set("dmg.n", (long long)(1 + r.below(4))); p.set("dmg.bit", (long long)r.below(64)); p.set("dmg.where", (long long)r.below(10));
  if (d == "io") { static const char *f[] = {"read_error", "early_eof", "open_read_fails"}; p.set("wf", fmt("%s:%llu:%d", f[r.below(3)], (unsigned long long)r.below(1000), 5)); }
  return p;
}
// what a reader that is right sees in the file's link data
static bool links_of(const str &head, const str &kind, bool dbl, bool big, const str &b, const std::vector<int> &dims, Conf &c) {
  str st = head == "NERSC" ? "NERSC_NCxNC" : head == "ILDG_SCIDAC" ? "ILDG" : head;
  model::Decoded d; str why;
  if (!model::decode(b, st, NC_, ND_, d, why)) return false;
  c = d.c; return c.L == dims && !c.u.empty();
}
static void c02_check(const Plan &p, Eval &e) {
  Job j = make_job(p); apply_env(p, j);
  Conf c = plan_conf(p); model::FileFmt ff = plan_fmt(p); model::Layout L;
  str good = model::encode(c, ff, &L), bad = good; str dm = p.get("dmg");
  size_t w = ff.dbl ? 8 : 4, nw = L.datan / w;
  auto at = [&](size_t n) { return (size_t)(p.num("dmg.pos") % 1000000 / 1e6 * n); };
  bool must_reject = false, must_accept = dm == "none"; bool cut_data = false; bool io = dm == "io";
  bool sumfmt = ff.head == "MILC" || ff.head == "SCIDAC" || ff.head == "ILDG_SCIDAC" || ff.head == "ILDG_BQCD";
  bool plfmt = ff.head == "HIREP" || ff.head == "CERN";
  bool data_changed = false, checks_changed = false, maybe_rebuilt = false; double others = 0; str note = dm;
  if (dm == "trunc") {
    size_t n = at(good.size()); if (p.num("dmg.where") == 0) n = L.data0 + L.datan - 1 - p.num("dmg.len") % std::min<size_t>(L.datan, 64);
    if (p.num("dmg.where") == 1) n = L.data0 + at(L.datan) / w * w;
    if (p.num("dmg.where") == 2 && sumfmt && L.sums0 > L.data0) n = L.sums0 + at(L.sumsn);
    bad.resize(n); cut_data = n < L.data0 + L.datan;
    bool tail = sumfmt && L.sums0 > L.data0;      // the check follows the data
    if (cut_data) must_reject = true;
    else if (tail && n < L.sums0 + 150) must_reject = true;   // no stored check at all
    note = fmt("cut to %zu of %zu bytes", n, good.size());
  } else if (dm == "flip" || dm == "zero" || dm == "swap" || dm == "dup" || dm == "nan" || dm == "scale") {
    int n = p.num("dmg.n"); size_t len = w * (1 + p.num("dmg.len") % (p.num("dmg.where") < 5 ? 18 : std::max<size_t>(1, nw / 3)));
    size_t o = L.data0 + at(L.datan) / w * w; if (o + len > L.data0 + L.datan) len = L.data0 + L.datan - o;
    if (dm == "flip") { Rng q(p.num("dmg.pos") * 77 + p.num("dmg.bit")); for (int i = 0; i < n; i++) { size_t z = i ? L.data0 + q.below(L.datan) : o + q.below(w); bad[z] ^= 1 << (i ? q.below(8) : p.num("dmg.bit") % 8); } }
    if (dm == "zero") memset(&bad[o], 0, len);
    if (dm == "swap" || dm == "dup") { size_t o2 = L.data0 + (size_t)(p.num("dmg.len") / 1e6 * L.datan) / w * w; len = std::min(len, (size_t)(L.data0 + L.datan - std::max(o, o2))); str x = good.substr(o, len), y = good.substr(o2, len); bad.replace(o2, len, x); if (dm == "swap" && (o + len <= o2 || o2 + len <= o)) bad.replace(o, len, y); }
    if (dm == "nan") memset(&bad[o], 0xff, w);
    if (dm == "scale") { // make one real number somewhat different
      bool be = ff.head == "CERN" ? false : ff.head == "NERSC" || ff.head == "MILC" ? ff.big : true; unsigned char t[8]; for (size_t i = 0; i < w; i++) t[i] = bad[o + (be ? w - 1 - i : i)];
      if (w == 8) { double v; memcpy(&v, t, 8); v = v * (1 + 0.3) + 0.05; memcpy(t, &v, 8); } else { float v; memcpy(&v, t, 4); v = v * 1.3f + 0.05f; memcpy(t, &v, 4); }
      for (size_t i = 0; i < w; i++) bad[o + (be ? w - 1 - i : i)] = t[i];
    }
    data_changed = bad != good; note = fmt("%s in the link data", dm.c_str());
    if (!data_changed) must_accept = true;
  } else if (dm == "checks" || dm == "number") {
    // change digits of the stored checks
    if (L.sumsn == 0) must_accept = true;
    else if (ff.head == "LIME" || ff.head == "JLQCD") note = "no stored check is used";
    else if (ff.head == "MILC") { bad[L.sums0 + p.num("dmg.bit") % 4] ^= 1 << (p.num("dmg.n") % 8); must_reject = true; note = "stored MILC checksum changed"; }
    else if (plfmt) {
      bool be = ff.head == "HIREP"; unsigned char t[8]; for (int i = 0; i < 8; i++) t[i] = bad[L.sums0 + (be ? 7 - i : i)];
      double v; memcpy(&v, t, 8); static const double dv[] = {1e-10, 1e-8, 1e-5, 0.01, 1, -1e-9, -0.3, NAN, INFINITY, 1e300}; v += dv[p.num("dmg.where")]; memcpy(t, &v, 8); for (int i = 0; i < 8; i++) bad[L.sums0 + (be ? 7 - i : i)] = t[i];
      must_reject = true; note = fmt("stored plaquette changed by %g", dv[p.num("dmg.where")]);
    } else if (ff.head == "NERSC") {
      int which = p.num("dmg.where") % 8; // which of the three to change
      auto chg = [&](const char *key, int how) { size_t q = bad.find(str(key) + " = ") + strlen(key) + 3; str &s = bad; if (how == 0) { s[q] = s[q] == '1' ? '2' : '1'; } else { size_t dot = s.find('.', q); s[dot + 3] = s[dot + 3] == '5' ? '6' : '5'; } };
      if (which & 1) chg("CHECKSUM", 0);
      if (which & 2) chg("LINK_TRACE", 1);
      if (which & 4) chg("PLAQUETTE", 1);
      checks_changed = which != 0; if (which == 7) must_reject = true; if (!which) must_accept = true;
      note = fmt("stored checks changed, mask %d", which);
    } else {
      const char *key = ff.head == "ILDG_BQCD" ? (p.num("dmg.where") % 2 ? "bqcd-cksum" : "bqcd-plaquette") : "<suma>"; size_t q = bad.find(key, L.sums0);
      if (q == str::npos) return fail(e, "SIMFAIL", "no check record");
      if (ff.head == "ILDG_BQCD") { q += 128; if (key[5] == 'p') { q = bad.find('.', q); bad[q + 2] = bad[q + 2] == '5' ? '7' : '5'; } else bad[q] = bad[q] == '1' ? '2' : '1'; }
      else { q += 6; bad[q] = bad[q] == '1' ? '2' : '1'; }
      must_reject = true; note = str("stored ") + key + " changed";
    }
  }
  if (data_changed) {
    if (sumfmt) {
      // any change of the data shows in these checks unless it happens to have the same value; recompute
      model::Conf z = c; bool same = false;
      if (ff.head == "ILDG_BQCD") same = model::posix_cksum(&bad[L.data0], L.datan) == model::posix_cksum(&good[L.data0], L.datan);
      else {
        model::Decoded d; str why, st = ff.head == "ILDG_SCIDAC" ? "ILDG" : ff.head;
        if (!model::decode(bad, st, NC_, ND_, d, why)) return fail(e, "SIMFAIL", "model cannot read the damaged file: " + why);
        same = d.first_ok;   // the reader compares the first of the two sums, by design
      }
      if (!same) must_reject = true; else e.probes["damage-with-equal-checksum"]++;
    } else if (plfmt || ff.head == "NERSC") {
      Conf z; if (!links_of(ff.head, ff.kind, ff.dbl, ff.big, bad, j.dims, z)) return fail(e, "SIMFAIL", "model cannot read the damaged file");
      bool reun = ff.head == "HIREP" || !ff.dbl; bool nan = false;
      auto wild = [&](const std::complex<double> &x) { return reun ? !(fabs(x.real()) < 1e100 && fabs(x.imag()) < 1e100) : !std::isfinite(x.real()) || !std::isfinite(x.imag()); };   // its square is not a number any more
      for (auto &x : z.u) if (wild(x)) nan = true;
      bool soft = false;   // a non-number in the last row or column only: a reader may rebuild that from the others
      if (reun && nan) {
        bool hard = false;
        for (size_t k = 0; k < z.u.size(); k++) if (wild(z.u[k])) { int el = k % (NC_ * NC_); if (el / NC_ < NC_ - 1 && el % NC_ < NC_ - 1) hard = true; }
        soft = !hard;
      }
      Conf z0 = z, zc = z;   // unitarised by rows and by columns: which one is the reader's choice
      bool nr = false, nc = false;
      if (reun && !nan) for (size_t s = 0; s < z.vol; s++) for (int m = 0; m < z.nd; m++) {
        model::reunit(NC_, z.link(s, m)); model::reunit_cols(NC_, zc.link(s, m));
        for (int k = 0; k < NC_ * NC_; k++) { if (!std::isfinite(z.link(s, m)[k].real()) || !std::isfinite(z.link(s, m)[k].imag())) nr = true; if (!std::isfinite(zc.link(s, m)[k].real()) || !std::isfinite(zc.link(s, m)[k].imag())) nc = true; }
      }
      if (nr && nc) nan = true; else if (nr) z = zc; else if (nc) zc = z;
      double pl = model::plaquette(z), tr = model::linktrace(z), p0 = model::plaquette(c), t0 = model::linktrace(c);
      if (std::isnan(pl)) nan = true;
      double dp = std::min(fabs(pl - p0), fabs(model::plaquette(zc) - p0)), dt = std::min(fabs(tr - t0), fabs(model::linktrace(zc) - t0));
      if (soft) { maybe_rebuilt = true; nan = false; dp = dt = 0; for (size_t k = 0; k < z0.u.size(); k++) if (!wild(z0.u[k])) others = std::max(others, std::abs(z0.u[k] - c.u[k])); }   // the other links as damaged
      if (plfmt) { if (nan || dp > 1e-10) must_reject = true; }
      else {
        model::Decoded d; str why; model::decode(bad, "NERSC_NCxNC", NC_, ND_, d, why);
        bool s = !d.sum_ok; if (s) checks_changed = true;
        bool pbad = std::isnan(pl) || dp > 4e-6, tbad = std::isnan(tr) || dt > 4e-6;
        if (std::isnan(tr) && ff.kind == "GAUGE") {   // a row that is rebuilt may or may not spread it to the real part of the trace
          bool direct = false;
          for (size_t k = 0; k < z.u.size(); k++) { int el = k % (NC_ * NC_); if (el / NC_ == el % NC_ && el / NC_ < NC_ - 1 && std::isnan(z.u[k].real())) direct = true; }
          if (!direct) tbad = false;
        }
        if ((nan && reun) || soft) pbad = tbad = false;   // where the non-numbers end up is the reader's business
        if (s && pbad && tbad) must_reject = true;
      }
    }
  }
  j.files["conf"] = bad;
  if (io) {
    Job q = j; q.faults.clear(); RunOut pr = exec(q, e); if (abnormal_bad(e, pr, "probe run")) return;
    if (pr.failed()) { if (j.mem && refused_memory(pr)) return; return fail(e, "sound-file-rejected", last_lines(pr.err)); }
    j.faults = resolve_faults(p.get("wf"), pr); note = faults_text(j.faults);
  }
  RunOut a = exec(j, e); e.last_trace = a.trace; e.trace_over = a.trace_over; note_run(e, a);
  if (abnormal_bad(e, a, "reading " + ff.head + ", " + note)) return;
  e.probes["damage-" + dm]++; e.probes[str("damaged-format-") + ff.head]++;
  e.nontrivial = dm != "none" || j.nt > 1;
  if (a.ok()) {
    if (must_reject) return fail(e, "damage-accepted", ff.head + (ff.dbl ? " double" : " single") + ": " + note + ": accepted with exit success; stderr: " + last_lines(a.err));
    if (io || dm == "trunc" || dm == "none" || (maybe_rebuilt && plfmt)) {
      model::Decoded d; str why; if (!decode_out(j, a, "out", d, why)) return fail(e, "output-malformed", why);
      double m = model::max_diff(c, d.c); if (!(m <= 3 * eps_for(p) + 10 * others)) return fail(e, "damage-accepted", ff.head + ": " + note + fmt(": exit success but the links differ from the file's by %.3g", m));
    }
    if (checks_changed && ff.head == "NERSC" && a.err.find("nequal") == str::npos) return fail(e, "damage-unreported", "NERSC: " + note + ": nothing on standard error");
    if (a.err.find("nequal") != str::npos && must_accept) return fail(e, "sound-file-reported", last_lines(a.err));
  } else {
    if (j.mem && refused_memory(a)) { e.probes["refused-for-memory"]++; return; }
    if (must_accept) return fail(e, "sound-file-rejected", ff.head + ": " + note + ": " + last_lines(a.err));
    if (!nonempty(a.err)) return fail(e, "silent-failure", ff.head + ": " + note + ": exit failure without a message on standard error");
    if (a.has("out")) return fail(e, "output-after-failure", ff.head + ": " + note + ": rejected but an output configuration was left");
    if (claims_written(a)) return fail(e, "claim-after-failure", note);
    e.probes["rejected"]++;
  }
  if (dm != "none" && a.file("conf") != bad) return fail(e, "input-modified", "the configuration file was changed by reading it");
}

// ------------------------------------------------------------------ C03
static void gen_write_fault(Plan &p, Rng &r, bool crash_ok = false) {
  static const char *k[] = {"open_write_fails", "write_error", "write_error", "short_write", "short_write", "disk_full", "disk_full", "close_error", "alloc_fails"};
  int n = r.chance(0.85) ? 1 : 2; str f;
  static const int en[] = {28, 5, 122, 13};
  for (int i = 0; i < n; i++) { str q = k[r.below(9)]; unsigned fr = r.chance(0.15) ? 999 : r.chance(0.1) ? 0 : r.below(1000); f += fmt("%s%s:%u:%d", f.empty() ? "" : ",", q.c_str(), fr, q == "short_write" ? (int)r.below(1000) : en[r.below(4)]); }
  p.set("wf", f);
}
static Plan c03_gen(u64 seed) {
  Rng r = seed_rng("C03", seed); Plan p = start_plan("C03", seed);
  double u = r.uni();
  int k = u < 0.5 ? K_REWRITE : u < 0.6 ? K_GENERATE : u < 0.75 ? K_HEATBATH : u < 0.82 ? K_LANDAU : u < 0.92 ? K_SMEAR : HAVE_FFT_ ? K_U1 : K_SMEAR;
  gen_kind(p, r, k, true);
  if (k == K_HEATBATH) { p.set("in.ITERS", (long long)(3 + r.below(4))); p.set("in.SAVE", (long long)(1 + r.below(2))); p.set("in.CONFNO", 0ll); p.set("fmt.flow", 0ll); p.set("in.THERM", (long long)r.below(2)); if (r.chance(0.6)) p.set("in.STORAGE", pick_storage(r)); }
  else p.set("in.STORAGE", NC_ <= 3 && r.chance(0.1) ? "NERSC_SMALL" : pick_storage(r));
  if (k == K_LANDAU) { p.setd("rough", 0.1); p.set("in.ACCURACY", 4); p.set("in.MAX_ITERS", 120); }
  fix_cern(p, r); gen_env(p, r); gen_mem(p, r, 0.35); gen_write_fault(p, r);
  return p;
}
static bool is_save_name(const str &n) { return n == "out" || n.compare(0, 5, "traj.") == 0; }
static void c03_check(const Plan &p, Eval &e) {
  Job q = make_job(p); apply_env(p, q); q.faults.clear(); if (p.get("kind") == "heatbath") q.dims = plan_dims(p);
  Job j = q;
  RunOut g = exec(q, e); if (abnormal_bad(e, g, "fault-free run")) return;
  if (g.failed()) { e.probes["fault-free-run-fails"]++; if (claims_written(g)) return fail(e, "claim-with-failure", last_lines(g.err)); return; }
  // any claimed file must be there and complete in the fault-free run too
  model::Decoded d; str why;
  for (auto &f : g.files) if (is_save_name(f.first) && !j.files.count(f.first) && f.first.find(".rand") == str::npos) { if (!model::decode(f.second, j.in["STORAGE"], NC_, ND_, d, why)) return fail(e, "output-malformed", f.first + ": " + why); if (d.have_sum && !d.sum_ok) return fail(e, "stored-checksum-wrong", f.first); }
  j.faults = resolve_faults(p.get("wf"), g);
  RunOut a = exec(j, e); e.last_trace = a.trace; e.trace_over = a.trace_over; note_run(e, a);
  str note = faults_text(j.faults);
  if (abnormal_bad(e, a, "with " + note)) return;
  u64 hit = a.fired[sim::F_OPEN_W] + a.fired[sim::F_WRITE_ERR] + a.fired[sim::F_WRITE_SHORT] + a.fired[sim::F_DISK_FULL] + a.fired[sim::F_CLOSE_ERR];
  e.nontrivial = hit > 0 || a.fired[sim::F_ALLOC] > 0;
  if (hit && a.ok()) return fail(e, "failed-save-is-success", note + ": exit success although the save failed");
  if (a.failed() && !nonempty(a.err)) return fail(e, "silent-failure", note + ": exit failure without a message on standard error");
  // every claim must be true
  std::set<str> claimed;
  for (auto &l : lines_with(a.out, "[IO] Configuration written to ")) {
    str n = l.substr(l.find("written to ") + 11); while (!n.empty() && isspace((unsigned char)n.back())) n.pop_back();
    if (!a.has(n)) return fail(e, "false-claim", note + ": " + n + " is claimed but does not exist");
    // a failed earlier save skips the reunitarisation that a save does, which changes all later trajectories: those must only be sound
    bool same_so_far = true;
    if (p.get("kind") == "heatbath") for (auto &f : g.files) if (is_save_name(f.first) && !j.files.count(f.first) && f.first.find(".rand") == str::npos && atoi(f.first.c_str() + 5) < atoi(n.c_str() + 5) && !claimed.count(f.first)) same_so_far = false;
    claimed.insert(n);
    if (!same_so_far) {
      if (!model::decode(a.file(n), j.in["STORAGE"], NC_, ND_, d, why) || (d.have_sum && !d.sum_ok)) return fail(e, "false-claim", note + ": " + n + " is claimed but is not a sound configuration " + why);
      if (!d.c.u.empty() && !(model::unitarity(d.c) < 1e-5)) return fail(e, "false-claim", note + ": " + n + " is claimed but its links are not unitary");
      continue;
    }
    if (undate("", a.file(n)) != undate("", g.file(n))) { str dd = diff_conf_files(j.in["STORAGE"], g.file(n), a.file(n), 1e-9); if (!dd.empty()) return fail(e, "false-claim", note + ": " + n + " is claimed but is not the configuration: " + dd); }
  }
  if (a.ok()) for (auto &f : g.files) if (is_save_name(f.first)) {
    if (!a.has(f.first)) return fail(e, "missing-save", note + ": exit success without " + f.first);
    if (f.first.find(".rand") != str::npos ? f.second != a.file(f.first) : !diff_conf_files(j.in["STORAGE"], f.second, a.file(f.first), 1e-9).empty()) return fail(e, "wrong-save", note + ": exit success with a wrong " + f.first);
  }
  if (hit) e.probes["save-failed-and-reported"]++;
}

// ------------------------------------------------------------------ C04
static Plan c04_gen(u64 seed) {
  Rng r = seed_rng("C04", seed); Plan p = start_plan("C04", seed);
  int k = pick_kind(r); if (k == K_CUT || (!HAVE_FFT_ && k == K_U1)) k = K_REWRITE; if (r.chance(0.3)) k = K_HEATBATH;
  gen_kind(p, r, k, true);
  if (k == K_HEATBATH) { p.set("in.ITERS", (long long)(3 + r.below(4))); p.set("in.SAVE", (long long)(1 + r.below(2))); p.set("in.CONFNO", 0ll); p.set("fmt.flow", 0ll); if (r.chance(0.5)) p.set("in.STORAGE", pick_storage(r)); }
  else p.set("in.STORAGE", pick_storage(r));
  if (k == K_LANDAU) { p.setd("rough", 0.1); p.set("in.ACCURACY", 4); p.set("in.MAX_ITERS", 120); }
  p.set("out", k == K_HEATBATH ? 0 : 1);
  fix_cern(p, r); gen_env(p, r); gen_mem(p, r, 0.2);
  static const char *pe[] = {"empty", "byte", "small", "large", "conf", "line"}; p.set("pre", pe[r.below(6)]); p.set("preseed", (long long)r.below(1000));
  p.set("same", k != K_HEATBATH && k != K_GENERATE && r.chance(0.15));   // the output name is the input configuration itself
  if (r.chance(0.5)) { static const char *f[] = {"open_read_fails", "open_read_fails", "open_read_fails", "read_error", "early_eof", "close_error", "write_error", "open_write_fails", "alloc_fails"}; str q = f[r.below(9)]; p.set("wf", fmt("%s:%llu:%d", q.c_str(), (unsigned long long)r.below(1000), q == "open_read_fails" ? (r.chance(0.5) ? 24 : 13) : 5)); }
  return p;
}
static void c04_check(const Plan &p, Eval &e) {
  Job j = make_job(p); apply_env(p, j); bool hb = p.get("kind") == "heatbath";
  Rng r(p.num("preseed") + 7); str pre, k = p.get("pre");
  if (k == "byte") pre = "x"; if (k == "small") for (int i = 0; i < 37; i++) pre += (char)r.below(256); if (k == "large") for (int i = 0; i < 150000; i++) pre += (char)r.below(256);
  if (k == "conf") { model::FileFmt pf; pf.head = "NERSC"; pf.kind = "NCxNC"; pf.dbl = pf.big = true; pre = model::encode(plan_conf(p), pf); } if (k == "line") pre = "BEGIN_HEADER\n";
  std::vector<str> guarded; int itn = (int)p.num("in.ITERS"), sv = (int)p.num("in.SAVE", 1);
  if (p.num("same")) { j.argv[6] = p.get("confname", "conf"); }
  else if (hb) { // some of the trajectories exist already
    for (int i = sv; i < itn; i += sv) if (r.chance(0.6)) { str n = fmt("traj.%d", i); j.files[n] = pre; if (r.chance(0.7)) j.files[n + ".rand"] = "BEGIN_HEADER\nold state\n"; guarded.push_back(n); }
  } else { j.files["out"] = pre; guarded.push_back("out"); }
  Files before = job_files(j);
  if (p.has("wf")) { Job q = j; q.faults.clear(); RunOut g = exec(q, e); if (abnormal_bad(e, g, "fault-free run")) return; j.faults = resolve_faults(p.get("wf"), g); }
  RunOut a = exec(j, e); e.last_trace = a.trace; e.trace_over = a.trace_over; note_run(e, a);
  str note = fmt("%s, existing %s file, faults [%s]", p.get("kind").c_str(), k.c_str(), faults_text(j.faults).c_str());
  if (abnormal_bad(e, a, note)) return;
  for (auto &f : before) {
    if (!a.has(f.first)) return fail(e, "file-removed", note + ": " + f.first + " is gone");
    if (a.file(f.first) != f.second) return fail(e, "file-overwritten", note + ": " + f.first + fmt(" changed from %zu to %zu bytes", f.second.size(), a.file(f.first).size()));
  }
  e.nontrivial = !guarded.empty() || p.num("same");
  if (guarded.empty() && !p.num("same")) return;
  e.probes["existing-" + k]++;
  if (a.ok()) return fail(e, "refusal-is-success", note + ": exit success although the output existed");
  if (!nonempty(a.err)) return fail(e, "silent-failure", note + ": no message on standard error");
  if (a.fired[sim::F_OPEN_R] == 0 && !p.has("wf") && a.err.find("overwrite") == str::npos && !(j.mem && refused_memory(a))) {
    bool early = p.get("kind") == "landau" || p.get("kind") == "coulomb" || p.get("kind") == "coulomb-residual" || p.get("kind") == "mag";
    if (!early) return fail(e, "no-overwrite-message", note + ": " + last_lines(a.err));
  }
  for (auto &n : guarded) if (a.out.find("written to " + n + " ") != str::npos) return fail(e, "false-claim", note);
}

// ------------------------------------------------------------------ C13
static Plan c13_gen(u64 seed) {
  Rng r = seed_rng("C13", seed); Plan p = start_plan("C13", seed);
  gen_kind(p, r, K_CUT, true);
  gen_env(p, r); if (r.chance(0.85)) gen_write_fault(p, r);
  if (r.chance(0.2)) p.set("preexisting", 1);
  return p;
}
static void c13_check(const Plan &p, Eval &e) {
  Job q = make_job(p); apply_env(p, q); q.faults.clear();
  RunOut g = exec(q, e); if (abnormal_bad(e, g, "fault-free run")) return;
  str cut = p.get("in.CUTTYPE"); e.probes["cut-" + cut]++;
  if (g.failed()) { e.probes["fault-free-run-fails"]++; if (!nonempty(g.err)) return fail(e, "silent-failure", cut + ": exit failure without a message"); return; }
  std::vector<str> made; for (auto &f : g.files) if (!q.files.count(f.first) && f.first != "in") made.push_back(f.first);
  for (auto &n : made) if (g.file(n).empty()) return fail(e, "empty-measurement", cut + ": " + n + " is empty after exit success");
  if (made.empty() && cut.compare(0, 11, "TOPOLOGICAL") == 0 && p.num("in.MAX_T") < 2) { e.probes["no-measurement-asked"]++; return; }
  if (made.empty()) return fail(e, "no-measurement", cut + ": exit success without an output file");
  Job j = q;
  if (p.num("preexisting")) for (auto &n : made) j.files[n] = str(g.file(n).size() + 64, '?');
  if (p.has("wf")) j.faults = resolve_faults(p.get("wf"), g);
  RunOut a = exec(j, e); e.last_trace = a.trace; e.trace_over = a.trace_over; note_run(e, a);
  str note = cut + " with [" + faults_text(j.faults) + "]";
  if (abnormal_bad(e, a, note)) return;
  u64 hit = a.fired[sim::F_OPEN_W] + a.fired[sim::F_WRITE_ERR] + a.fired[sim::F_WRITE_SHORT] + a.fired[sim::F_DISK_FULL] + a.fired[sim::F_CLOSE_ERR];
  e.nontrivial = hit > 0 || a.fired[sim::F_ALLOC] > 0 || p.num("preexisting");
  if (hit && a.ok()) return fail(e, "failed-write-is-success", note + ": exit success although the file could not be written");
  if (a.failed() && !nonempty(a.err)) return fail(e, "silent-failure", note + ": exit failure without a message on standard error");
  if (a.ok()) for (auto &n : made) {
    if (!a.has(n)) return fail(e, "missing-measurement", note + ": exit success without " + n);
    str d = diff_bin(g.file(n), a.file(n), 1e-8, 1e-11); if (!d.empty()) return fail(e, "wrong-measurement", note + ": " + n + ": " + d);
  }
  if (hit) e.probes["failure-reported"]++;
}
void add_io(PropList &P) {
  P.push_back({"C01", c01_gen, c01_check}); P.push_back({"C02", c02_gen, c02_check}); P.push_back({"C03", c03_gen, c03_check}); P.push_back({"C04", c04_gen, c04_check}); P.push_back({"C13", c13_gen, c13_check});
}

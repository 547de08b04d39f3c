// C14-C17, C19, C20: properties of every mode
#include "common.h"
#include <cstring>
#include <cmath>
using model::Conf;

static void gen_any(Plan &p, Rng &r, bool small) {
  int k; do { k = pick_kind(r); } while (k == K_U1 && !HAVE_FFT_);
  gen_kind(p, r, k, small); gen_names(p, r); gen_env(p, r);
}
static const int IOKINDS[] = {sim::F_OPEN_R, sim::F_OPEN_W, sim::F_WRITE_ERR, sim::F_WRITE_SHORT, sim::F_DISK_FULL, sim::F_READ_ERR, sim::F_READ_SHORT, sim::F_READ_EOF, sim::F_CLOSE_ERR};
static str gen_io_fault(Rng &r) {
  int k = IOKINDS[r.below(9)];
  return fmt("%s:%llu:%d", sim::fault_name(k), (unsigned long long)r.below(1000), k == sim::F_WRITE_SHORT ? 300 : k == sim::F_WRITE_ERR || k == sim::F_CLOSE_ERR ? 28 : k == sim::F_DISK_FULL ? 0 : 5);
}
static str gen_alloc_fault(Rng &r) { int how = r.below(10); return fmt("alloc_fails:%llu:%d", (unsigned long long)r.below(1000), how < 3 ? 0 : how < 6 ? 1 : how < 8 ? 2 : 3); }
// does b say something on standard error which a does not?
static bool says_more(const RunOut &a, const RunOut &b) {
  std::multiset<str> have; for (auto &l : split(a.err, '\n')) have.insert(l);
  for (auto &l : split(b.err, '\n')) { auto i = have.find(l); if (i != have.end()) have.erase(i); else if (nonempty(l)) return true; }
  return false;
}
// files of b which the successful run a left in another form
static str diff_left(const Job &j, const RunOut &a, const RunOut &b, const CmpOpt &o) {
  RunOut x = a, y = b; x.out = y.out = ""; x.err = y.err = "";
  for (auto i = x.files.begin(); i != x.files.end();) if (!y.has(i->first)) i = x.files.erase(i); else ++i;
  y.status = x.status; y.code = x.code;
  return diff_work(j, x, y, o);
}

// ------------------------------------------------------------------ C14
static Plan c14_gen(u64 seed) {
  Plan p = start_plan("C14", seed); Rng r = seed_rng("C14", seed);
  gen_any(p, r, true); gen_mem(p, r, 0.25);
  if (p.get("kind") == "rewrite" || r.chance(0.15)) { if (!p.has("in.HEADER")) gen_infmt(p, r, true); }
  str f = gen_alloc_fault(r); if (r.chance(0.1)) f += "," + gen_alloc_fault(r);
  p.set("wf", f);
  return p;
}
static void c14_check(const Plan &p, Eval &e) {
  Job ja = make_job(p); apply_env(p, ja, false); ja.faults.clear(); RunOut a = exec(ja, e);
  if (abnormal_bad(e, a, "run without faults")) return;
  Job jb = make_job(p); apply_env(p, jb, false);
  auto f = resolve_faults(p.get("wf"), a); jb.faults.insert(jb.faults.end(), f.begin(), f.end());
  RunOut b = exec(jb, e); e.last_trace = b.trace; e.trace_over = b.trace_over; note_run(e, b);
  str what = "with [" + faults_text(jb.faults) + "]";
  e.probes["kind-" + p.get("kind")]++;
  if (b.fired[sim::F_ALLOC]) e.nontrivial = true;
  if (abnormal_bad(e, b, what)) return;
  CmpOpt o = mem_opt(); o.err = false;
  if (b.ok()) {
    if (!a.ok()) return fail(e, "success-instead-of-failure", what);
    str d = diff_work(ja, a, b, o);
    if (!d.empty()) {
      // it may say that it did without something
      CmpOpt q = o; q.out = !says_more(a, b); d = diff_work(ja, a, b, q);
      if (!d.empty()) return fail(e, "differs", what + " the run ends with success, but " + d);
    }
    e.probes["coped"]++;
    return;
  }
  if (!b.failed()) return;
  if (!says_more(a, b) && !(a.failed() && nonempty(b.err))) return fail(e, "silent-failure", what + " the run fails without saying so on standard error; standard output ends " + last_lines(b.out));
  if (claims_written(b)) { str d = diff_conf_files(jb.in.at("STORAGE"), a.file(jb.out), b.file(jb.out), 1e-9); if (!d.empty()) return fail(e, "wrong-configuration-left", what + " " + d); }
  e.probes["reported"]++;
}

// ------------------------------------------------------------------ C15
// the choices with a documented default, and what the default is called
struct Choice { const char *key, *dflt; std::vector<str> names; };
static const std::vector<Choice> CHOICES = {
  {"MODE", "REWRITE", {"GAUGE_FIXING", "CUTTING", "SMEARING", "SUNCxU1", "HEATBATH", "REWRITE"}},
  {"RANDOM_TRANSFORM", "NO", {"YES", "NO"}},
  {"MOM_CUT", "SPHERICAL_CUT", {"HYPERCUBIC_CUT", "SPHERICAL_CUT", "CYLINDER_CUT", "CONICAL_CUT"}},
  {"FIELD_DEFINITION", "LINEAR", {"LINEAR", "LOGARITHMIC"}},
  {"CUTTYPE", "NOTHING", {"EXCEPTIONAL", "NON_EXCEPTIONAL", "FIELDS", "SMEARED_GLUONS", "INSTANTANEOUS_GLUONS", "CONFIGSPACE_GLUONS", "GLUON_PROPS", "STATIC_POTENTIAL", "TOPOLOGICAL_CORRELATOR", "TOPOLOGICAL_SUSCEPTIBILITY", "TOPOLOGICAL_MOMENTS"}},
  {"SMEARTYPE", "NOTHING", {"APE", "STOUT", "LOG", "HYP", "HEX", "HYL", "WFLOW_LOG", "WFLOW_STOUT", "ADAPTWFLOW_LOG", "ADAPTWFLOW_STOUT"}},
  {"DIRECTION", "ALL", {"SPATIAL", "ALL"}},
  {"GFTYPE", "NOTHING", {"AXIALT", "COULOMB", "COULOMB_RESIDUAL", "LANDAU", "MAG"}},
  {"U1_MEAS", "U1_PLAQUETTE", {"U1_RECTANGLE", "U1_TOPOLOGICAL", "U1_PLAQUETTE"}},
};
static const std::vector<str> HEADERS = {"NERSC", "HIREP", "CERN", "MILC", "SCIDAC", "LIME", "ILDG_SCIDAC", "ILDG_BQCD", "JLQCD", "RANDOM", "UNIT", "INSTANTON"};
static const std::vector<str> STORAGES = {"NERSC_SMALL", "NERSC_GAUGE", "NERSC_NCxNC", "HIREP", "MILC", "SCIDAC", "ILDG", "CERN"};
// a name which nearly is one of the list
static str near_name(const std::vector<str> &names, Rng &r) {
  for (;;) {
    str s = names[r.below(names.size())];
    switch (r.below(9)) {
    case 0: s += "X"; break; case 1: s.pop_back(); break; case 2: for (auto &c : s) c = tolower(c); break; case 3: s = "X" + s; break; case 4: s += "_"; break;
    case 5: s += names[r.below(names.size())]; break; case 6: s.resize(1 + r.below(s.size())); break; case 7: s[r.below(s.size())] ^= 1; break; case 8: s.erase(r.below(s.size()), 1); break;
    }
    bool ok = !s.empty(); for (auto &n : names) if (n == s) ok = false; for (char c : s) if (c <= ' ' || c == '=' || c > 'z') ok = false;
    if (ok) return s;
  }
}
static const char *INTS[] = {"GF_TUNE", "ACCURACY", "U1_ALPHA", "U1_CHARGE", "CYL_WIDTH", "ALPHA1", "ALPHA2", "BETA", "MAX_ITERS", "MAX_T", "MAXMOM", "ANGLE", "SMITERS", "ITERS", "MEASURE", "OVER_ITERS", "SAVE", "THERM", "SEED"};
static const int NDBL = 8, NINTS = 19;
static const char *REQ[] = {"MODE", "HEADER", "SEED", "GFTYPE", "GF_TUNE", "ACCURACY", "MAX_ITERS", "CUTTYPE", "FIELD_DEFINITION", "MOM_CUT", "MAX_T", "MAXMOM", "CYL_WIDTH", "ANGLE", "OUTPUT", "SMEARTYPE", "DIRECTION", "SMITERS", "ALPHA1", "ALPHA2", "U1_MEAS", "U1_ALPHA", "U1_CHARGE", "STORAGE", "BETA", "ITERS", "MEASURE", "OVER_ITERS", "SAVE", "THERM"};
// the real settings that what this plan does depends on
static std::vector<str> extreme_keys(const Plan &p) {
  str k = p.get("kind"), c = p.get("in.CUTTYPE"), mc = p.get("in.MOM_CUT");
  if (k == "smear" || k == "flow" || k == "adaptive-flow") { str t = p.get("in.SMEARTYPE"); if (t == "HYP" || t == "HEX" || t == "HYL") return {"ALPHA1", "ALPHA2"}; return {"ALPHA1"}; }
  if (k == "u1") return {"U1_ALPHA", "U1_CHARGE"};
  if (k == "heatbath") return {"BETA"};
  if (k == "landau" || k == "coulomb" || k == "coulomb-residual") return {"GF_TUNE"};
  if (k == "cut") { std::vector<str> v; if (mc == "CYLINDER_CUT") v.push_back("CYL_WIDTH"); if (mc == "CONICAL_CUT") v.push_back("ANGLE"); if (c == "SMEARED_GLUONS" || c == "CONFIGSPACE_GLUONS" || c == "STATIC_POTENTIAL" || c.compare(0, 11, "TOPOLOGICAL") == 0) v.push_back("ALPHA1"); return v; }
  return {};
}
// does the text report something that is not a number
static str nan_line(const str &text, bool infs) {
  for (auto &l : split(text, '\n')) {
    str w; for (size_t i = 0; i <= l.size(); i++) { char c = i < l.size() ? tolower(l[i]) : ' '; if (isalpha((unsigned char)c)) w += c; else { if (w == "nan" || (w == "inf" && infs)) return l; w.clear(); } }
  }
  return "";
}
// does the file hold one
static bool nan_data(const str &s) {
  for (size_t i = 0; i + 8 <= s.size(); i++) {
    static const unsigned char n[] = {0xff, 0xf8, 0, 0, 0, 0, 0, 0}; const unsigned char *q = (const unsigned char *)s.data() + i;
    if ((q[0] & 0x7f) != 0x7f || memcmp(q + 1, n + 1, 7)) continue;
    return true;
  }
  return false;
}
static Plan c15_gen(u64 seed) {
  Plan p = start_plan("C15", seed); Rng r = seed_rng("C15", seed);
  static const char *w[] = {"droptag", "droptag", "badnumber", "badnumber", "nonfinite", "garble", "garble", "garble", "noinput", "emptyinput", "badheader", "badstorage", "noconfig", "emptyconfig", "cutheader", "dropline", "dropline", "badline", "badline", "badline", "flip", "flip", "flip", "flip", "otherheader", "argv", "argv", "zero", "overlong", "choice", "choice", "choice", "nearname", "nearname", "nearline", "nearline", "xmlvalue", "xmlvalue", "morelines", "morelines", "morekeys", "morekeys", "extreme", "extreme", "extreme", "extreme", "autoin"};
  str m = w[r.below(sizeof w / sizeof *w)]; p.set("mut", m);
  if (m == "autoin") {   // the input files the program proposes
    gen_kind(p, r, K_REWRITE, true); p.set("fmt.head", "NERSC"); p.set("fmt.kind", "NCxNC"); p.set("fmt.dbl", 1); p.set("fmt.big", 1); p.setd("rough", 0.05 + 0.2 * r.uni()); p.kv.erase("in.HEADER");
    static const char *a[] = {"LANDAU", "COULOMB", "HEATBATH", "STATIC_POTENTIAL", "SUNCxU1", "WFLOW"}; p.set("auto", a[r.below(6)]); gen_env(p, r); return p;
  }
  bool conf = m == "noconfig" || m == "emptyconfig" || m == "cutheader" || m == "dropline" || m == "badline" || m == "flip" || m == "otherheader" || m == "nearline" || m == "xmlvalue" || m == "morelines";
  if (conf) { int k; do k = pick_kind(r); while (r.chance(0.6) ? k != K_REWRITE : (k == K_GENERATE || (k == K_U1 && !HAVE_FFT_))); gen_kind(p, r, k, true); p.kv.erase("in.HEADER"); gen_infmt(p, r, true); if (m == "xmlvalue") { static const char *h[] = {"SCIDAC", "ILDG_SCIDAC", "ILDG_BQCD", "LIME"}; p.set("fmt.head", h[r.below(4)]); p.kv.erase("fmt.kind"); p.set("fmt.big", 1); } if (m == "dropline" || m == "badline" || m == "nearline" || m == "morelines") { p.set("fmt.head", "NERSC"); if (!p.has("fmt.kind")) p.set("fmt.kind", "NCxNC"); p.set("fmt.dbl", 1); p.set("fmt.big", 1); } gen_env(p, r); }
  else gen_any(p, r, true);
  if (p.get("kind") == "heatbath" && conf) p.set("in.THERM", "0");
  if (m == "choice") {
    str k = p.get("kind"); std::vector<int> of = {0, 1};
    if (k == "cut") for (int i : {2, 2, 3, 3, 4, 5}) of.push_back(i);
    else if (k == "smear") of.assign({5, 6, 6, 0, 1}); else if (k == "flow" || k == "adaptive-flow") of.push_back(5); else if (k == "u1") of.assign({8, 8, 0, 1}); else if (k == "landau" || k == "coulomb" || k == "coulomb-residual" || k == "mag" || k == "axial") of.push_back(7);
    const Choice &c = CHOICES[of[r.below(of.size())]]; p.set("ckey", c.key); p.set("cval", near_name(c.names, r)); p.set("in." + str(c.key), c.dflt);
  }
  if (m == "extreme") {   // a setting the work in hand depends on, of a size nobody has use for
    for (u64 i = 0; extreme_keys(p).empty(); i++) { u64 s2 = seed * 1000003 + i; p = start_plan("C15", s2); p.set("seed", (long long)seed); p.set("mut", m); Rng q = seed_rng("C15", s2); gen_any(p, q, true); }
    auto k = extreme_keys(p); p.set("ekey", k[r.below(k.size())]);
    static const char *v[] = {"1e300", "-1e300", "1e308", "-1e308", "1e200", "1e155", "-1e155", "1e100", "1e30", "-1e30", "1e-300", "-1e-300", "5e-324", "0", "-0", "-0.1", "-1", "-100", "1e5", "1e9"};
    static const char *vi[] = {"0", "1", "89", "90", "91", "179", "180", "359", "360", "1000000", "2147483647"};
    p.set("eval", p.get("ekey") == "ANGLE" ? vi[r.below(11)] : v[r.below(20)]);
  }
  p.set("m1", (long long)r.below(1000000)); p.set("m2", (long long)r.below(1000000)); p.set("m3", (long long)r.below(1000000)); p.set("mseed", (long long)r.below(1000000000));
  return p;
}
// how much of the file is header
static size_t header_size(const Plan &p, const Job &j) {
  model::Layout lay; model::encode(plan_conf(p), plan_fmt(p), &lay); return lay.data0;
}
static void c15_autoin(const Plan &p, Eval &e) {
  str t = p.get("auto"); Job h = make_job(p); h.argv = {"GLU", "--autoin=" + t}; h.out = ""; RunOut a = exec(h, e);
  if (abnormal_bad(e, a, "--autoin=" + t)) return;
  if (!a.ok()) return fail(e, "refused-good-input", "--autoin=" + t + " " + a.describe());
  str txt; static const std::map<str, str> less = {{"ITERS", "3"}, {"THERM", "1"}, {"MEASURE", "1"}, {"SAVE", "2"}, {"SMITERS", "3"}, {"MAXMOM", "3"}, {"MAX_T", "2"}, {"ACCURACY", "6"}};
  for (auto &l : split(a.out, '\n')) { char k[80], v[80]; if (sscanf(l.c_str(), " %79s = %79s", k, v) == 2) { auto i = less.find(k); txt += str(k) + " = " + (i == less.end() ? str(v) : i->second) + "\n"; if (str(k) == "SEED" && p.num("in.SEED") % 2) txt.replace(txt.rfind("SEED = 0"), 8, "SEED = " + p.get("in.SEED")); } }
  Job j = make_job(p); apply_env(p, j, false); j.in_text = txt; j.in["STORAGE"] = "NERSC_NCxNC";
  RunOut b = exec(j, e); e.last_trace = b.trace; e.trace_over = b.trace_over; note_run(e, b); e.nontrivial = true; e.probes["autoin-" + t]++;
  if (abnormal_bad(e, b, "the input file of --autoin=" + t)) return;
  if (!b.ok()) { if (!HAVE_FFT_ && t == "SUNCxU1") return; return fail(e, "refused-good-input", "the input file of --autoin=" + t + " is refused: " + last_lines(b.err, 3)); }
  if (t == "HEATBATH" || t == "STATIC_POTENTIAL") return;
  model::Decoded d; str why; if (!decode_out(j, b, j.out, d, why)) return fail(e, "success-without-output", "--autoin=" + t + ": " + why);
}
static void c15_check(const Plan &p, Eval &e) {
  if (p.has("auto")) return c15_autoin(p, e);
  str m = p.get("mut"); u64 m1 = p.num("m1"), m2 = p.num("m2"), m3 = p.num("m3"); Rng r(p.num("mseed") + 17);
  Job ja = make_job(p); apply_env(p, ja, true); ja.race = 0; RunOut a = exec(ja, e);
  if (abnormal_bad(e, a, "run with the unchanged input")) return;
  if (a.failed() && !ja.mem) { str why = may_fail(p, ja, a); if (why.empty()) return fail(e, "refused-good-input", "a complete and valid run without any fault ends in failure: " + last_lines(a.err, 3)); e.probes["legitimate-failure"]++; }
  Job j = make_job(p); apply_env(p, j, false); j.race = 0; j.max_steps = 300000000ull + 4 * a.steps;
  str cn = j.argv[4]; bool hasconf = j.files.count(cn); str head = j.in["HEADER"];
  enum { FAIL, SAME, ANY } want = ANY; str what; bool mayrunlong = false;
  bool is3 = ND_ == 4;
  if (m == "droptag") { str t = REQ[m1 % 30]; j.in.erase(t); want = FAIL; what = "no " + t + " in the input file";
    if (m2 % 8 == 0) { j = make_job(p); apply_env(p, j, false); j.race = 0; cn = j.argv[4]; static const char *o[] = {"DIM_0", "DIM_1", "RANDOM_TRANSFORM", "CONFIG_INFO", "CONFNO"}; t = o[m1 % 5]; j.in.erase(t); what = "no " + t + " in the input file"; want = t[0] == 'D' && !(head == "JLQCD" || head == "RANDOM" || head == "UNIT" || head == "INSTANTON") ? SAME : t[0] == 'D' ? FAIL : ANY; } }
  else if (m == "badnumber") { int k = m1 % NINTS; static const char *bi[] = {"abc", "-1", "99999999999999999999999", "--5", "x12", "-99999999999", "+-3", "$"}, *bd[] = {"abc", "1e99999", "--5", "x1.5", "-", "?"}; str v = k < NDBL ? bd[m2 % 6] : bi[m2 % 8]; if (str(INTS[k]) == "SEED") v = bi[(m2 % 2) ? 0 : 4]; j.in[INTS[k]] = v; want = FAIL; what = fmt("%s = %s", INTS[k], v.c_str()); }
  else if (m == "nonfinite") { static const char *v[] = {"nan", "inf", "-inf", "NAN", "infinity"}; int k = m1 % NDBL; j.in[INTS[k]] = v[m2 % 5]; want = FAIL; what = fmt("%s = %s", INTS[k], v[m2 % 5]); }
  else if (m == "zero") { static const char *z[] = {"MAX_ITERS", "MAX_T", "MAXMOM", "ANGLE", "SMITERS", "ITERS", "MEASURE", "OVER_ITERS", "SAVE", "THERM", "DIM_0", "DIM_1", "ACCURACY", "CYL_WIDTH", "GF_TUNE", "U1_ALPHA", "U1_CHARGE", "BETA", "ALPHA1"}; j.in[z[m1 % 19]] = "0"; what = fmt("%s = 0", z[m1 % 19]); mayrunlong = true; }
  else if (m == "overlong") { str t = REQ[m1 % 30]; str v; int n = 60 + m2 % 200; for (int i = 0; i < n; i++) v += "0123456789"[r.below(10)]; bool key = m3 % 3 == 0; str txt = input_text(j.in); size_t q = txt.find("\n" + t + " = "); q = q == str::npos ? 0 : q + 1;
    if (key) txt.insert(q, v); else { size_t z = txt.find('\n', q); txt.replace(q, z - q, t + " = " + v); } j.in_text = txt; what = fmt("%s of %d digits", key ? "a key" : t.c_str(), n); mayrunlong = true; }
  else if (m == "garble") {
    str txt = input_text(j.in); int n = 1 + m1 % 6;
    for (int i = 0; i < n && !txt.empty(); i++) { size_t q = r.below(txt.size()); switch (r.below(7)) { case 0: txt[q] = (char)r.below(256); break; case 1: txt.erase(q, 1 + r.below(30)); break; case 2: txt.insert(q, 1, (char)(32 + r.below(95))); break; case 3: txt.resize(q); break; case 4: { size_t z = r.below(txt.size()); str s = txt.substr(z, r.below(60)); txt.insert(q, s); break; } case 5: txt.insert(q, str(1 + r.below(300), "=\n aZ0\0"[r.below(7)])); break; case 6: txt[q] = "0123456789= \n-.e"[r.below(16)]; break; } }
    if (txt.empty()) txt = "\n"; j.in_text = txt; what = "garbled input file"; mayrunlong = true; }
  else if (m == "noinput") { static const char *n[] = {"nothere", "", "in2", "-c"}; j.argv[2] = n[m1 % 4]; want = FAIL; what = "input file \"" + j.argv[2] + "\""; }
  else if (m == "emptyinput") { j.in_text = m1 % 2 ? "\n" : " "; want = FAIL; what = "empty input file"; }
  else if (m == "badheader") { static const char *n[] = {"NERSCC", "nersc", "BOGUS", "UNITY", "0", "MILC2"}; j.in["HEADER"] = n[m1 % 6]; want = FAIL; what = str("HEADER = ") + n[m1 % 6]; }
  else if (m == "badstorage") { static const char *n[] = {"NERSC", "nersc_gauge", "BOGUS", "LIME", "1", "NERSC_HDF5"}; j.in["STORAGE"] = n[m1 % 6]; want = FAIL; what = str("STORAGE = ") + n[m1 % 6]; }
  else if (m == "choice") { str k = p.get("ckey"); j.in[k] = p.get("cval"); want = SAME; what = k + " = " + p.get("cval"); }
  else if (m == "nearname") { str k = m1 % 2 ? "HEADER" : "STORAGE"; j.in[k] = near_name(m1 % 2 ? HEADERS : STORAGES, r); want = FAIL; what = k + " = " + j.in[k]; }
  else if (m == "extreme") { str k = p.get("ekey"), v = p.get("eval"); j.in[k] = v; what = k + " = " + v; mayrunlong = true; if (v[0] == '-' && v != "-0" && (k == "BETA" || k == "U1_ALPHA")) want = FAIL; if (k == "BETA" && (v == "0" || v == "-0")) want = FAIL; }
  else if (m == "noconfig") { j.files.erase(cn); want = FAIL; what = "no configuration file"; }
  else if (m == "emptyconfig") { j.files[cn] = ""; want = FAIL; what = "empty configuration file"; }
  else if (m == "cutheader") { size_t h = std::max((size_t)1, header_size(p, j)); j.files[cn].resize(m1 % 3 == 0 ? m2 % 64 : m2 % h); want = FAIL; what = fmt("configuration cut to %zu of %zu header bytes", j.files[cn].size(), h); }
  else if (m == "otherheader") { static const char *h[] = {"NERSC", "MILC", "SCIDAC", "ILDG_SCIDAC", "ILDG_BQCD", "LIME", "JLQCD", "HIREP", "CERN"}; str n = h[m1 % 9]; auto lime = [](const str &s) { return s == "SCIDAC" || s == "LIME" || s == "ILDG_SCIDAC" || s == "ILDG_BQCD"; };
    j.in["HEADER"] = n; what = "a " + head + " file read as " + n; want = n == head ? SAME : lime(n) && lime(head) ? ANY : n == "JLQCD" ? ANY : FAIL;
    if (n == "JLQCD" && n != head) { e.probes["no-check-possible"]++; j.out = ""; j.argv.resize(5); } }   // such files have no header and no checks
  else if (m == "nearline") {
    str &s = j.files[cn]; str key = m1 % 3 ? "DATATYPE" : "FLOATING_POINT"; size_t q = s.find(key + " = "), z = s.find('\n', q), end = s.find("END_HEADER"); if (q == str::npos || q > end) return fail(e, "SIMFAIL", "no NERSC header");
    q += key.size() + 3; str was = s.substr(q, z - q), nv;
    std::vector<str> types = {fmt("%dD_SU%d_GAUGE", ND_, NC_), fmt("%dD_SU%d_GAUGE_SMALL", ND_, NC_), fmt("%dD_SU%d_GAUGE_%dx%d", ND_, NC_, NC_, NC_)}, floats = {"IEEE64BIG", "IEEE32BIG", "IEEE32", "IEEE64LITTLE", "IEEE32LITTLE", "IEEE64"};
    auto &names = m1 % 3 ? types : floats;
    if (m2 % 4 == 0 && NC_ < 4) { do nv = names[r.below(key == "DATATYPE" ? 3 : 5)]; while (nv == was || (nv == "IEEE32" && was == "IEEE32BIG")); }   // another one than the file's
    else if (m2 % 4 == 1 && key == "DATATYPE") { int c = NC_, d = ND_; switch (m3 % 3) { case 0: c += 1 + r.below(9); break; case 1: d = d == 4 ? 3 : 4; break; case 2: c += 10; break; } nv = fmt("%dD_SU%d_GAUGE", d, c); if (r.chance(0.5)) nv += fmt("_%dx%d", c, c); }
    else { str base; do { base = near_name(names, r); } while (0); nv = base; if (r.chance(0.4)) { static const char *sfx[] = {"_", "_X", "_F", "0", "_3x", "_SMALLER", "S", "BIG", "LITTLE"}; str b = r.chance(0.7) ? was : names[r.below(names.size())]; str t = b + sfx[r.below(9)]; bool ok = true; for (auto &n : names) if (n == t) ok = false; if (ok) nv = t; } }
    s.replace(q, z - q, nv); want = FAIL; what = "header with " + key + " = " + nv + " instead of " + was; mayrunlong = true;
  }
  else if (m == "morelines" || m == "morekeys") {   // entries nobody asks for, in any order, change nothing
    bool hd = m == "morelines"; str txt = hd ? j.files[cn] : input_text(j.in), tail; 
    if (hd) { size_t end = txt.find("END_HEADER"); if (end == str::npos) return fail(e, "SIMFAIL", "no NERSC header"); tail = txt.substr(end); txt.resize(end); }
    auto ls = split(txt, '\n'); while (!ls.empty() && ls.back().empty()) ls.pop_back();
    size_t lo = hd ? 1 : 0; std::vector<str> keys; for (size_t i = lo; i < ls.size(); i++) keys.push_back(ls[i].substr(0, ls[i].find(' ')));
    int n = 1 + m1 % 4;
    for (int i = 0; i < n; i++) {
      str k = keys[r.below(keys.size())], v; static const char *sfx[] = {"_OLD", "2", "S", "X", "_", "_1", "0", "_NAME"};
      switch (r.below(6)) { case 0: case 1: case 2: k += sfx[r.below(8)]; break; case 3: k.resize(k.size() > 3 ? k.size() - 1 - r.below(2) : k.size()); break; case 4: k = (r.chance(0.5) ? "X" : "OLD_") + k; break; case 5: for (auto &c : k) c = tolower(c); break; }
      bool known = k.empty(); for (auto &q : keys) if (q == k) known = true; for (auto q : REQ) if (q == k) known = true;
      for (auto q : {"CONFNO", "CONFIG_INFO", "RANDOM_TRANSFORM", "DIM_0", "DIM_1", "DIM_2", "DIM_3", "ALPHA1", "ALPHA2", "ALPHA3", "CHECKSUM", "PLAQUETTE", "LINK_TRACE"}) if (k == q) known = true;
      if (known) continue;
      static const char *vs[] = {"0", "1", "99", "abc", "-3.5", "deadbeef", "4D_SU3_GAUGE", "IEEE32BIG", "YES", "0.25"};
      if (r.chance(0.4)) { auto &o = ls[lo + r.below(ls.size() - lo)]; size_t q = o.find("= "); if (q != str::npos) v = o.substr(q + 2); } if (v.empty()) v = vs[r.below(10)];
      ls.insert(ls.begin() + lo + r.below(ls.size() - lo + 1), k + " = " + v); what += (what.empty() ? "an added line " : " and ") + k + " = " + v;
    }
    if (m2 % 2) { for (size_t i = ls.size() - 1; i > lo; i--) std::swap(ls[i], ls[lo + r.below(i - lo + 1)]); what += (what.empty() ? "" : ", ") + str("lines in another order"); }
    txt.clear(); for (auto &l : ls) txt += l + "\n";
    if (hd) j.files[cn] = txt + tail; else j.in_text = txt;
    what = (hd ? "NERSC header with " : "input file with ") + what; want = SAME;
  }
  else if (m == "xmlvalue") {
    str &s = j.files[cn]; struct T { const char *tag; std::vector<str> v; };
    std::vector<T> ts = {{"spacetime", {fmt("%d", ND_ + 1), fmt("%d", ND_ - 1), fmt("%d", ND_ + 10)}}, {"colors", {fmt("%d", NC_ + 1), fmt("%d", NC_ - 1), fmt("1%d", NC_), fmt("%d0", NC_)}}, {"field", {fmt("su%dgauge", NC_ + 1), "u1gauge", fmt("sp%dgauge", NC_), fmt("su%dferm", NC_), "x"}}, {"typesize", {"1", "48", "100000"}}, {"precision", {"X", "G", "128", "16", "DD", "6"}}, {"suma", {"zzz", "-"}}};
    std::vector<std::pair<size_t, int>> at; for (size_t i = 0; i < ts.size(); i++) { str o = str("<") + ts[i].tag + ">"; for (size_t q = s.find(o); q != str::npos; q = s.find(o, q + 1)) at.push_back({q + o.size(), (int)i}); }
    if (at.empty()) return fail(e, "SIMFAIL", "no XML");
    auto c = at[m1 % at.size()]; auto &t = ts[c.second]; size_t z = s.find('<', c.first); str was = s.substr(c.first, z - c.first), nv;
    // the records have fixed lengths: keep the length, blanks in front are allowed for
    std::vector<str> fit; for (auto &v : t.v) if (v.size() <= was.size() && v != was && !(str(t.tag) == "typesize" && atoi(v.c_str()) % (2 * ND_ * NC_ * NC_) == 0)) fit.push_back(v);
    if (fit.empty()) { e.probes["nothing-to-change"]++; return; }
    nv = fit[m2 % fit.size()]; nv = str(was.size() - nv.size(), ' ') + nv;
    s.replace(c.first, was.size(), nv); want = FAIL; what = str("XML entry ") + t.tag + " \"" + nv + "\" instead of \"" + was + "\""; mayrunlong = true;
    if (str(t.tag) == "precision") want = ANY;   // the size of a site says it too
    if (str(t.tag) == "suma" && (head == "LIME" || head == "ILDG_BQCD")) want = ANY;
  }
  else if (m == "dropline" || m == "badline") {
    str &s = j.files[cn]; size_t end = s.find("END_HEADER"); if (end == str::npos) return fail(e, "SIMFAIL", "no NERSC header");
    auto ls = split(s.substr(0, end), '\n'); if (ls.back().empty()) ls.pop_back(); size_t k = m1 % ls.size(); str was = ls[k];
    if (m == "dropline") { ls.erase(ls.begin() + k); what = "header line \"" + was + "\" removed"; }
    else { size_t q = was.find('='); static const char *v[] = {"", " ", "= ", "0", "-1", "99999999999999999999", "abc", "4D_SU3_GAUGE_9x9", "IEEE", "IEEE32BIG", "4294967296", "nan", "3", "%s%n", "1e400", "1000000"}; str nv = v[m2 % 16]; if (m3 % 9 == 0) nv = str(50 + m3 % 500, 'A'); if (q == str::npos) ls[k] = nv; else ls[k] = was.substr(0, q + 1) + (m3 % 5 ? " " : "") + nv; what = "header line \"" + was + "\" changed to \"" + ls[k].substr(0, 80) + "\""; }
    str h; for (auto &l : ls) h += l + "\n"; s = h + s.substr(end); mayrunlong = true;
    str key = was.substr(0, was.find(' ')); if (key == "BEGIN_HEADER") want = FAIL;
    if (m == "dropline" && key.compare(0, 9, "DIMENSION") == 0) want = FAIL;
    if (m == "dropline" && (key == "FLOATING_POINT" || key == "DATATYPE")) want = FAIL;
  }
  else if (m == "flip") { str &s = j.files[cn]; size_t h = header_size(p, j); if (!h) { e.probes["no-header"]++; return; } int n = 1 + m1 % 3; what = "header bytes"; for (int i = 0; i < n; i++) { size_t q = r.below(m3 % 3 ? h : std::min(h, (size_t)64)); u64 how = r.below(4); unsigned char b = s[q]; s[q] = how == 0 ? b ^ (1 << r.below(8)) : how == 1 ? r.below(256) : how == 2 ? 0 : 255; what += fmt(" %zu:%02x->%02x", q, b, (unsigned char)s[q]); } mayrunlong = true; }
  else if (m == "argv") {
    std::vector<std::vector<str>> v = {{"GLU"}, {"GLU", "--help"}, {"GLU", "-i"}, {"GLU", "-i", "in"}, {"GLU", "-i", "in", "-c"}, {"GLU", "-i", "in", "-c", cn, "-o"}, {"GLU", "-i", "in", "-c", cn, "-o", "out", "x"}, {"GLU", "--autoin=LANDAU"}, {"GLU", "--help=MODE"}, {"GLU", "--help=NOTHING"}, {"GLU", str(3000, 'h')}, {"GLU", "-i", "in", "-o", "out"}, {"GLU", "-i", "in", "-c", cn, "-o", "out", "-x", "y"}, {"GLU", ""}, {"GLU", "--autoin="}, {"GLU", "--help="}};
    j.argv = v[m1 % v.size()]; what = "command line"; for (auto &s : j.argv) what += " " + s.substr(0, 30);
    j.out = ""; size_t n = j.argv.size(); if (n != 2 && n != 7 && n != 9 && n != 5) want = FAIL;
    if (n == 5 && j.argv[3] == "-o") want = hasconf ? FAIL : ANY;
    if (n == 1 || n == 3 || n == 4 || n == 6 || n == 8) want = FAIL;
  }
  RunOut b = exec(j, e); e.last_trace = b.trace; e.trace_over = b.trace_over; note_run(e, b); e.nontrivial = true;
  e.probes["mutation-" + m]++;
  if (b.status == sim::ST_LIVELOCK && mayrunlong) { e.probes["long-run-stopped"]++; return; }
  if (b.status == sim::ST_SIMFAIL && mayrunlong) { e.probes["too-large-to-simulate"]++; return; }
  if (abnormal_bad(e, b, what)) return;
  for (auto &f : j.files) if (!b.has(f.first) || b.file(f.first) != f.second) return fail(e, "input-changed", what + ": " + f.first);
  if (b.failed()) {
    e.probes["refused"]++;
    if (!nonempty(b.err) && !(m == "argv" && nonempty(b.out))) return fail(e, "silent-failure", what + ": no message on standard error; standard output ends " + last_lines(b.out));
    if (claims_written(b)) return fail(e, "claims-and-fails", what + ": " + last_lines(b.err));
    if (want == SAME && a.ok()) return fail(e, "refused-good-input", what + ": " + last_lines(b.err));
    return;
  }
  e.probes["accepted"]++;
  if (want == FAIL) return fail(e, "bad-input-accepted", what + ": the run ends with success");
  if (want == SAME) { CmpOpt o = mem_opt(); o.skip_files = {"in"}; if (m == "morelines") o.skip_files.push_back(cn); if (m == "choice") o.err = false; str d = diff_work(ja, a, b, o); if (!d.empty()) return fail(e, "differs", what + ": " + d); return; }
  if (m == "extreme") {
    str l = nan_line(b.out, p.get("ekey") != "CYL_WIDTH"); if (!l.empty()) return fail(e, "garbage-reported", what + ": the run ends with success and reports \"" + l + "\"");
    if (p.get("kind") == "cut" || p.get("kind") == "heatbath") for (auto &f : b.files) if (!j.files.count(f.first) && f.first != "in" && nan_data(f.second)) return fail(e, "garbage-output", what + ": the run ends with success and " + f.first + " holds what is not a number");
  }
  bool writes = !j.out.empty() && p.get("kind") != "heatbath" && p.get("kind") != "cut";
  if (writes) {
    if (!b.has(j.out)) return fail(e, "success-without-output", what);
    if (m == "garble" || m == "overlong") return;      // which storage was asked for is not known
    if (j.in["STORAGE"] == "NERSC_SMALL") return;
    model::Decoded d; str why; if (!decode_out(j, b, j.out, d, why)) return fail(e, "output-malformed", what + ": " + why);
    for (auto &z : d.c.u) if (!std::isfinite(z.real()) || !std::isfinite(z.imag())) return fail(e, "garbage-output", what + ": the links are not numbers");
    double u = p.get("kind") == "u1" ? 0 : model::unitarity(d.c); if (!(u < 1e-5)) return fail(e, "garbage-output", what + fmt(": links off SU(N) by %.3g", u));
    if (m == "flip" || m == "badline" || m == "dropline" || m == "xmlvalue") {   // header damage: the field itself is the same
      model::Decoded q; if (a.ok() && decode_out(ja, a, ja.out, q, why) && q.c.L == d.c.L) { double x = model::max_diff(q.c, d.c); if (!(x < 1e-4)) return fail(e, "garbage-output", what + fmt(": links differ by %.3g from the ones of the undamaged file", x)); }
      else if (a.ok()) return fail(e, "garbage-output", what + ": other dimensions");
    }
  }
}

// ------------------------------------------------------------------ C16
static Plan c16_gen(u64 seed) {
  Plan p = start_plan("C16", seed); Rng r = seed_rng("C16", seed);
  gen_any(p, r, true);
  static const char *c0[] = {"0", "1", "951782399", "4102444800", "1709164800", "2147483647", "2147483648", "32503680000", "-1", "253402300799"};
  if (r.chance(0.5)) p.set("clock0", c0[r.below(10)]);
  str f; int n = 1 + r.below(4);
  for (int i = 0; i < n; i++) {
    static const long long st[] = {1, -1, 3600, -3600, 86400, -86400, 1000000000, -1000000000, 31536000, -31536000};
    f += (i ? "," : "") + fmt("clock_jump:%llu:%lld", (unsigned long long)r.below(1000), st[r.below(10)]);
  }
  p.set("wf", f);
  return p;
}
static void c16_check(const Plan &p, Eval &e) {
  Job ja = make_job(p); apply_env(p, ja, false); ja.clock0 = 1.5e9; RunOut a = exec(ja, e);
  if (abnormal_bad(e, a, "run with a steady clock")) return;
  Job jb = make_job(p); apply_env(p, jb, false); jb.faults = resolve_faults(p.get("wf"), a);
  RunOut b = exec(jb, e); e.last_trace = b.trace; e.trace_over = b.trace_over; note_run(e, b);
  str what = "clock starting at " + p.get("clock0") + " with [" + faults_text(jb.faults) + "]";
  if (b.clocks) e.nontrivial = true;
  e.probes["kind-" + p.get("kind")]++;
  if (abnormal_bad(e, b, what)) return;
  CmpOpt o; o.data = 0; o.rel = 0; o.abs_ = 0;
  str d = diff_work(ja, a, b, o);
  if (!d.empty()) fail(e, "depends-on-clock", what + ": " + d);
}

// ------------------------------------------------------------------ C17
static Plan c17_gen(u64 seed) {
  Plan p = start_plan("C17", seed); Rng r = seed_rng("C17", seed);
  gen_any(p, r, true); gen_mem(p, r, 0.3);
  if (p.num("nt") < 2) p.set("nt", (long long)(2 + r.below(4)));
  if (r.chance(0.15)) p.set("wf", gen_alloc_fault(r));
  return p;
}
static void c17_check(const Plan &p, Eval &e) {
  Job j = make_job(p); apply_env(p, j, false);
  if (p.has("wf")) { RunOut a = exec(j, e); if (abnormal_bad(e, a, "run without faults")) return; auto f = resolve_faults(p.get("wf"), a); j.faults.insert(j.faults.end(), f.begin(), f.end()); }
  RunOut b = exec(j, e); e.last_trace = b.trace; e.trace_over = b.trace_over; note_run(e, b);
  e.probes["kind-" + p.get("kind")]++; e.nontrivial = j.nt > 1 && b.regions > 0;
  if (b.status == sim::ST_SIMFAIL) return fail(e, "SIMFAIL", b.msg);
  if (!b.races.empty()) return fail(e, "race", b.racetext[0] + fmt("; %zu pairs of functions in this run", b.races.size()), b.races[0].first + "+" + b.races[0].second);
  if (!b.anyfired()) abnormal_bad(e, b, "run");
}

// ------------------------------------------------------------------ C19
static Plan c19_gen(u64 seed) {
  Plan p = start_plan("C19", seed); Rng r = seed_rng("C19", seed);
  gen_any(p, r, r.chance(0.7)); gen_mem(p, r, 0.3);
  if (!p.has("in.HEADER") && r.chance(0.3)) gen_infmt(p, r, true);
  p.set("fill", 0ll); p.set("fill2", (long long)(1 + r.below(1000)));
  if (p.num("strat") == sim::S_HOT) p.set("strat", (long long)sim::S_RANDOM);   // where that one switches depends on values in memory
  if (r.chance(0.4)) { str f = r.chance(0.4) ? gen_alloc_fault(r) : gen_io_fault(r); if (r.chance(0.2)) f += "," + gen_io_fault(r); p.set("wf", f); }
  return p;
}
static void c19_check(const Plan &p, Eval &e) {
  Job ja = make_job(p); apply_env(p, ja, false);
  if (p.has("wf")) { RunOut q = exec(ja, e); if (abnormal_bad(e, q, "run without faults")) return; auto f = resolve_faults(p.get("wf"), q); ja.faults.insert(ja.faults.end(), f.begin(), f.end()); }
  str what = ja.faults.empty() ? str("run") : "with [" + faults_text(ja.faults) + "]";
  RunOut a = exec(ja, e); if (abnormal_bad(e, a, what + ", memory cleared")) return;
  Job jb = ja; jb.fill = p.num("fill2");
  RunOut b = exec(jb, e); e.last_trace = b.trace; e.trace_over = b.trace_over; note_run(e, b);
  e.probes["kind-" + p.get("kind")]++; e.probes[fmt("fill-mode-%d", (int)(jb.fill % 5))]++;
  e.nontrivial = jb.fill % 5 != 0;
  if (abnormal_bad(e, b, what + fmt(", memory filled with pattern %d", (int)(jb.fill % 5)))) return;
  if (a.status != b.status) return fail(e, "depends-on-memory", what + ": " + a.describe() + " against " + b.describe());
  CmpOpt o; o.data = 0; o.rel = 0; o.abs_ = 0;
  str d = diff_work(ja, a, b, o);
  // the clock is the same in both, so are the dates
  if (d.empty()) for (auto &f : a.files) { const str &x = f.second, &y = b.file(f.first); if (x != y) { size_t k = 0; while (k < x.size() && k < y.size() && x[k] == y[k]) k++; d = fmt("file %s differs (%zu and %zu bytes, first at byte %zu)", f.first.c_str(), x.size(), y.size(), k); break; } }
  if (!d.empty()) fail(e, "depends-on-memory", what + fmt(": clear memory against pattern %d: ", (int)(jb.fill % 5)) + d);
}

// ------------------------------------------------------------------ C20
static Plan c20_gen(u64 seed) {
  Plan p = start_plan("C20", seed); Rng r = seed_rng("C20", seed);
  gen_any(p, r, true); gen_mem(p, r, 0.25);
  if (!p.has("in.HEADER") && r.chance(0.2)) gen_infmt(p, r, true);
  if (p.has("in.ACCURACY") && r.chance(0.5)) { p.set("in.ACCURACY", (long long)(14 + r.below(12))); static const int mi[] = {1, 2, 10, 30}; p.set("in.MAX_ITERS", mi[r.below(4)]); if (r.chance(0.3)) p.set("rough", "-1"); }
  if ((p.get("kind") == "adaptive-flow" || p.get("kind") == "flow") && r.chance(0.4)) { p.set("rough", "-1"); p.setd("in.ALPHA1", 0.01 + 0.8 * r.uni()); }
  if (p.get("kind") == "smear" && r.chance(0.3) && (NC_ < 4 || p.get("in.SMEARTYPE").find('L') == str::npos)) p.set("rough", "-1");
  if (r.chance(0.5)) p.set("wf", r.chance(0.5) ? gen_alloc_fault(r) : gen_io_fault(r));
  if (r.chance(0.2)) p.set("conf", "unit");
  if (r.chance(0.35)) {   // settings at the edge of what makes sense
    str k = p.get("kind"); auto one = [&](const str &key, std::vector<const char *> v) { p.set(key, v[r.below(v.size())]); };
    p.set("edge", 1);
    if (k == "heatbath") { one("in.BETA", {"0", "1e-12", "1e-7", "1e-3", "0.05", "0.5", "100", "1e4", "1e9", "1e30", "-1", "-5.5"}); if (r.chance(0.3)) one("in.MEASURE", {"0", "1000000000"}); if (r.chance(0.3)) one("in.SAVE", {"0", "1000000000"}); if (r.chance(0.2)) p.set("in.ITERS", "0"); if (r.chance(0.3)) p.set("rough", "-1"); }
    else if (k == "smear" || k == "flow" || k == "adaptive-flow") { if (NC_ < 4) for (int m = 1; m < ND_; m++) if (r.chance(0.6)) one(fmt("in.ALPHA%d", m), {"0", "1e-300", "1e-9", "0.3", "1", "1.7", "5", "-0.1", "-1", "0.999999999"}); if (k == "adaptive-flow" && r.chance(0.5)) p.set("rough", "-1"); }
    else if (k == "cut") { one("in.CYL_WIDTH", {"0", "1e-9", "0.1", "100", "-1"}); one("in.ANGLE", {"0", "1", "45", "89", "90", "91", "1000"}); if (r.chance(0.5)) one("in.MAXMOM", {"0", "1", "7", "20"}); if (r.chance(0.4)) one("in.MAX_T", {"0", "1", "9", NC_ < 4 ? "40" : "9"}); }
    else if (k == "u1") { one("in.U1_ALPHA", {"0", "1e-300", "1e-6", "1", "50", "1e9", "-0.1"}); one("in.U1_CHARGE", {"0", "-1e9", "1e9", "1e300", "1"}); }
    else if (k == "landau" || k == "coulomb" || k == "coulomb-residual" || k == "mag" || k == "axial") { if (VARIANT != "nc3or") one("in.GF_TUNE", {"0", "1e-9", "0.01", "0.2", "0.5", "1", "10", "-0.08"}); one("in.ACCURACY", {"0", "1", "3", "14", "20", "300"}); if (p.num("in.MAX_ITERS") > 30 || r.chance(0.3)) one("in.MAX_ITERS", {"0", "1", "2", "15"}); }
  }
  return p;
}
static void c20_check(const Plan &p, Eval &e) {
  Job j = make_job(p); apply_env(p, j, false);
  // ten times the longest honest run of the kind seen in tens of thousands of seeds, and short enough
  // to be used up before the simulator's own CPU limit
  const str k = p.get("kind"); u64 budget = 2000000000ull;
  if (k == "rewrite" || k == "generate" || k == "u1" || k == "axial" || k == "mag") budget = 100000000ull;
  else if (k == "heatbath" || k == "flow") budget = 500000000ull;
  else if (k == "cut") budget = 4000000000ull;
  if (getenv("SIM_BUDGET")) budget = strtoull(getenv("SIM_BUDGET"), 0, 10);
  j.max_steps = budget;
  if (p.has("wf")) { RunOut a = exec(j, e); if (abnormal_bad(e, a, "run without faults")) return; auto f = resolve_faults(p.get("wf"), a); j.faults.insert(j.faults.end(), f.begin(), f.end()); j.max_steps = 2 * a.steps + 100000000; }
  RunOut b = exec(j, e); e.last_trace = b.trace; e.trace_over = b.trace_over; note_run(e, b);
  e.probes["kind-" + p.get("kind")]++; e.nontrivial = b.anyfired() || (j.nt > 1 && b.regions > 0);
  abnormal_bad(e, b, j.faults.empty() ? str("run") : "with [" + faults_text(j.faults) + "]");
}

void add_robust(PropList &L) {
  L.push_back({"C14", c14_gen, c14_check});
  L.push_back({"C15", c15_gen, c15_check});
  L.push_back({"C16", c16_gen, c16_check});
  L.push_back({"C17", c17_gen, c17_check});
  L.push_back({"C19", c19_gen, c19_check});
  L.push_back({"C20", c20_gen, c20_check});
}

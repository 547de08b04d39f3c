#include "scen.h"
#include <cmath>
static const char *KN[] = {"rewrite", "heatbath", "landau", "coulomb", "coulomb-residual", "mag", "axial", "smear", "flow", "adaptive-flow", "cut", "u1", "generate"};
const char *kind_name(int k) { return KN[k]; }

void gen_infmt(Plan &p, Rng &r, bool any) {
  static const char *h[] = {"NERSC", "NERSC", "NERSC", "MILC", "SCIDAC", "ILDG_SCIDAC", "ILDG_BQCD", "LIME", "JLQCD", "HIREP", "CERN"};
  str head = any ? h[r.below(11)] : "NERSC";
  p.set("fmt.head", head);
  if (head == "NERSC") { p.set("fmt.kind", (NC_ == 3 || NC_ == 2) && r.chance(0.4) ? "GAUGE" : "NCxNC"); p.set("fmt.dbl", r.chance(0.7)); p.set("fmt.big", r.chance(0.6)); }
  else if (head == "MILC") { p.set("fmt.dbl", 0ll); p.set("fmt.big", r.chance(0.5)); }
  else if (head == "SCIDAC" || head == "ILDG_SCIDAC" || head == "ILDG_BQCD" || head == "LIME" || head == "JLQCD") { p.set("fmt.dbl", head == "JLQCD" ? 1 : (int)r.chance(0.6)); p.set("fmt.big", 1); }
  else { p.set("fmt.dbl", 1); p.set("fmt.big", head == "HIREP"); }
}
str gen_storage(Rng &r, bool full) {
  static const char *s[] = {"NERSC_NCxNC", "NERSC_GAUGE", "MILC", "SCIDAC", "ILDG", "HIREP", "CERN", "NERSC_SMALL"};
  for (;;) { str k = s[r.below(8)]; if (full && k == "NERSC_SMALL") continue; return k; }
}
int pick_kind(Rng &r) {
  static const int w[] = {K_REWRITE, K_REWRITE, K_HEATBATH, K_HEATBATH, K_LANDAU, K_LANDAU, K_COULOMB, K_COULRES, K_MAG, K_AXIALT, K_SMEAR, K_SMEAR, K_WFLOW, K_AFLOW, K_CUT, K_CUT, K_CUT, K_U1, K_U1, K_GENERATE};
  return w[r.below(20)];
}
double eps_for(const Plan &p) { return p.num("fmt.dbl", 1) ? 1e-11 : 2e-6; }

void gen_large(Plan &, Rng &, int, double);
void gen_kind(Plan &p, Rng &r, int k, bool small) {
  p.set("kind", kind_name(k));
  p.set("cseed", (long long)(1 + r.below(100000)));
  static const double ro[] = {0.1, 0.2, 0.3, 0.5, -1};
  p.setd("rough", ro[r.below(5)]);
  p.set("in.SEED", (long long)(1 + r.below(4000000000ull)));
  p.set("in.CONFNO", (long long)r.below(2000));
  int vol = small ? 96 : 320;
  const bool dear = NC_ > 3;   // series logarithms and exponentials of large matrices: keep those runs short
  if (r.chance(0.3)) p.set("in.RANDOM_TRANSFORM", "YES");
  auto dimcost = [&](int v, bool even = false, int ms = 2) { gen_dims(p, r, v, even, ms); };
  switch (k) {
  case K_REWRITE: case K_GENERATE:
    dimcost(vol); gen_infmt(p, r); p.set("in.MODE", "REWRITE");
    if (k == K_GENERATE) { static const char *g[] = {"RANDOM", "UNIT", "INSTANTON"}; str h = g[r.below(ND_ == 4 ? 3 : 2)]; p.set("in.HEADER", h); if (h == "INSTANTON") { p.set("in.RANDOM_TRANSFORM", "NO"); } }
    p.set("out", 1); p.set("in.STORAGE", gen_storage(r)); break;
  case K_HEATBATH: {
    dimcost(small ? 64 : 256, r.chance(0.4)); p.set("in.MODE", "HEATBATH");
    if (r.chance(0.7)) { p.set("in.HEADER", r.chance(0.6) ? "RANDOM" : "UNIT"); } else { gen_infmt(p, r, false); }
    p.set("in.RANDOM_TRANSFORM", "NO");
    p.setd("in.BETA", NC_ == 2 ? 2.0 + r.uni() : NC_ == 4 ? 10.5 + r.uni() : 5.2 + r.uni() * 1.5);
    p.set("in.ITERS", (long long)(2 + r.below(5))); p.set("in.MEASURE", (long long)(1 + r.below(3))); p.set("in.OVER_ITERS", (long long)r.below(4)); p.set("in.SAVE", (long long)(1 + r.below(3))); p.set("in.THERM", (long long)r.below(3));
    p.set("in.CONFNO", (long long)r.below(3));
    p.set("out", 1); p.set("confname", "traj.start"); p.set("in.STORAGE", "NERSC_NCxNC");
    break; }
  case K_LANDAU: case K_COULOMB: case K_COULRES: case K_MAG: case K_AXIALT: {
    dimcost(small ? 64 : 200); gen_infmt(p, r, false); p.set("in.MODE", "GAUGE_FIXING");
    static const char *g[] = {"LANDAU", "COULOMB", "COULOMB_RESIDUAL", "MAG", "AXIALT"};
    p.set("in.GFTYPE", g[k - K_LANDAU]);
    static const double tune[] = {0.08, 0.09, 0.07};
    p.setd("in.GF_TUNE", VARIANT == "nc3or" ? r.uni() : tune[r.below(3)]);
    p.set("in.ACCURACY", (long long)(4 + r.below(7)));
    static const int mi[] = {1, 3, 10, 40, 120}; p.set("in.MAX_ITERS", mi[r.below(small ? 3 : 5)]);
    if (r.chance(0.7)) p.setd("rough", 0.05 + 0.15 * r.uni());
    p.set("out", 1); p.set("in.STORAGE", r.chance(0.7) ? "NERSC_NCxNC" : gen_storage(r)); break; }
  case K_SMEAR: {
    dimcost(dear ? 32 : small ? 96 : 200); gen_infmt(p, r, false); p.set("in.MODE", "SMEARING");
    static const char *s[] = {"APE", "STOUT", "LOG", "HYP", "HEX", "HYL"};
    p.set("in.SMEARTYPE", s[r.below(6)]); p.set("in.DIRECTION", r.chance(0.5) ? "ALL" : "SPATIAL"); p.set("in.SMITERS", (long long)r.below(4));
    p.setd("in.ALPHA1", r.chance(0.1) ? 0 : 0.05 + 0.6 * r.uni()); p.setd("in.ALPHA2", 0.05 + 0.5 * r.uni()); p.setd("in.ALPHA3", 0.05 + 0.4 * r.uni());
    if (p.get("rough") == "-1") p.set("rough", "0.3");
    if (p.get("in.SMEARTYPE") == "LOG" || p.get("in.SMEARTYPE") == "HYL") p.setd("rough", 0.05 + 0.1 * r.uni());
    if (dear) p.set("in.SMITERS", (long long)r.below(2));
    p.set("out", 1); p.set("in.STORAGE", r.chance(0.8) ? "NERSC_NCxNC" : gen_storage(r)); break; }
  case K_WFLOW: case K_AFLOW:
    dimcost(dear ? 24 : small ? 64 : 160); gen_infmt(p, r, false); p.set("in.MODE", "SMEARING");
    p.set("in.SMEARTYPE", str(k == K_AFLOW ? "ADAPT" : "") + ((dear && k == K_AFLOW) || r.chance(0.6) ? "WFLOW_STOUT" : "WFLOW_LOG"));
    p.set("in.DIRECTION", "ALL"); p.set("in.SMITERS", (long long)(1 + r.below(dear ? 1 : small ? 4 : 8)));
    p.setd("in.ALPHA1", 0.01 + 0.06 * r.uni()); p.setd("rough", 0.03 + 0.25 * r.uni());
    p.set("out", 1); break;
  case K_CUT: {
    dimcost(dear ? 48 : small ? 96 : 200); gen_infmt(p, r, false); p.set("in.MODE", "CUTTING");
    static const char *c[] = {"EXCEPTIONAL", "NON_EXCEPTIONAL", "FIELDS", "SMEARED_GLUONS", "INSTANTANEOUS_GLUONS", "CONFIGSPACE_GLUONS", "GLUON_PROPS", "STATIC_POTENTIAL", "TOPOLOGICAL_CORRELATOR", "TOPOLOGICAL_SUSCEPTIBILITY", "TOPOLOGICAL_MOMENTS"};
    p.set("in.CUTTYPE", c[r.below(11)]);
    static const char *m[] = {"HYPERCUBIC_CUT", "SPHERICAL_CUT", "CYLINDER_CUT", "CONICAL_CUT"}; p.set("in.MOM_CUT", m[r.below(4)]);
    p.set("in.FIELD_DEFINITION", r.chance(0.7) ? "LINEAR" : "LOGARITHMIC"); p.set("in.MAXMOM", (long long)(1 + r.below(4))); p.set("in.MAX_T", (long long)(1 + r.below(3)));
    p.setd("in.CYL_WIDTH", 0.5 + 2 * r.uni()); p.set("in.ANGLE", (long long)(20 + r.below(70)));
    static const char *s[] = {"APE", "STOUT", "HYP", "NONE"}; p.set("in.SMEARTYPE", s[r.below(4)]); p.set("in.SMITERS", (long long)r.below(3)); p.setd("in.ALPHA1", 0.1); p.setd("in.ALPHA2", 0.1); p.setd("in.ALPHA3", 0.1);
    if (p.get("rough") == "-1") p.set("rough", "0.3");
    p.setd("rough", std::min(p.dbl("rough"), 0.3));
    break; }
  case K_U1:
    dimcost(small ? 64 : 160); gen_infmt(p, r, false); p.set("in.MODE", "SUNCxU1");
    { static const char *m[] = {"U1_RECTANGLE", "U1_TOPOLOGICAL", "U1_PLAQUETTE"}; p.set("in.U1_MEAS", m[r.below(3)]); }
    p.setd("in.U1_ALPHA", 0.01 + 0.2 * r.uni()); p.setd("in.U1_CHARGE", r.chance(0.15) ? 0 : -2 + 4 * r.uni());
    p.set("out", 1); p.set("in.STORAGE", "NERSC_NCxNC"); break;
  }
  // many iterations, on a lattice of few sites
  if (!dear && r.chance(0.06) && (k == K_HEATBATH || k == K_LANDAU || k == K_SMEAR || k == K_WFLOW || k == K_AFLOW || k == K_CUT)) {
    std::vector<int> d(ND_, 2); if (r.chance(0.5)) d[r.below(ND_)] = 3 + r.below(2);
    str s; for (int x : d) s += (s.empty() ? "" : "x") + fmt("%d", x); p.set("dims", s);
    if (k == K_HEATBATH) { p.set("in.ITERS", (long long)(10 + r.below(30))); p.set("in.SAVE", (long long)(1 + r.below(12))); p.set("in.MEASURE", (long long)(1 + r.below(7))); p.set("in.OVER_ITERS", (long long)r.below(7)); }
    else if (k == K_LANDAU) p.set("in.MAX_ITERS", (long long)(120 + r.below(400)));
    else if (k == K_CUT) { p.set("in.MAXMOM", (long long)(4 + r.below(12))); p.set("in.MAX_T", (long long)(3 + r.below(8))); p.setd("in.CYL_WIDTH", 2 + 4 * r.uni()); }
    else p.set("in.SMITERS", (long long)((k == K_SMEAR ? 4 : 9) + r.below(20)));
  }
  else gen_large(p, r, k, small ? 0.008 : 0.02);
}
// now and then a lattice several times larger than the usual ones, with little to do on it
void gen_large(Plan &p, Rng &r, int k, double pr) {
  if (NC_ > 3 || !r.chance(pr)) return;
  if (k != K_REWRITE && k != K_GENERATE && k != K_HEATBATH && k != K_LANDAU && k != K_COULOMB && k != K_COULRES && k != K_MAG && k != K_AXIALT && k != K_SMEAR && k != K_WFLOW && k != K_U1) return;
  if (p.get("fmt.head") == "CERN" || p.get("in.STORAGE") == "CERN") return;
  for (;;) {
    int v = 1; str s; for (int i = 0; i < ND_; i++) { int d = ND_ == 4 ? 3 + r.below(7) : 6 + r.below(10); v *= d; s += (s.empty() ? "" : "x") + fmt("%d", d); }
    if (v < 500 || v > (k == K_REWRITE || k == K_GENERATE ? 3000 : 1300)) continue;
    p.set("dims", s); break;
  }
  auto cap = [&](const char *key, long long m) { if (p.num(key) > m) p.set(key, m); };
  if (k == K_HEATBATH) { cap("in.ITERS", 3); cap("in.OVER_ITERS", 1); cap("in.THERM", 1); }
  else if (k == K_SMEAR || k == K_WFLOW) { cap("in.SMITERS", 2); if (p.get("in.SMEARTYPE").compare(0, 2, "HY") == 0 || p.get("in.SMEARTYPE") == "HEX") cap("in.SMITERS", 1); }
  else cap("in.MAX_ITERS", 40);
}
// the slow path of the hypercubic smearings, taken when memory is short, is some thirty times dearer
void limit_cost(Plan &p) {
  str t = p.get("in.SMEARTYPE"); if (t.compare(0, 2, "HY") != 0 && t != "HEX") return;
  bool mem = false; for (auto &f : p.kv) if (f.first.compare(0, 3, "mem") == 0 && atoll(f.second.c_str()) > 0) mem = true;
  if (!mem || p.num("in.SMITERS") < 1) return;
  long long vol = 1; for (int x : plan_dims(p)) vol *= x;
  long long most = 3e8 / ((t == "HYP" ? 1.8e6 : 7e5) * vol);
  if (p.num("in.SMITERS") <= std::max(most, 1ll)) return;
  if (most < 1 && vol > 400) p.set("in.SMEARTYPE", t == "HEX" ? "STOUT" : "APE");
  else p.set("in.SMITERS", std::max(most, 1ll));
}
void gen_names(Plan &p, Rng &r) {
  auto word = [&](int n) { static const char a[] = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_.-+=:,%"; str s; while ((int)s.size() < n) s += a[r.below(sizeof a - 1)]; return s; };
  if (p.num("out") && p.get("outname").empty() && r.chance(0.15)) p.set("outname", r.chance(0.5) ? word(1 + r.below(100)) : "dir.x/" + word(20) + "/" + word(1 + r.below(60)));
  if (r.chance(0.15)) p.set("in.CONFIG_INFO", word(1 + r.below(60)));
  if (p.has("in.HEADER") && p.get("kind") != "heatbath" && r.chance(0.15)) { static const char *n[] = {"7", "99", "100", "4711", "123456", "999999999", "2147483646"}; p.set("in.CONFNO", n[r.below(7)]); }
}
bool decode_out(const Job &j, const RunOut &r, const str &name, model::Decoded &d, str &why) {
  if (!r.has(name)) { why = "file " + name + " does not exist"; return false; }
  return model::decode(r.file(name), j.in.at("STORAGE"), NC_, ND_, d, why);
}
bool claims_written(const RunOut &r) {
  size_t p = r.out.find("[IO] Configuration written to");
  return p != str::npos;
}

// C08, C09: gauge fixing
#include "common.h"
using model::Conf;
using model::cd;

static void gen_fix(Plan &p, Rng &r, int k) {
  gen_kind(p, r, k, r.chance(0.6));
  if (NC_ > 3) gen_dims(p, r, 48);
  static const int mi[] = {5, 30, 80, 150, 250}; p.set("in.MAX_ITERS", mi[r.below(5)]);
  p.set("in.ACCURACY", (long long)(3 + r.below(9)));
  if (VARIANT != "nc3or" && r.chance(0.1)) p.set("in.ACCURACY", (long long)(14 + r.below(6)));
  if (r.chance(0.75)) p.setd("rough", 0.03 + 0.17 * r.uni());
  p.set("in.STORAGE", r.chance(0.8) ? "NERSC_NCxNC" : NC_ <= 3 ? "NERSC_GAUGE" : "MILC");
  gen_env(p, r); gen_mem(p, r, 0.15);
}
// what holds for every output of a gauge fixing run; false if there is none or a violation was found
static bool transform_of_input(const Plan &p, Eval &e, const Job &j, const RunOut &r, model::Decoded &d) {
  str why;
  if (r.failed()) {
    if (!nonempty(r.err)) { fail(e, "silent-failure", "no message on standard error; standard output ends " + last_lines(r.out)); return false; }
    if (r.has(j.out)) { fail(e, "output-after-failure", "the run failed but left " + j.out); return false; }
    e.probes["not-fixed"]++; return false;
  }
  if (!decode_out(j, r, j.out, d, why)) { fail(e, "output-malformed", why); return false; }
  double tol = j.in.at("STORAGE") == "MILC" ? 3e-6 : 1e-9, u = model::unitarity(d.c); if (!(u < tol)) { fail(e, "not-unitary", fmt("output off SU(N) by %.3g", u)); return false; }
  Conf c = plan_conf(p); double x = model::loops_diff(c, d.c), lim = (eps_for(p) + (tol > 1e-8 ? 1e-6 : 0)) * 200;
  if (!(x < lim)) { fail(e, "not-a-gauge-transform", fmt("a closed loop changed by %.3g", x)); return false; }
  reported_averages(p, e, r, d.c);
  e.probes["fixed"]++; return !e.v.bad;
}

// ------------------------------------------------------------------ C08
static Plan c08_gen(u64 seed) {
  Plan p = start_plan("C08", seed); Rng r = seed_rng("C08", seed);
  gen_fix(p, r, K_LANDAU);
  return p;
}
static void c08_check(const Plan &p, Eval &e) {
  Pair t; if (!schedule_pair(p, e, t) || t.refused) return;
  model::Decoded d;
  if (!transform_of_input(p, e, t.jb, t.b, d)) return;
  double acc = pow(10.0, -(double)p.num("in.ACCURACY")), rep = number_after(t.b.out, "[GF] Accuracy :: "), th = model::theta_lin(d.c, ND_);
  double floor = p.get("in.STORAGE") == "MILC" ? 1e-12 : 1e-26;
  if (!(rep <= acc * 1.0001)) { fail(e, "claims-fixed", fmt("success with a reported accuracy of %g where %g was asked for", rep, acc)); return; }
  e.probes["converged"]++;
  // the reported accuracy is measured just before the last, usually improving, step
  if (VARIANT != "nc3or") { if (!(th <= rep * 10 + floor)) fail(e, "not-fixed", fmt("reported accuracy %g, the output has %g", rep, th)); }
  // the over-relaxed fixing stops on the change of its functional, which bounds the gradient only loosely
  else if (!(th < (acc <= 1e-8 ? 1e-2 : 1))) fail(e, "not-fixed", fmt("over-relaxed to %g, the output has %g", rep, th));
}

// ------------------------------------------------------------------ C09
static Plan c09_gen(u64 seed) {
  Plan p = start_plan("C09", seed); Rng r = seed_rng("C09", seed);
  static const int k[] = {K_COULOMB, K_COULOMB, K_COULRES, K_COULRES, K_MAG, K_AXIALT};
  gen_fix(p, r, k[r.below(6)]);
  return p;
}
static double off_identity(const Conf &c, size_t s, int m) {
  double w = 0; const cd *u = c.link(s, m);
  for (int i = 0; i < c.nc; i++) for (int j = 0; j < c.nc; j++) w = std::max(w, std::abs(u[i * c.nc + j] - cd(i == j)));
  return w;
}
static void c09_check(const Plan &p, Eval &e) {
  Pair t; if (!schedule_pair(p, e, t) || t.refused) return;
  model::Decoded d;
  if (!transform_of_input(p, e, t.jb, t.b, d)) return;
  str kind = p.get("kind"); const Conf &c = d.c; int x[8], T = c.nd - 1;
  double tol = (p.get("in.STORAGE") == "MILC" ? 1e-5 : 1e-9) + 50 * eps_for(p);
  if (kind == "mag" || kind == "axial") {
    double w = 0;
    for (size_t s = 0; s < c.vol; s++) {
      c.coord(s, x);
      for (int m = kind == "mag" ? 0 : T; m <= T; m++) {
        bool tree = x[m] < c.L[m] - 1; for (int n = m + 1; n <= T; n++) tree = tree && x[n] == 0;
        if (tree) w = std::max(w, off_identity(c, s, m));
      }
    }
    if (!(w < tol)) fail(e, "not-fixed", fmt("a link that the gauge sets to one is off by %g", w));
    return;
  }
  double acc = pow(10.0, -(double)p.num("in.ACCURACY"));
  double floor = p.get("in.STORAGE") == "MILC" ? 1e-12 : 1e-26;
  for (int s = 0; s < c.L[T]; s++) {
    str key = fmt("[GF] Slice :: %d ", s); size_t q = t.b.out.rfind(key);
    if (q == str::npos) { fail(e, "unreported-slice", fmt("nothing reported about timeslice %d", s)); return; }
    str rest = t.b.out.substr(q, 300);
    double th = model::theta_lin(c, T, s), rep = number_after(rest, "[GF] Accuracy :: ");
    bool conv = rest.find("{Stopped by convergence}") < rest.find('\n');
    if (getenv("SIM_CAL")) fprintf(stderr, "CAL %s slice %d conv %d acc %g rep %g theta %g ratio %g\n", kind.c_str(), s, conv, acc, rep, th, th / rep);
    if (!conv) { e.probes["slice-not-converged"]++; continue; }
    e.probes["slice-converged"]++;
    if (!(rep <= acc * 1.0001)) { fail(e, "claims-fixed", fmt("slice %d stopped by convergence at %g where %g was asked for", s, rep, acc)); return; }
    if (VARIANT != "nc3or" ? !(th <= rep * 10 + floor) : !(th < (acc <= 1e-8 ? 1e-2 : 1))) { fail(e, "not-fixed", fmt("slice %d reported accuracy %g, the output has %g", s, rep, th)); return; }
  }
  if (kind == "coulomb-residual") {   // the average temporal link of every slice but the last is proportional to its projection, the identity
    size_t n3 = c.vol / c.L[T]; int n = c.nc; double w = 0;
    for (int s = 0; s < c.L[T] - 1; s++) {
      std::vector<cd> m(n * n); for (size_t i = s * n3; i < (s + 1) * n3; i++) for (int k = 0; k < n * n; k++) m[k] += c.link(i, T)[k] / (double)n3;
      double tr = 0; for (int i = 0; i < n; i++) tr += m[i * n + i].imag();
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { cd h = (m[i * n + j] - std::conj(m[j * n + i])) / cd(0, 2); if (i == j) h -= tr / n; w = std::max(w, std::abs(h)); }
    }
    if (!(w < 1e-5 + 10 * eps_for(p))) { fail(e, "not-fixed", fmt("average temporal link of a slice %g off its projection", w)); return; }
    if (getenv("SIM_CAL")) fprintf(stderr, "CAL residual %g rough %s\n", w, p.get("rough").c_str());
  }
}
void add_fix(PropList &L) {
  L.push_back({"C08", c08_gen, c08_check});
  L.push_back({"C09", c09_gen, c09_check});
}

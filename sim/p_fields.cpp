// C10, C11, C12, C18: smearing, flow, observables, U(1)
#include "common.h"
#include <algorithm>
#include <cstring>
using model::Conf;
using model::cd;

// ------------------------------------------------------------------ relations between runs
// A symmetry of the field: a gauge rotation, a lattice translation or an exchange of two directions
struct Sym {
  int kind = 0; u64 seed = 0; double rough = 0.3; std::vector<int> shift; int a = 0, b = 1;
  Conf operator()(Conf c) const {
    if (kind == 1) { model::gauge_transform(c, seed, rough); return c; }
    if (kind == 2) return translate(c, shift);
    return swap_axes(c, a, b);
  }
  str name() const { return kind == 1 ? "gauge transformation" : kind == 2 ? "translation" : fmt("exchange of directions %d and %d", a, b); }
};
static Sym gen_sym(const Plan &p, int kind, bool spatial) {
  Sym s; s.kind = kind; Rng r(p.num("relseed"));
  s.seed = 1 + r.below(1000000); s.rough = r.chance(0.3) ? -1 : 0.2 + r.uni();
  auto L = plan_dims(p);
  for (int m = 0; m < ND_; m++) s.shift.push_back(spatial && m == ND_ - 1 ? 0 : r.below(L[m]));
  int n = spatial ? ND_ - 1 : ND_; s.a = r.below(n); do s.b = r.below(n); while (s.b == s.a);
  return s;
}
static void set_conf(const Plan &p, Job &j, const Conf &c) {
  j.files[p.get("confname", "conf")] = model::encode(c, plan_fmt(p)); j.dims = c.L;
  for (int m = 0; m < ND_; m++) if (j.in.count(fmt("DIM_%d", m))) j.in[fmt("DIM_%d", m)] = fmt("%d", c.L[m]);
}
// runs the perturbed job on the transformed configuration
static bool run_sym(const Plan &p, Eval &e, const Pair &t, const Sym &s, Job &j, RunOut &r) {
  j = t.jb; set_conf(p, j, s(plan_conf(p))); j.strat = sim::S_SYNCONLY; j.faults.clear();
  r = exec(j, e);
  return !abnormal_bad(e, r, "run on the field after a " + s.name());
}
static str numbers_diff(const str &a, const str &b, double rel, double abs_) {
  auto x = numbers_in(a), y = numbers_in(b);
  if (x.size() != y.size()) return fmt("%zu numbers against %zu", x.size(), y.size());
  for (size_t i = 0; i < x.size(); i++) if (!(std::fabs(x[i] - y[i]) <= abs_ + rel * std::max(std::fabs(x[i]), std::fabs(y[i])))) return fmt("%.15g against %.15g", x[i], y[i]);
  return "";
}

// ------------------------------------------------------------------ C10
static Plan c10_gen(u64 seed) {
  Plan p = start_plan("C10", seed); Rng r = seed_rng("C10", seed);
  gen_kind(p, r, K_SMEAR, r.chance(0.6));
  p.set("relseed", (long long)r.below(1000000000));
  p.set("in.RANDOM_TRANSFORM", "NO");
  static const char *ck[] = {"threads", "gauge", "translate", "swap", "null", "plain"};
  str c = ck[r.below(6)]; p.set("check", c);
  if (c != "plain") { p.set("in.STORAGE", "NERSC_NCxNC"); p.set("fmt.dbl", 1); }
  if (c == "null") { if (r.chance(0.5)) p.set("in.SMITERS", 0ll); else { for (int k = 1; k <= 3; k++) p.set(fmt("in.ALPHA%d", k), "0"); } if (r.chance(0.2)) p.set("in.SMEARTYPE", "NONE"); }
  gen_env(p, r); gen_mem(p, r, 0.4);
  return p;
}
static void c10_check(const Plan &p, Eval &e) {
  str ck = p.get("check");
  Pair t; if (!schedule_pair(p, e, t, CmpOpt(), ck == "threads" ? 1 + (int)(p.num("relseed") % 8) : 0) || t.refused) return;
  if (t.b.failed()) { if (!nonempty(t.b.err)) fail(e, "silent-failure", last_lines(t.b.out)); return; }
  model::Decoded d; str why;
  if (!decode_out(t.jb, t.b, t.jb.out, d, why)) { fail(e, "output-malformed", why); return; }
  double tol = t.jb.in.at("STORAGE") == "MILC" ? 3e-6 : 1e-9, u = model::unitarity(d.c);
  if (!(u < tol)) { fail(e, "not-unitary", fmt("output off SU(N) by %.3g", u)); return; }
  reported_averages(p, e, t.b, d.c); if (e.v.bad) return;
  Conf in = plan_conf(p); double eps = eps_for(p);
  if (p.get("in.DIRECTION") == "SPATIAL") {
    double w = 0; int T = ND_ - 1, n2 = NC_ * NC_;
    for (size_t s = 0; s < in.vol; s++) for (int k = 0; k < n2; k++) w = std::max(w, std::abs(in.link(s, T)[k] - d.c.link(s, T)[k]));
    if (!(w < tol + 10 * eps)) { fail(e, "temporal-links-changed", fmt("smearing spatial links changed a temporal link by %g", w)); return; }
  }
  if (ck == "null") { double w = model::max_diff(in, d.c); if (!(w < tol + 10 * eps)) fail(e, "null-smearing", fmt("smearing that does nothing changed a link by %g", w)); else e.probes["null"]++; return; }
  int kind = ck == "gauge" ? 1 : ck == "translate" ? 2 : ck == "swap" ? 3 : 0;
  if (!kind) return;
  Sym s = gen_sym(p, kind, p.get("in.DIRECTION") == "SPATIAL" && kind == 3);
  Job j; RunOut r; if (!run_sym(p, e, t, s, j, r)) return;
  if (j.mem && refused_memory(r)) return;
  model::Decoded d2;
  if (!r.ok() || !decode_out(j, r, j.out, d2, why)) { fail(e, "not-covariant", "after a " + s.name() + " the run " + r.describe() + " " + why + last_lines(r.err)); return; }
  double w = model::max_diff(s(d.c), d2.c);
  e.probes[ck]++;
  if (getenv("SIM_CAL")) fprintf(stderr, "CAL %s %s %s diff %g\n", ck.c_str(), p.get("in.SMEARTYPE").c_str(), p.get("in.DIRECTION").c_str(), w);
  if (!(w < 1e-10)) fail(e, "not-covariant", fmt("smearing does not commute with a %s: links differ by %g", s.name().c_str(), w));
}

// ------------------------------------------------------------------ C12
static const char *CUTS[] = {"EXCEPTIONAL", "NON_EXCEPTIONAL", "FIELDS", "SMEARED_GLUONS", "INSTANTANEOUS_GLUONS", "CONFIGSPACE_GLUONS", "GLUON_PROPS", "STATIC_POTENTIAL", "TOPOLOGICAL_CORRELATOR", "TOPOLOGICAL_SUSCEPTIBILITY", "TOPOLOGICAL_MOMENTS"};
static Plan c12_gen(u64 seed) {
  Plan p = start_plan("C12", seed); Rng r = seed_rng("C12", seed);
  double w = r.uni();
  if (w < 0.2) { gen_kind(p, r, K_REWRITE, r.chance(0.6)); p.set("out", 0ll); }
  else if (w < 0.82) gen_kind(p, r, K_CUT, r.chance(0.6));
  else { static const int k[] = {K_HEATBATH, K_HEATBATH, K_HEATBATH, K_SMEAR, K_SMEAR, K_WFLOW, K_LANDAU, K_COULOMB, K_U1, K_GENERATE}; gen_kind(p, r, k[r.below(10)], true); if (r.chance(0.5)) p.set("out", 0ll); }
  p.set("relseed", (long long)r.below(1000000000));
  bool cut = p.get("kind") == "cut", other = !cut && p.get("kind") != "rewrite";
  if (!other) p.set("in.RANDOM_TRANSFORM", "NO");
  static const char *ck[] = {"threads", "symmetry", "model", "model", "plain"};
  str c = other ? "plain" : ck[r.below(5)];
  if (c == "symmetry" || c == "model") p.set("fmt.dbl", 1);
  if (c == "symmetry") {
    c = r.chance(0.5) ? "gauge" : "translate";
    if (cut) {
      static const int gi[] = {8, 9, 10}, ti[] = {0, 1, 3, 4, 5, 6, 7, 8, 9};
      p.set("in.CUTTYPE", CUTS[c == "gauge" ? gi[r.below(3)] : ti[r.below(9)]]);
      if (p.num("in.MAXMOM") > 2) p.set("in.MAXMOM", (long long)(1 + r.below(2)));
    }
    if (c == "translate" || r.chance(0.5)) gen_dims(p, r, 100 + r.below(150), false, 3);
  }
  if (c == "translate" && !HAVE_FFT_ && p.get("in.CUTTYPE") == "CONFIGSPACE_GLUONS") p.set("in.MAX_T", 1);   // it samples only every MAX_T-th source
  if (c == "model" && cut) {
    static const int mi[] = {0, 0, 2, 3, 3, 4, 5, 6, 7, 7, 8, 9, 10}; p.set("in.CUTTYPE", CUTS[mi[r.below(13)]]);
    p.set("in.FIELD_DEFINITION", r.chance(0.3) ? "LOGARITHMIC" : "LINEAR"); if (r.chance(0.5)) p.set("in.SMITERS", 0ll);
    if (p.num("in.MAX_T") < 2) p.set("in.MAX_T", 2);
    str q = p.get("in.CUTTYPE"); if (q == "GLUON_PROPS" || q == "SMEARED_GLUONS" || q == "EXCEPTIONAL" || q == "FIELDS" || q == "INSTANTANEOUS_GLUONS") { p.set("in.MAXMOM", (long long)(1 + r.below(2))); gen_dims(p, r, 100 + r.below(150), false, 3); }
  }
  if (NC_ > 3 && (c == "translate" || c == "model")) gen_dims(p, r, 81, false, ND_ == 4 && c == "translate" ? 3 : 2);
  if (c == "model" && cut && p.get("in.CUTTYPE") == "TOPOLOGICAL_MOMENTS" && NC_ <= 3 && r.chance(0.3)) gen_long_dims(p, r, 320);
  p.set("check", c);
  gen_env(p, r); gen_mem(p, r, 0.3);
  return p;
}
// big-endian measurement files
struct Rd {
  const str &b; size_t at = 0; bool bad = false; Rd(const str &s) : b(s) {}
  uint32_t u32() { if (at + 4 > b.size()) { bad = true; return 0; } uint32_t v = 0; for (int i = 0; i < 4; i++) v = v << 8 | (unsigned char)b[at++]; return v; }
  double f64() { if (at + 8 > b.size()) { bad = true; return 0; } u64 v = 0; for (int i = 0; i < 8; i++) v = v << 8 | (unsigned char)b[at++]; double d; memcpy(&d, &v, 8); return d; }
  std::vector<double> block(size_t per) { size_t n = u32(); std::vector<double> v; if (bad || n * per * 8 > b.size()) { bad = true; return v; } for (size_t i = 0; i < n * per; i++) v.push_back(f64()); return v; }
  std::vector<std::vector<int>> moms(int dir) {
    size_t n = u32(); std::vector<std::vector<int>> v; if (bad || n * 4 > b.size()) { bad = true; return v; }
    for (size_t i = 0; i < n; i++) { if ((int)u32() != dir) bad = true; std::vector<int> k; for (int m = 0; m < dir; m++) k.push_back((int)u32()); v.push_back(k); }
    return v;
  }
  bool end() const { return !bad && at == b.size(); }
};
static cd tr_of(const cd *m) { cd t = 0; for (int i = 0; i < NC_; i++) t += m[i * NC_ + i]; return t; }
static cd tr_ab(const cd *a, const cd *b) { cd t = 0; for (int i = 0; i < NC_; i++) for (int k = 0; k < NC_; k++) t += a[i * NC_ + k] * b[k * NC_ + i]; return t; }
static cd tr_abdag(const cd *a, const cd *b) { cd t = 0; for (int i = 0; i < NC_ * NC_; i++) t += a[i] * std::conj(b[i]); return t; }
// traceless (U - U^dag)/2i
static model::Mat herm(const cd *u) {
  model::Mat h(NC_ * NC_); cd t = 0;
  for (int i = 0; i < NC_; i++) for (int k = 0; k < NC_; k++) h[i * NC_ + k] = (u[i * NC_ + k] - std::conj(u[k * NC_ + i])) / cd(0, 2);
  for (int i = 0; i < NC_; i++) t += h[i * NC_ + i];
  for (int i = 0; i < NC_; i++) h[i * NC_ + i] -= t / (double)NC_;
  return h;
}
// exp(i a h) for a hermitian h
static model::Mat exp_ih(const model::Mat &h, double a) {
  int n2 = NC_ * NC_; double nn = 0; for (auto &z : h) nn += std::norm(z); nn = std::sqrt(nn) * std::fabs(a);
  int k = 0; while (nn > 0.25) nn /= 2, k++;
  model::Mat x(n2), t(n2), s(n2), o(n2); for (int i = 0; i < n2; i++) x[i] = cd(0, a / std::pow(2.0, k)) * h[i];
  for (int i = 0; i < NC_; i++) s[i * NC_ + i] = t[i * NC_ + i] = 1;
  for (int j = 1; j < 16; j++) { model::mul(NC_, t.data(), x.data(), o.data()); for (int i = 0; i < n2; i++) t[i] = o[i] / (double)j, s[i] += t[i]; }
  while (k--) { model::mul(NC_, s.data(), s.data(), o.data()); s = o; }
  return s;
}
// h with exp(ih) = u for links not far from one
static model::Mat log_su(const cd *u) {
  int n2 = NC_ * NC_; model::Mat h = herm(u), o(n2);
  for (int it = 0; it < 60; it++) {
    auto x = exp_ih(h, -1); model::mul(NC_, x.data(), u, o.data()); auto d = herm(o.data()); double w = 0; for (int i = 0; i < n2; i++) h[i] += d[i], w = std::max(w, std::abs(d[i]));
    if (w < 1e-15) break;
  }
  return h;
}
// the path from s along steps +-(mu+1), as a product of links
static model::Mat path(const Conf &c, size_t s, std::initializer_list<int> steps) {
  model::Mat m(NC_ * NC_), o(NC_ * NC_); for (int i = 0; i < NC_; i++) m[i * NC_ + i] = 1;
  for (int d : steps) {
    int mu = std::abs(d) - 1;
    if (d > 0) { model::mul(NC_, m.data(), c.link(s, mu), o.data()); s = c.fwd(s, mu); }
    else { s = c.bck(s, mu); model::mul_dag(NC_, m.data(), c.link(s, mu), o.data()); }
    m = o;
  }
  return m;
}
static model::Mat clover(const Conf &c, size_t s, int mu, int nu) {
  int a = mu + 1, b = nu + 1; model::Mat m(NC_ * NC_);
  for (auto &l : {path(c, s, {a, b, -a, -b}), path(c, s, {-b, a, b, -a}), path(c, s, {-a, -b, a, b}), path(c, s, {b, -a, -b, a})}) for (int i = 0; i < NC_ * NC_; i++) m[i] += l[i];
  return herm(m.data());
}
static std::vector<double> charge_density(const Conf &c) {
  std::vector<double> q(c.vol, 0.0); if (ND_ != 4) return q;
  static const int d[3][4] = {{3, 0, 1, 2}, {3, 1, 2, 0}, {3, 2, 0, 1}};
  for (size_t s = 0; s < c.vol; s++) for (auto &x : d) q[s] += tr_ab(clover(c, s, x[0], x[1]).data(), clover(c, s, x[2], x[3]).data()).real();
  for (auto &x : q) x *= -1.0 / (64 * M_PI * M_PI);
  return q;
}
static size_t shifted(const Conf &c, size_t s, const std::vector<int> &d) { int x[8]; c.coord(s, x); for (size_t m = 0; m < d.size(); m++) x[m] = ((x[m] + d[m]) % c.L[m] + c.L[m]) % c.L[m]; return c.site(x); }
struct Near {
  Eval &e; double rel, abs_; bool ok = true;
  bool operator()(const str &what, double got, double want, double scale) {
    if (getenv("SIM_CAL")) fprintf(stderr, "CAL model %s err %.2g\n", what.c_str(), std::fabs(got - want) / (scale + 1e-300));
    if (ok && !(std::fabs(got - want) <= abs_ + rel * std::max(scale, std::fabs(want)))) { ok = false; fail(e, "wrong-value", fmt("%s reported as %.12g, is %.12g", what.c_str(), got, want)); }
    return ok;
  }
};
// values after "text" on the first line that contains it
static bool line_numbers(const str &out, const str &text, std::vector<double> &v) { auto l = lines_with(out, text); if (l.empty()) return false; size_t q = l[0].find(text); v = numbers_in(l[0].substr(q + text.size())); return true; }
// elementary loops and traces as printed by the default mode and for every configuration read
static void c12_elementary(const Plan &p, Eval &e, const RunOut &r) {
  Conf c = plan_conf(p); int T = ND_ - 1; Near near{e, 1e-9, 1e-10}; std::vector<double> v;
  if (line_numbers(r.out, "[IO] Calculated Trace :: ", v) && !v.empty()) near("link trace", v[0], model::linktrace(c), 1);
  if (p.get("kind") != "rewrite") return;
  double sp = 0, tp = 0, sl = 0, tl = 0; int ns = 0, nt = 0;
  for (int m = 1; m < ND_; m++) for (int n = 0; n < m; n++) { double x = model::plane_plaq(c, m, n); if (m == T) tp += x, nt++; else sp += x, ns++; }
  for (int m = 0; m < ND_; m++) { double x = 0; for (size_t s = 0; s < c.vol; s++) x += tr_of(c.link(s, m)).real() / NC_ / c.vol; (m == T ? tl : sl) += x; }
  auto want = [&](const str &k, double w) { std::vector<double> g; str key = k.substr(0, 5) == "PLAQS" || k.substr(0, 5) == "LINKS" ? fmt("[%s SU(%d)%s", k.substr(0, 5).c_str(), NC_, k.size() > 5 ? (k.substr(5) + "]").c_str() : "]") : k; if (!line_numbers(r.out, key, g) || g.empty()) { if (near.ok) { near.ok = false; fail(e, "missing-value", key + " is not reported"); } return; } near(key, g.back(), w, 1); };
  want("PLAQS", (sp + tp) / (ns + nt)); want("PLAQS spatial", sp / ns); want("PLAQS temporal", tp / nt);
  want("LINKS", (sl + tl) / ND_); want("LINKS spatial", sl / (ND_ - 1)); want("LINKS temporal", tl);
  for (int m = 0; m < ND_; m++) {
    cd w = model::polyakov(c, m); w *= (double)c.L[m] / c.vol / NC_;
    if (!line_numbers(r.out, fmt("[POLY SU(%d) DIR_%d]", NC_, m), v) || v.size() < 2) { fail(e, "missing-value", "Polyakov line is not reported"); return; }
    Near pn{e, 2e-6, 1e-10}; pn(fmt("real part of the Polyakov line in direction %d", m), v[0], w.real(), std::abs(w)); pn("its imaginary part", v[1], w.imag(), std::abs(w)); if (v.size() > 2) pn("its modulus", v[2], std::abs(w), 0);
    if (!pn.ok) return;
  }
  Near gn{e, 2e-6, 1e-20};
  if (line_numbers(r.out, "[GFACC LANDAU]      LIN :: ", v) && !v.empty()) gn("Landau condition", v[0], 4 * model::theta_lin(c, ND_), 0);
  if (line_numbers(r.out, "[GFACC COULOMB]     LIN :: ", v) && !v.empty()) gn("Coulomb condition", v[0], 4 * model::theta_lin(c, ND_ - 1), 0);
  e.probes["model rewrite"]++;
}
// the input field after n rounds of smearing, as the smearing mode writes it
static bool smeared_field(const Plan &p, Eval &e, const Job &base, int rounds, Conf &c) {
  c = plan_conf(p); long long it = p.num("in.SMITERS") * rounds; str ty = p.get("in.SMEARTYPE");
  if (!it || ty == "NONE") return true;
  Job j = base; j.in["MODE"] = "SMEARING"; j.in["SMITERS"] = fmt("%lld", it); j.out = "smeared"; j.argv = {"GLU", "-i", "in", "-c", p.get("confname", "conf"), "-o", "smeared"}; j.in["STORAGE"] = "NERSC_NCxNC"; j.nt = 1; j.strat = sim::S_SYNCONLY; j.faults.clear(); j.mem = 0;
  RunOut r = exec(j, e); model::Decoded d; str why;
  if (abnormal_bad(e, r, "smearing run")) return false;
  if (!r.ok() || !decode_out(j, r, "smeared", d, why)) { fail(e, "SIMFAIL", "smearing run " + r.describe() + why); return false; }
  c = d.c; return true;
}
// Fourier components of the links' vector potential at the middle of the links: B[mu] at integer momentum k
static std::vector<model::Mat> potential(const Conf &c, const std::vector<model::Mat> &A, const std::vector<int> &k, int slice = -1) {
  std::vector<model::Mat> B(ND_, model::Mat(NC_ * NC_)); size_t dir = k.size(), lcu = c.vol / c.L[ND_ - 1];
  for (size_t s = slice < 0 ? 0 : slice * lcu; s < (slice < 0 ? c.vol : (slice + 1) * lcu); s++) {
    int x[8]; c.coord(s, x); double ph = 0; for (size_t m = 0; m < dir; m++) ph += 2 * M_PI * k[m] * x[m] / c.L[m];
    for (int m = 0; m < ND_; m++) { cd w = std::polar(1.0, ph + (m < (int)dir ? M_PI * k[m] / c.L[m] : 0)); auto &a = A[s * ND_ + m]; for (int q = 0; q < NC_ * NC_; q++) B[m][q] += w * a[q]; }
  }
  return B;
}
static std::vector<model::Mat> links_A(const Conf &c, bool lg) { std::vector<model::Mat> A; for (size_t s = 0; s < c.vol; s++) for (int m = 0; m < ND_; m++) A.push_back(lg ? log_su(c.link(s, m)) : herm(c.link(s, m))); return A; }
static void c12_measured(const Plan &p, Eval &e, const Job &j, const RunOut &r) {
  Conf c = plan_conf(p); str cut = p.get("in.CUTTYPE"); int T = ND_ - 1; Near near{e, 1e-8, 1e-12};
  auto &L = c.L; size_t lcu = c.vol / L[T]; bool lg = p.get("in.FIELD_DEFINITION") == "LOGARITHMIC";
  std::vector<std::pair<str, str>> made; for (auto &f : r.files) if (!j.files.count(f.first) && f.first != "in") made.push_back(f);
  auto malformed = [&](const str &n) { fail(e, "measurement-malformed", n + " is not of the documented layout"); };
  if (cut == "CONFIGSPACE_GLUONS" || cut == "STATIC_POTENTIAL") if (!smeared_field(p, e, j, 1, c)) return;
  if (cut == "GLUON_PROPS" || cut == "SMEARED_GLUONS" || cut == "EXCEPTIONAL" || cut == "FIELDS" || cut == "INSTANTANEOUS_GLUONS") {
    if (!HAVE_FFT_) return;
    if (r.err.find("NON +/-") != str::npos) { e.probes["unpaired-momenta"]++; return; }
    if (made.size() != 1) return malformed("the set of files");
    bool inst = cut == "INSTANTANEOUS_GLUONS"; int dir = inst ? T : ND_; double nn = NC_ * NC_ - 1.0, V = c.vol;
    Rd f(made[0].second); auto k = f.moms(dir); size_t n = k.size(); if (f.bad || n % 2 == 0) return malformed(made[0].first);
    for (size_t i = 0; i < n; i++) for (int m = 0; m < dir; m++) if (k[i][m] != -k[n - 1 - i][m] && std::abs(2 * k[i][m]) != L[m]) return malformed(made[0].first + " (the momentum list is not in pairs)");
    std::vector<double> g, h; if (cut != "FIELDS") { g = f.block(1); h = f.block(1); if (!f.end() || g.size() != n || h.size() != n) return malformed(made[0].first); }
    else { if (f.u32() != n) return malformed(made[0].first); for (size_t i = 0; i < n * ND_ * NC_ * NC_ * 2; i++) g.push_back(f.f64()); if (!f.end()) return malformed(made[0].first); }
    Conf cs; std::vector<model::Mat> A = links_A(c, lg), As; if (cut == "SMEARED_GLUONS") { if (!smeared_field(p, e, j, 1, cs)) return; As = links_A(cs, lg); }
    auto zero = potential(c, A, std::vector<int>(dir, 0)); double big = 0; for (auto &m : A) for (auto &z : m) big += std::abs(z);
    for (size_t i = 0; i < n; i++) {
      double mom[8], p2 = 0; str at = "at momentum"; for (int m = 0; m < dir; m++) { mom[m] = 2 * sin(M_PI * k[i][m] / L[m]); p2 += mom[m] * mom[m]; at += fmt(" %d", k[i][m]); }
      bool mid = i == (n - 1) / 2, z2 = p2 < 1e-12;
      if (inst) {
        double sp = 0, tp = 0, sc = 0;
        for (int t = 0; t < L[T]; t++) { auto B = potential(c, A, k[i], t), D = potential(c, A, k[n - 1 - i], t); for (int m = 0; m < ND_; m++) { (m == T ? tp : sp) += tr_ab(B[m].data(), D[m].data()).real(); sc += tr_abdag(B[m].data(), B[m].data()).real(); } }
        double no = 2 / (nn * (mid ? ND_ - 1 : ND_ - 2) * V); if (!near("spatial propagator " + at, g[i], sp * no, sc * no) || !near("temporal propagator " + at, h[i], tp * no, sc * no)) return;
        continue;
      }
      auto B = potential(c, A, k[i]);
      if (cut == "FIELDS") { for (int m = 0; m < ND_; m++) for (int q = 0; q < NC_ * NC_; q++) { size_t o = 2 * ((i * ND_ + m) * NC_ * NC_ + q); if (!near("vector potential " + at, g[o], B[m][q].real(), big) || !near("vector potential " + at, g[o + 1], B[m][q].imag(), big)) return; } continue; }
      if (cut == "EXCEPTIONAL") {
        auto D = potential(c, A, k[n - 1 - i]); double g2 = 0, sc = 0, q2 = z2 ? 1 : p2; model::Mat AA(NC_ * NC_), R(NC_ * NC_), P(NC_ * NC_), M(NC_ * NC_), o(NC_ * NC_);
        for (int m = 0; m < ND_; m++) { g2 += tr_ab(B[m].data(), D[m].data()).real(); sc += tr_abdag(B[m].data(), B[m].data()).real(); model::mul(NC_, B[m].data(), D[m].data(), o.data()); for (int q = 0; q < NC_ * NC_; q++) { AA[q] += o[q]; R[q] += mom[m] * zero[m][q]; P[q] += mom[m] * B[m][q]; M[q] -= mom[m] * D[m][q] / q2; } }
        model::mul(NC_, R.data(), P.data(), o.data()); cd g3 = (tr_ab(AA.data(), R.data()) + tr_ab(o.data(), M.data())) / q2; double rs = 0; for (auto &x : R) rs += std::norm(x); rs = std::sqrt(rs);
        double n2 = 2 / (nn * (mid ? ND_ : ND_ - 1) * V), n3 = 4 / (2.0 * NC_ * nn * (ND_ - 1) * V); if (!near("two-point function " + at, g[i], g2 * n2, sc * n2) || !near("three-point function " + at, h[i], g3.real() * n3, sc * rs / q2 * n3)) return;
        continue;
      }
      auto trans = [&](const std::vector<model::Mat> &B, double &tt, double &ll) { tt = ll = 0; for (int m = 0; m < ND_; m++) for (int n = 0; n < ND_; n++) { double x = tr_abdag(B[m].data(), B[n].data()).real(), y = z2 ? 0 : mom[m] * mom[n] / p2 * x; tt += (m == n ? x : 0) - y; ll += y; } };
      double tt, ll; trans(B, tt, ll);
      if (cut == "SMEARED_GLUONS") { bool self = true; for (int m = 0; m < ND_; m++) if (2 * k[i][m] % L[m]) self = false; double ts, ls; trans(potential(cs, As, k[i]), ts, ls); double no = 2 / (nn * (mid || self ? ND_ : ND_ - 1) * V); if (!near("gluon propagator " + at, g[i], tt * no, std::fabs(tt * no)) || !near("gluon propagator of the smeared field " + at, h[i], ts * no, std::fabs(ts * no))) return; continue; }
      double gt = 2 * tt / (nn * (z2 ? ND_ : ND_ - 1) * V), gl = 2 * ll / (nn * V);
      if (!near("transverse gluon propagator " + at, g[i], gt, std::fabs(gt)) || !near("longitudinal gluon propagator " + at, h[i], gl, std::fabs(gt))) return;
    }
  } else if (cut == "CONFIGSPACE_GLUONS") {
    if (!HAVE_FFT_) return;
    if (made.size() != 1) return malformed("the set of files");
    Rd f(made[0].second); size_t n = f.u32(); for (size_t i = 0; i < n && !f.bad; i++) if (f.u32() != i) return malformed("list of time slices"); auto g = f.block(1); if (!f.end() || (int)n != L[T] || (int)g.size() != L[T]) return malformed(made[0].first);
    std::vector<model::Mat> S(L[T] * ND_, model::Mat(NC_ * NC_));    // slice sums
    for (size_t s = 0; s < c.vol; s++) for (int m = 0; m < ND_; m++) { auto h = lg ? log_su(c.link(s, m)) : herm(c.link(s, m)); for (int q = 0; q < NC_ * NC_; q++) S[(s / lcu) * ND_ + m][q] += h[q]; }
    for (int t = 0; t < L[T]; t++) { double w = 0, z = 0; for (int u = 0; u < L[T]; u++) for (int m = 0; m < ND_; m++) { w += tr_ab(S[u * ND_ + m].data(), S[(u + t) % L[T] * ND_ + m].data()).real(); z += tr_ab(S[u * ND_ + m].data(), S[u * ND_ + m].data()).real(); } double nn = 1.0 / ((ND_ - 1.0) * lcu); if (!near(fmt("configuration-space correlator at distance %d", t), g[t], w * nn, z * nn)) return; }
  } else if (cut == "STATIC_POTENTIAL") {
    if (made.size() != 1) return malformed("the set of files");
    Rd f(made[0].second); auto k = f.moms(ND_ - 1); uint32_t nt = f.u32(); if (f.bad || (long long)nt + 1 != p.num("in.MAX_T")) return malformed(made[0].first);
    std::vector<model::Mat> P; for (size_t s = 0; s < c.vol; s++) { model::Mat m(NC_ * NC_); for (int i = 0; i < NC_; i++) m[i * NC_ + i] = 1; P.push_back(m); }
    std::vector<size_t> at(c.vol); for (size_t s = 0; s < c.vol; s++) at[s] = s;
    for (uint32_t t = 1; t <= nt; t++) {
      model::Mat o(NC_ * NC_); for (size_t s = 0; s < c.vol; s++) { model::mul(NC_, P[s].data(), c.link(at[s], T), o.data()); P[s] = o; at[s] = c.fwd(at[s], T); }
      auto g = f.block(2), h = f.block(2); if (f.bad || g.size() != 2 * k.size() || h.size() != 2 * k.size()) return malformed(made[0].first);
      for (size_t i = 0; i < k.size(); i++) {
        cd w = 0, z = 0; auto d = k[i]; d.push_back(0);
        for (size_t s = 0; s < c.vol; s++) { size_t b = shifted(c, s, d); w += tr_abdag(P[s].data(), P[b].data()); z += tr_of(P[s].data()) * std::conj(tr_of(P[b].data())); }
        w /= L[T]; z /= L[T]; double sc = NC_ * NC_ * (double)lcu; str r3; for (int x : k[i]) r3 += fmt(" %d", x);
        // separations r and -r give complex conjugates: which of the two is meant is a convention
        near(fmt("static potential, T = %u, separation%s", t, r3.c_str()), g[2 * i], w.real(), sc); near("its imaginary part", std::fabs(g[2 * i + 1]), std::fabs(w.imag()), sc);
        near(fmt("Polyakov loop correlator, T = %u, separation%s", t, r3.c_str()), h[2 * i], z.real(), sc); if (!near("its imaginary part", std::fabs(h[2 * i + 1]), std::fabs(z.imag()), sc)) return;
      }
    }
    if (!f.end()) return malformed(made[0].first);
  } else {
    long long meas = p.num("in.MAX_T") - 1; std::vector<std::vector<double>> qs; std::vector<double> v;
    for (int k = 0; k <= meas; k++) { Conf x; if (!smeared_field(p, e, j, k, x)) return; qs.push_back(charge_density(x)); }
    auto absum = [](const std::vector<double> &q) { double a = 0; for (double x : q) a += std::fabs(x); return a; };
    // reported charges, in order of their measurement
    auto rl = lines_with(r.out, "[QTOP] Q "); std::map<long long, int> seen;
    for (auto &l : rl) {
      v = numbers_in(l.substr(l.find("[QTOP] Q ") + 9)); if (v.size() < 3 || v[0] < 0 || v[0] > meas) { fail(e, "wrong-value", "charge reported of a measurement that was not asked for: " + l); return; }
      long long k = (long long)v[0]; double Q = 0, ab = absum(qs[k]), q2 = 0; for (double x : qs[k]) Q += x, q2 += x * x; seen[k]++;
      if (!near(fmt("topological charge of measurement %lld", k), v[1], Q, ab) || !near("its square", v[2], Q * Q, ab * ab)) return;
      if (v.size() > 3 && !near("the sum of squares of the charge density", v[3], q2, 0)) return;
    }
    for (long long k = cut == "TOPOLOGICAL_SUSCEPTIBILITY" ? 0 : 1; k <= meas && cut != "TOPOLOGICAL_MOMENTS"; k++) if (!seen.count(k)) { fail(e, "missing-value", fmt("no charge reported for measurement %lld", k)); return; }
    auto number = [](const str &n, const char *tag) -> long long { size_t q = n.rfind(tag); return q == str::npos || !isdigit((unsigned char)n[q + strlen(tag)]) ? -1 : atoll(n.c_str() + q + strlen(tag)); };
    if (cut == "TOPOLOGICAL_SUSCEPTIBILITY") {
      int found = 0;
      for (auto &m : made) {
        size_t z = m.first.rfind(".tcorr_d"); if (z == str::npos) continue; int d = atoi(m.first.c_str() + z + 8); long long k = number(m.first, ".m"); if (d < 0 || d >= ND_ || k < 0 || k > meas) return malformed(m.first); found++;
        auto &q = qs[k]; double ab = absum(q);
        Rd f(m.second); size_t n = f.u32(); for (size_t i = 0; i < n && !f.bad; i++) if (f.u32() != i) return malformed(m.first); auto g = f.block(1); if (!f.end() || (int)g.size() != L[d]) return malformed(m.first);
        for (int t1 = 1; t1 <= L[d]; t1++) { double w = 0; for (int t0 = 0; t0 < L[d]; t0++) { double sl = 0; for (size_t s = 0; s < c.vol; s++) { int x[8]; c.coord(s, x); if (((x[d] - t0) % L[d] + L[d]) % L[d] < t1) sl += q[s]; } w += sl * sl / L[d]; } if (!near(fmt("slab susceptibility of measurement %lld, direction %d, thickness %d", k, d, t1), g[t1 - 1], w, ab * ab)) return; }
      }
      if (found != (meas + 1) * ND_) fail(e, "missing-value", fmt("%d slab files for %lld measurements", found, meas + 1));
    } else if (cut == "TOPOLOGICAL_CORRELATOR") {
      int found = 0;
      for (auto &m : made) {
        Rd f(m.second); long long k = number(m.first, ".m"); if (k < 0) k = number(m.first, "m"); if (getenv("SIM_CAL")) fprintf(stderr, "CAL file %s -> %lld\n", m.first.c_str(), k);
        if (k < 0 || k > meas) return malformed(m.first);
        auto &q = qs[k]; double ab = absum(q), q2 = 0; for (double x : q) q2 += x * x;
        if (m.first.size() > 6 && m.first.compare(m.first.size() - 6, 6, ".tcorr") == 0) {
          size_t n = f.u32(); for (size_t i = 0; i < n && !f.bad; i++) if (f.u32() != i) return malformed(m.first); auto g = f.block(1); if (!f.end() || (int)g.size() != L[T]) return malformed(m.first);
          std::vector<double> sl(L[T]); for (size_t s = 0; s < c.vol; s++) sl[s / lcu] += q[s];
          for (int t = 0; t < L[T]; t++) { double w = 0; for (int u = 0; u < L[T]; u++) w += sl[u] * sl[(u + t) % L[T]]; if (!near(fmt("temporal charge correlator at %d", t), g[t], w, ab * ab)) return; }
          found++; continue;
        }
        auto ks = f.moms(ND_); auto g = f.block(1); if (!f.end() || g.size() != ks.size()) return malformed(m.first);
        for (size_t i = 0; i < ks.size(); i++) { double w = 0; for (size_t s = 0; s < c.vol; s++) w += q[s] * q[shifted(c, s, ks[i])]; if (!near("charge correlator", g[i], w, q2)) return; }
        found++;
      }
      e.probes[fmt("correlator files %d of %lld", found, meas)]++;
    } else {
      for (auto &m : made) {
        bool sq = m.first.compare(0, 9, "Q2moment_") == 0; size_t z = m.first.find("_d"); if (z == str::npos) continue; int d = atoi(m.first.c_str() + z + 2); if (d < 0 || d >= ND_) return malformed(m.first);
        Rd f(m.second); if ((long long)f.u32() != meas) return malformed(m.first);
        for (long long n = 0; n < meas; n++) {
          auto &q = qs[n + 1]; double ab = absum(q), sc = 0; std::vector<double> sl(L[d], 0.0), co(L[d], 0.0);
          for (size_t s = 0; s < c.vol; s++) { int x[8]; c.coord(s, x); sl[x[d]] += q[s]; }
          if (sq) { for (int t = 0; t < L[d]; t++) for (int u = 0; u < L[d]; u++) co[t] += sl[u] * sl[(u + t) % L[d]]; sc = ab * ab; } else co = sl, sc = ab;
          auto g = f.block(1); if (f.bad || g.size() != 12) return malformed(m.first); double fac = 1;
          for (int k = 0; k < 12; k++) { if (k) fac *= k; double w = 0, mx = 0; for (int t = -L[d] / 2 + 1; t < L[d] / 2; t++) { w += pow((double)t, k) * co[(t + L[d]) % L[d]]; mx = std::max(mx, std::fabs(pow((double)t, k))); } w /= fac; if (k & 2) w = -w; if (!near(fmt("moment %d of the charge%s in direction %d, measurement %lld", k, sq ? " squared" : "", d, n), g[k], w, sc * mx / fac)) return; }
        }
        if (!f.end()) return malformed(m.first);
      }
    }
  }
  e.probes["model " + cut]++;
}
// every reported plaquette of a Monte-Carlo run whose configuration was saved, and what the other modes report about the field they wrote
static void c12_history(const Plan &p, Eval &e, const Job &j, const RunOut &r) {
  for (auto &l : lines_with(r.out, "{P}")) {
    long long i; double x; if (sscanf(l.c_str(), "[UPDATE] %lld :: {P} %lf", &i, &x) != 2) continue;
    str c = p.get("confname", "traj.start"), n = c.substr(0, c.find('.')) + fmt(".%lld", i), why; model::Decoded d; if (j.files.count(n) || !r.has(n) || !decode_out(j, r, n, d, why)) continue;
    double pl = model::plaquette(d.c); e.probes["saved trajectory"]++;
    if (!(std::fabs(pl - x) < 1e-9)) return fail(e, "wrong-value", fmt("plaquette of trajectory %lld reported as %.12g, is %.12g", i, x, pl));
  }
}
static void c12_reported(const Plan &p, Eval &e, const Job &j, const RunOut &r) {
  model::Decoded d; str why; if (j.out.empty() || j.files.count(j.out) || !decode_out(j, r, j.out, d, why)) return;
  reported_averages(p, e, r, d.c);
}
static void c12_check(const Plan &p, Eval &e) {
  str ck = p.get("check"), cut = p.get("kind") == "cut" ? p.get("in.CUTTYPE") : p.get("kind") == "rewrite" ? "REWRITE" : p.get("kind");
  Pair t; if (!schedule_pair(p, e, t, CmpOpt(), ck == "threads" ? 1 + (int)(p.num("relseed") % 8) : 0) || t.refused) return;
  if (t.b.failed()) { if (!nonempty(t.b.err)) fail(e, "silent-failure", last_lines(t.b.out)); return; }
  if (cut == "heatbath") c12_history(p, e, t.jb, t.b);
  if (cut == "smear" || cut == "landau" || cut == "coulomb") c12_reported(p, e, t.jb, t.b);
  if (ck == "model") { c12_elementary(p, e, t.b); if (!e.v.bad && cut != "REWRITE") c12_measured(p, e, t.jb, t.b); return; }
  if (ck != "gauge" && ck != "translate") return;
  if (t.b.err.find("NON +/-") != str::npos) { e.probes["unpaired-momenta"]++; return; }
  Sym s = gen_sym(p, ck == "gauge" ? 1 : 2, false);
  Job j; RunOut r; if (!run_sym(p, e, t, s, j, r)) return;
  if (j.mem && refused_memory(r)) return;
  CmpOpt o; o.skip_files = {p.get("confname", "conf")}; o.skip = {"race ::", "hecksum", "P-Space gauge fixing error", "Temporal constance"};
  if (ck == "gauge") for (auto w : {"GFACC", "LINKS", "GF accuracy", "race"}) o.skip.push_back(w);
  str d = diff_work(j, t.b, r, o);
  e.probes[ck + " " + cut]++;
  if (getenv("SIM_CAL")) fprintf(stderr, "CAL %s %s %s\n", ck.c_str(), cut.c_str(), d.c_str());
  if (!d.empty()) fail(e, ck == "gauge" ? "gauge-dependent" : "not-translation-invariant", cut + " after a " + s.name() + ": " + d);
}
// ------------------------------------------------------------------ C11
static Plan c11_gen(u64 seed) {
  Plan p = start_plan("C11", seed); Rng r = seed_rng("C11", seed);
  bool adapt = r.chance(0.4);
  gen_kind(p, r, adapt ? K_AFLOW : K_WFLOW, r.chance(0.7));
  p.set("relseed", (long long)r.below(1000000000));
  p.set("in.RANDOM_TRANSFORM", "NO");
  static const char *ck[] = {"threads", "gauge", "translate", "swap", "model", "model", "plain"};
  str c = ck[r.below(7)]; p.set("check", c);
  if (c != "plain") { p.set("in.STORAGE", "NERSC_NCxNC"); p.set("fmt.dbl", 1); }
  if (c == "model" && NC_ <= 3 && r.chance(0.7)) p.set("in.SMEARTYPE", adapt ? "ADAPTWFLOW_STOUT" : "WFLOW_STOUT");
  bool dear = NC_ > 3;
  if (!dear && r.chance(0.25)) { p.setd("rough", 0.3 + 0.5 * r.uni()); p.set("in.SMEARTYPE", adapt ? "ADAPTWFLOW_STOUT" : "WFLOW_STOUT"); p.set("in.SMITERS", (long long)(1 + r.below(14))); p.setd("in.ALPHA1", 0.05 + 0.1 * r.uni()); }   // scales t_0 and w_0 within reach
  if (!dear && (c == "threads" || c == "model" || c == "plain") && r.chance(0.14)) {   // flow to the end of the flow time
    int n = 130 + r.below(30); p.set("in.SMITERS", (long long)(n + r.below(2))); p.setd("in.ALPHA1", 20.0 / (n - 0.05 - 0.9 * r.uni())); p.setd("rough", 0.02 + 0.2 * r.uni());
    p.set("in.SMEARTYPE", adapt ? "ADAPTWFLOW_STOUT" : "WFLOW_STOUT"); gen_dims(p, r, 24, false, 2); p.set("overshoot", 1);
  }
  gen_env(p, r); if (!p.num("overshoot") || !adapt) gen_mem(p, r, 0.4);
  return p;
}
struct FlowLine { double err, t, dt, p, q, gt, gtp; bool stop; };
static double tagged(const str &l, const char *tag) { size_t q = l.find(tag); return q == str::npos ? NAN : atof(l.c_str() + q + strlen(tag)); }
static std::vector<FlowLine> flow_lines(const str &out) {
  std::vector<FlowLine> v;
  for (auto &l : lines_with(out, "{err}")) v.push_back({tagged(l, "{err}"), tagged(l, "{t}"), tagged(l, "{dt}"), tagged(l, "{p}"), tagged(l, "{q}"), tagged(l, "{Gt}"), tagged(l, "{GtP}"), l.find("TSTOP") != str::npos});
  return v;
}
static double clover_energy(const Conf &c) {
  double w = 0; for (size_t s = 0; s < c.vol; s++) for (int m = 0; m < ND_; m++) for (int n = 0; n < m; n++) { auto f = clover(c, s, m, n); w += tr_ab(f.data(), f.data()).real(); }
  return w / (16.0 * c.vol);
}
// one step of the third-order integrator of the gradient flow of the plaquette action
static void flow_step(Conf &c, double dt) {
  int n2 = NC_ * NC_; static const double keep[3] = {0, -17.0 / 9, -1}, add[3] = {0.25, 8.0 / 9, 0.75};
  // k_1 = Z_0/4, k_2 = 8/9 Z_1 - 17/36 Z_0, k_3 = 3/4 Z_2 - k_2
  std::vector<model::Mat> k(c.vol * ND_, model::Mat(n2));
  for (int st = 0; st < 3; st++) {
    for (size_t s = 0; s < c.vol; s++) for (int m = 0; m < ND_; m++) {
      model::Mat f(n2); int a = m + 1;
      for (int n = 0; n < ND_; n++) { if (n == m) continue; int b = n + 1; auto u = path(c, s, {b, a, -b, -a}), d = path(c, s, {-b, a, b, -a}); for (int i = 0; i < n2; i++) f[i] += u[i] + d[i]; }
      f = herm(f.data()); auto &z = k[s * ND_ + m];
      for (int i = 0; i < n2; i++) z[i] = keep[st] * z[i] + add[st] * f[i];
    }
    for (size_t s = 0; s < c.vol; s++) for (int m = 0; m < ND_; m++) { auto x = exp_ih(k[s * ND_ + m], dt); model::Mat o(n2); model::mul(NC_, x.data(), c.link(s, m), o.data()); std::copy(o.begin(), o.end(), c.link(s, m)); }
  }
}
static bool gclose(double got, double want, double scale, double rel = 2e-5) { return std::fabs(got - want) <= 1e-12 + rel * std::max(std::fabs(want), scale); }
static void c11_history(const Plan &p, Eval &e, const RunOut &r, const Conf &in, const Conf &out, std::vector<FlowLine> &h) {
  bool adapt = p.get("kind") == "adaptive-flow"; int n = (int)p.num("in.SMITERS"); double a = p.dbl("in.ALPHA1"), STOP = 20; bool cal = getenv("SIM_CAL");
  h = flow_lines(r.out);
  if (h.empty()) { fail(e, "history-missing", "no flow measurement reported"); return; }
  auto bad = [&](const char *c, const str &w) { if (!e.v.bad) fail(e, c, w); };
  if (h[0].t != 0) bad("flow-time", "first measurement is not at flow time zero");
  double wlast = 0; bool over = false;
  for (size_t k = 0; k < h.size(); k++) {
    auto &x = h[k];
    if (!(std::fabs(x.gtp - 32 * x.t * x.t * (1 - x.p)) <= 1e-4 * std::fabs(x.gtp) + 1e-5 * x.t * x.t * 32)) bad("inconsistent", fmt("measurement %zu: {GtP} %g is not 32 t^2 (1-{p}) = %g", k, x.gtp, 32 * x.t * x.t * (1 - x.p)));
    if (!k) continue;
    auto &y = h[k - 1]; double dt = x.t - y.t;
    if (x.stop) {
      over = true;
      if (k + 1 != h.size() || !(std::fabs(x.t - STOP) < 2e-6) || !(y.t > STOP)) bad("flow-time", fmt("the step back to the end of the flow is reported at time %f after %f", x.t, y.t));
    } else {
      if (!(dt > 0)) bad("flow-time", fmt("flow time does not increase: %f after %f", x.t, y.t));
      if (!adapt && !(std::fabs(x.t - k * a) <= 2e-6)) bad("flow-time", fmt("measurement %zu of steps of %g is reported at %f", k, a, x.t));
      if (adapt && !(std::fabs(dt - x.dt) <= 2e-6 + 1e-5 * x.dt)) bad("flow-time", fmt("step %zu of %g took the flow time from %f to %f", k, x.dt, y.t, x.t));
      if (adapt && !(x.err <= 1.001e-6)) bad("inconsistent", fmt("adaptive step %zu was accepted with error %g", k, x.err));
      if (!adapt && wlast > 1.6 * 0.1125 * (NC_ * NC_ - 1) / NC_) bad("ran-on", fmt("the flow went on to time %f although the scale was passed at %f", x.t, y.t));
      wlast = dt > 0 ? (x.gt - y.gt) * x.t / dt : 0;
    }
    if (x.t < STOP && x.dt < 0.08 && x.dt > 0 && p.dbl("rough") < 0.4 && !(x.p >= y.p - 2e-6)) bad("action-increases", fmt("plaquette %g after %g at flow time %f", x.p, y.p, x.t));
  }
  double W0 = 0.1125 * (NC_ * NC_ - 1) / NC_;
  if (!over && (adapt ? (int)h.size() < n + 1 : (int)h.size() != n + 1) && !(wlast > 1.4 * W0) && !(h.back().t >= STOP - 1e-6)) bad("stopped-early", fmt("%zu steps reported of %d", h.size() - 1, n));
  if (!over && h.back().t > STOP + 1e-5) bad("flow-time", fmt("the flow ends at %f, past %g", h.back().t, STOP));
  if (e.v.bad) return;
  // the measurements are those of the fields
  const Conf *c[2] = {&in, &out};
  for (int k = 0; k < 2; k++) {
    auto &x = k ? h.back() : h[0]; double P = model::plaquette(*c[k]); auto q = charge_density(*c[k]); double Q = 0, ab = 0; for (double z : q) Q += z, ab += std::fabs(z);
    double E = clover_energy(*c[k]), t2 = x.t * x.t;
    if (cal) fprintf(stderr, "CAL flow %s p %g q %g/%g gt %g\nCAL energy ratio %g\n", k ? "last" : "first", x.p - P, x.q - Q, ab, x.gt - t2 * E, t2 > 0 ? x.gt / t2 / E : 1);
    if (!gclose(x.p, P, 0.1)) bad("wrong-value", fmt("plaquette of the %s field reported as %g, is %.12g", k ? "flowed" : "unflowed", x.p, P));
    // far along the flow only the scaled action still shows a difference
    if (!(std::fabs(x.gtp - 32 * t2 * (1 - P)) <= (2e-5 + 2e-6 / (x.t + 1e-9)) * std::fabs(x.gtp) + 32 * t2 * (p.get("in.STORAGE") == "MILC" ? 3e-6 : 1e-13))) bad("wrong-value", fmt("{GtP} of the %s field reported as %g, is %.12g", k ? "flowed" : "unflowed", x.gtp, 32 * t2 * (1 - P)));
    if (!gclose(x.q, Q, ab)) bad("wrong-value", fmt("charge of the %s field reported as %g, is %.12g", k ? "flowed" : "unflowed", x.q, Q));
    if (ND_ == 4 && !gclose(x.gt, t2 * E, 0, 2e-5 + 2e-6 / (x.t + 1e-9))) bad("wrong-value", fmt("action density of the %s field reported as %g, is %.12g", k ? "flowed" : "unflowed", x.gt, t2 * E));
  }
  // scales lie between the measurements that bracket them
  if (over) { e.probes["overshoot"]++; return; }
  for (int cl = 0; cl < 2; cl++) {
    size_t at = 0; bool tie = false;
    for (size_t k = 1; k < h.size(); k++) { double u = cl ? h[k - 1].gt : h[k - 1].gtp, v = cl ? h[k].gt : h[k].gtp; if (std::fabs(v - W0) < 1e-5 || std::fabs(u - W0) < 1e-5) tie = true; if (u < W0 && v > W0) at = k; }
    auto l = lines_with(r.out, cl ? "[GT-scale Clover]" : "[GT-scale Plaq]");
    if (tie || (at && h.size() < 4)) continue;
    if (cal && (at || l.size())) fprintf(stderr, "CAL scale at %zu lines %zu\n", at, l.size());
    if (!l.empty() != (at > 0)) { bad("scale", fmt("the scale %s although the flow %s it", l.empty() ? "is not reported" : "is reported", at ? "brackets" : "does not bracket")); continue; }
    if (!at) continue;
    size_t q = l[0].rfind(' ', l[0].find_last_not_of(" \n")); double s = atof(l[0].c_str() + q); s *= s;
    if (!(s >= h[at - 1].t - 2e-6 && s <= h[at].t + 2e-6)) bad("scale", fmt("scale %g is not between the measurements at %f and %f", s, h[at - 1].t, h[at].t));
    else e.probes["scale-set"]++;
  }
}
static void c11_check(const Plan &p, Eval &e) {
  str ck = p.get("check"); Pair t;
  if (p.num("overshoot") && p.get("kind") == "adaptive-flow") {   // far from the start the step control takes steps beyond the stability bound, which amplify rounding
    t.jb = make_job(p); apply_env(p, t.jb, false); t.b = exec(t.jb, e); note_run(e, t.b);
    if (abnormal_bad(e, t.b, "run")) return;
    e.nontrivial = t.jb.nt > 1 && t.b.switches > 0;
  } else {
    Plan q = p; bool far = p.get("kind") == "adaptive-flow" && p.num("in.SMITERS") > 8;   // likewise: no change of the rounding by another memory path or thread count
    if (far) { q.kv.erase("mem"); q.kv.erase("refmem"); }
    if (!schedule_pair(q, e, t, CmpOpt(), ck == "threads" && !far ? 1 + (int)(p.num("relseed") % 8) : 0) || t.refused) return;
  }
  if (t.b.failed()) { if (!nonempty(t.b.err)) fail(e, "silent-failure", last_lines(t.b.out)); else e.probes["flow-refused"]++; if (t.b.has(t.jb.out)) fail(e, "failed-yet-written", "a failed flow wrote a configuration"); return; }
  model::Decoded d; str why;
  if (!decode_out(t.jb, t.b, t.jb.out, d, why)) { fail(e, "output-malformed", why); return; }
  double tol = t.jb.in.at("STORAGE") == "MILC" ? 3e-6 : 1e-9, u = model::unitarity(d.c);
  if (!(u < tol)) { fail(e, "not-unitary", fmt("output off SU(N) by %.3g", u)); return; }
  Conf in = plan_conf(p); std::vector<FlowLine> h;
  c11_history(p, e, t.b, in, d.c, h); if (e.v.bad) return;
  bool adapt = p.get("kind") == "adaptive-flow", stout = p.get("in.SMEARTYPE").find("STOUT") != str::npos;
  if (ck == "model" && stout) {
    Conf c = in;
    for (size_t k = 1; k < h.size(); k++) { double dt = adapt ? h[k].t - h[k - 1].t : h[k].stop ? 20 - (k - 1) * p.dbl("in.ALPHA1") : p.dbl("in.ALPHA1"); if (adapt) { flow_step(c, dt / 2); flow_step(c, dt / 2); } else flow_step(c, dt); if (adapt && h[k].stop) break; double P = model::plaquette(c);
      if (!(std::fabs(P - h[k].p) < (adapt ? 2e-5 : 2e-6))) { fail(e, "wrong-flow", fmt("plaquette at flow time %f reported as %g, an independent integration gives %.9g", h[k].t, h[k].p, P)); return; } }
    // steps beyond the stability bound of the integrator amplify the rounding of the reported step sizes
    double big = 0; for (auto &x : h) big = std::max(big, std::fabs(x.dt)); if (adapt && big > 0.12) { e.probes["model"]++; return; }
    double w = model::max_diff(c, d.c);
    if (getenv("SIM_CAL")) fprintf(stderr, "CAL model-links %s %g\n", adapt ? "adaptive" : "fixed", w);
    if (!(w < (adapt ? 1e-4 : 1e-9 + 10 * eps_for(p)))) fail(e, "wrong-flow", fmt("flowed links differ from an independent integration by %g", w));
    e.probes["model"]++;
    return;
  }
  int kind = ck == "gauge" ? 1 : ck == "translate" ? 2 : ck == "swap" ? 3 : 0;
  if (!kind) return;
  double big = 0; for (auto &x : h) big = std::max(big, std::fabs(x.dt)); if (adapt && big > 0.12) { e.probes["long-steps"]++; return; }
  Sym s = gen_sym(p, kind, false); Job j; RunOut r; if (!run_sym(p, e, t, s, j, r)) return;
  if (j.mem && refused_memory(r)) return;
  model::Decoded d2;
  if (!r.ok() || !decode_out(j, r, j.out, d2, why)) { fail(e, "not-covariant", "after a " + s.name() + " the run " + r.describe() + " " + why + last_lines(r.err)); return; }
  double w = model::max_diff(s(d.c), d2.c); auto h2 = flow_lines(r.out);
  e.probes[ck]++;
  if (getenv("SIM_CAL")) fprintf(stderr, "CAL %s %s diff %g\n", ck.c_str(), p.get("in.SMEARTYPE").c_str(), w);
  if (!(w < (adapt ? 1e-7 : 1e-9))) { fail(e, "not-covariant", fmt("the flow does not commute with a %s: links differ by %g", s.name().c_str(), w)); return; }
  if (h.size() != h2.size()) { fail(e, "not-covariant", fmt("%zu measurements against %zu after a %s", h.size(), h2.size(), s.name().c_str())); return; }
  double qs = kind == 3 ? -1 : 1;
  for (size_t k = 0; k < h.size(); k++) if (!gclose(h2[k].p, h[k].p, 0, 1e-5) || !gclose(h2[k].gt, h[k].gt, 0, 1e-5) || !(std::fabs(h2[k].q - qs * h[k].q) <= 1e-5 * std::fabs(h[k].q) + 1e-9)) { fail(e, "not-covariant", fmt("measurement %zu is p %g q %g G %g, after a %s p %g q %g G %g", k, h[k].p, h[k].q, h[k].gt, s.name().c_str(), h2[k].p, h2[k].q, h2[k].gt)); return; }
}
// ------------------------------------------------------------------ C18
static Plan c18_gen(u64 seed) {
  Plan p = start_plan("C18", seed); Rng r = seed_rng("C18", seed);
  gen_kind(p, r, K_U1, r.chance(0.5));
  p.set("relseed", (long long)r.below(1000000000));
  p.set("in.RANDOM_TRANSFORM", "NO"); p.set("fmt.dbl", 1);
  static const char *ck[] = {"same-phases", "other-seed", "scale", "zero", "plain", "values"};
  str c = ck[r.below(6)]; p.set("check", c);
  if (c == "zero") p.setd("in.U1_CHARGE", 0);
  else if (p.dbl("in.U1_CHARGE") == 0 || c == "scale" || c == "values" || r.chance(0.4)) { p.setd("in.U1_CHARGE", (r.chance(0.5) ? -1 : 1) * (0.02 + 0.1 * r.uni())); p.setd("in.U1_ALPHA", 0.01 + 0.1 * r.uni()); }
  if (c == "values") gen_dims(p, r, 60 + r.below(120), false, 2);
  if (p.num("in.SEED") == 0) p.set("in.SEED", 4711);
  if (r.chance(0.5)) { static const char *st[] = {"NERSC_SMALL", "NERSC_GAUGE", "SCIDAC", "ILDG"}; p.set("in.STORAGE", st[r.below(4)]); }
  gen_env(p, r); gen_mem(p, r, 0.15);
  return p;
}
// the phase that takes the link of one field to that of the other
static bool phases(Eval &e, const Conf &in, const Conf &out, double tol, std::vector<cd> &z) {
  double off = 0, mod = 0; int n2 = NC_ * NC_;
  for (size_t s = 0; s < in.vol; s++) for (int m = 0; m < ND_; m++) {
    cd w = tr_abdag(out.link(s, m), in.link(s, m)) / (double)NC_; z.push_back(w); mod = std::max(mod, std::fabs(std::abs(w) - 1));
    for (int i = 0; i < n2; i++) off = std::max(off, std::abs(out.link(s, m)[i] - w * in.link(s, m)[i]));
  }
  if (getenv("SIM_CAL")) fprintf(stderr, "CAL phase mod %g off %g\n", mod, off);
  if (!(mod < tol) || !(off < tol)) { fail(e, "not-a-phase", fmt("an output link is not its input link times a phase: modulus off by %g, matrix by %g", mod, off)); return false; }
  return true;
}
static double coupling(const Plan &p) { return std::sqrt(4 * M_PI * p.dbl("in.U1_ALPHA")) * p.dbl("in.U1_CHARGE"); }
static void c18_check(const Plan &p, Eval &e) {
  str ck = p.get("check"); Pair t; if (!schedule_pair(p, e, t) || t.refused) return;
  if (t.b.failed()) { if (!nonempty(t.b.err)) fail(e, "silent-failure", last_lines(t.b.out)); return; }
  model::Decoded d; str why;
  // a U(N) field cannot be stored as rows of an SU(N) one
  auto full = [](Job j) { if (j.in["STORAGE"].compare(0, 5, "NERSC") == 0) j.in["STORAGE"] = "NERSC_NCxNC"; return j; };
  if (!decode_out(full(t.jb), t.b, t.jb.out, d, why)) { fail(e, "output-malformed", why); return; }
  Conf in = plan_conf(p); double tol = 1e-9 + 10 * eps_for(p), g = coupling(p); std::vector<cd> z;
  if (!phases(e, in, d.c, tol, z)) return;
  size_t n = z.size();
  if (g == 0) { double w = model::max_diff(in, d.c); if (!(w < tol)) fail(e, "charged-at-zero-charge", fmt("zero charge changed a link by %g", w)); else e.probes["zero-charge"]++; return; }
  std::vector<double> a(n); for (size_t i = 0; i < n; i++) a[i] = std::arg(z[i]);
  { auto b = a; std::sort(b.begin(), b.end()); size_t same = 0; for (size_t i = 1; i < n; i++) same += b[i] - b[i - 1] < 1e-13; if (same > n / 10) { fail(e, "phases-repeat", fmt("%zu of %zu links share the phase of another", same, n)); return; } }
  // the same schedule-free run with one thing changed
  auto again = [&](Plan q, const char *what, std::vector<cd> &y) {
    Job j = t.jb; RunOut r; q.set("bufsz", p.get("bufsz")); Job k = make_job(q); j.in = k.in; j.files = k.files; j.strat = sim::S_SYNCONLY; j.faults.clear();
    r = exec(j, e); if (abnormal_bad(e, r, str("run with ") + what)) return false;
    if (j.mem && refused_memory(r)) return false;
    model::Decoded o; if (!r.ok() || !decode_out(full(j), r, j.out, o, why)) { fail(e, "fails", str("run with ") + what + " " + r.describe() + " " + why + last_lines(r.err)); return false; }
    return phases(e, plan_conf(q), o.c, tol, y);
  };
  if (ck == "same-phases") {
    Plan q = p; q.set("cseed", p.num("cseed") + 1); std::vector<cd> y; if (!again(q, "another configuration", y)) return;
    double w = 0; for (size_t i = 0; i < n; i++) w = std::max(w, std::abs(z[i] - y[i]));
    if (!(w < tol)) fail(e, "phases-depend-on-field", fmt("the phases of another configuration differ by %g", w)); else e.probes[ck]++;
  } else if (ck == "other-seed") {
    Plan q = p; q.set("in.SEED", p.num("in.SEED") + 1 + p.num("relseed") % 1000); std::vector<cd> y; if (!again(q, "another seed", y)) return;
    size_t same = 0; for (size_t i = 0; i < n; i++) same += std::abs(z[i] - y[i]) < 1e-3 * std::fabs(g) * 1e-3;
    if (same > n / 10) fail(e, "seeds-agree", fmt("%zu of %zu phases are the same for another seed", same, n)); else e.probes[ck]++;
  }
  if (std::fabs(g) > 0.25) return;
  for (auto &x : a) x /= g;   // the noncompact field
  if (ck == "scale") {
    Plan q = p; double f = 0.3 + 0.5 * (p.num("relseed") % 1000) / 1000.0; q.setd("in.U1_CHARGE", -f * p.dbl("in.U1_CHARGE")); std::vector<cd> y; if (!again(q, "another charge", y)) return;
    double w = 0, gq = coupling(q); for (size_t i = 0; i < n; i++) w = std::max(w, std::fabs(std::arg(y[i]) - gq * a[i]));
    if (getenv("SIM_CAL")) fprintf(stderr, "CAL scale %g\n", w);
    if (!(w < 1e-8)) fail(e, "not-proportional", fmt("the phase is not proportional to the charge: off by %g", w)); else e.probes[ck]++;
    return;
  }
  // no spatial zero mode on any slice; printed measurements of the noncompact field
  auto L = plan_dims(p); int T = ND_ - 1; size_t lcu = in.vol / L[T]; double zm = 0;
  for (int t0 = 0; t0 < L[T]; t0++) for (int m = 0; m < ND_; m++) { double w = 0; for (size_t s = 0; s < lcu; s++) w += a[(t0 * lcu + s) * ND_ + m]; zm = std::max(zm, std::fabs(w) / lcu); }
  auto A = [&](size_t s, int m) { return a[s * ND_ + m]; };
  double np = 0, cp = 0, nr = 0, cr = 0, Q = 0, big = 0; double den = 2.0 / ((double)in.vol * ND_ * (ND_ - 1));
  auto face = [&](size_t s, int m, int k) { return A(s, m) + A(in.fwd(s, m), k) - A(in.fwd(s, k), m) - A(s, k); };
  for (size_t s = 0; s < in.vol; s++) {
    for (int m = 1; m < ND_; m++) for (int k = 0; k < m; k++) {
      double f = face(s, m, k), r1 = f + face(in.fwd(s, m), m, k), r2 = f + face(in.fwd(s, k), m, k);
      np += f * f * den; cp += std::cos(f) * den; big = std::max(big, std::fabs(f)); nr += (r1 * r1 + r2 * r2) * den / 2; cr += (std::cos(r1) + std::cos(r2)) * den / 2;
    }
    if (ND_ == 4) Q += face(s, 0, 1) * face(s, 2, 3) + face(s, 0, 2) * face(s, 3, 1) + face(s, 0, 3) * face(s, 1, 2);
  }
  Q /= 64 * M_PI * M_PI;
  if (getenv("SIM_CAL")) fprintf(stderr, "CAL u1 zero-mode %g plaq %g %g rect %g %g Q %g big %g\n", zm, np, cp, nr, cr, Q, big);
  if (!(zm < 1e-6)) { fail(e, "zero-mode", fmt("the spatial zero mode of the phases is %g on some slice", zm)); return; }
  Near near{e, 2e-6, 3e-6}; std::vector<double> v;
  if (!line_numbers(t.b.out, "[U(1)] Plaquettes", v) || v.size() < 2) { fail(e, "value-missing", "no U(1) plaquette reported"); return; }
  near("noncompact U(1) plaquette", v[0], np, 1); near("compact U(1) plaquette", v[1], cp, 1);
  str me = p.get("in.U1_MEAS");
  if (me == "U1_RECTANGLE") { if (!line_numbers(t.b.out, "[U(1)] Rectangle", v) || v.size() < 2) { fail(e, "value-missing", "no U(1) rectangle reported"); return; } near("noncompact U(1) rectangle", v[0], nr, 1); near("compact U(1) rectangle", v[1], cr, 1); }
  if (me == "U1_TOPOLOGICAL") { if (!line_numbers(t.b.out, "[U(1)] Topological", v) || v.size() < 3) { fail(e, "value-missing", "no U(1) topology reported"); return; } near("U(1) topological charge", v.back(), Q, 1); if (big < 6) { near("number of U(1) monopoles", v[0], 0, 1); near("number of Dirac sheets", v[1], 0, 1); } }
  e.probes["u1-values"]++;
}
void add_fields(PropList &L) {
  L.push_back({"C18", c18_gen, c18_check});
  L.push_back({"C10", c10_gen, c10_check});
  L.push_back({"C11", c11_gen, c11_check});
  L.push_back({"C12", c12_gen, c12_check});
}

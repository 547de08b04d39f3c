#include "cmp.h"
#include <cmath>
#include <cstring>
#include <algorithm>

struct Tok { str key; std::vector<double> v, ulp; std::vector<bool> integer; };
static bool alnum(char c) { return isalnum((unsigned char)c) || c == '_'; }
// separates a line into its text with numbers replaced by '#', and the numbers
static Tok lex(const str &l) {
  Tok t;
  for (size_t i = 0; i < l.size();) {
    char c = l[i];
    bool start = isdigit((unsigned char)c) || ((c == '-' || c == '+' || c == '.') && i + 1 < l.size() && (isdigit((unsigned char)l[i + 1]) || (l[i + 1] == '.' && i + 2 < l.size() && isdigit((unsigned char)l[i + 2]))));
    if (start && (i == 0 || !alnum(l[i - 1]))) {
      const char *b = l.c_str() + i; char *e; double v = strtod(b, &e); size_t n = e - b;
      if (n > 2 && (b[1] == 'x' || b[1] == 'X')) n = 0;
      if (n && !alnum(*e)) {
        str w(b, n); size_t ex = w.find_first_of("eE"); str man = w.substr(0, ex); int x = ex == str::npos ? 0 : atoi(w.c_str() + ex + 1);
        size_t dot = man.find('.'); int dec = dot == str::npos ? 0 : (int)(man.size() - dot - 1);
        t.v.push_back(v); t.ulp.push_back(pow(10.0, x - dec)); t.integer.push_back(dot == str::npos && ex == str::npos);
        t.key += '#'; i += n; continue;
      }
      // a word that starts with a digit: keep it whole
      while (i < l.size() && (alnum(l[i]) || l[i] == '.')) t.key += l[i++];
      if (i < l.size() && !alnum(l[i])) { t.key += l[i++]; }
      continue;
    }
    if (alnum(c)) { while (i < l.size() && alnum(l[i])) t.key += l[i++]; continue; }
    t.key += c; i++;
  }
  return t;
}
std::vector<double> numbers_in(const str &l) { return lex(l).v; }
static bool close_tok(const Tok &a, const Tok &b, const CmpOpt &o) {
  if (a.v.size() != b.v.size()) return false;
  for (size_t i = 0; i < a.v.size(); i++) {
    if (a.v[i] == b.v[i]) continue;
    if (a.integer[i] && b.integer[i]) return false;
    double d = fabs(a.v[i] - b.v[i]);
    if (!(d <= 1.05 * std::max(a.ulp[i], b.ulp[i]) + o.abs_ + o.rel * std::max(fabs(a.v[i]), fabs(b.v[i])))) return false;
  }
  return true;
}
static str prep(const str &l) {
  // a diagnostic several threads print piecewise into each other
  if (l.find("Symmetric Momenta") != str::npos || l.find_first_not_of("0123456789-()!=# \t") == str::npos) return "";
  // reported times and dates are not results
  if (l.find("[IO] MILC time") != str::npos) return "[IO] MILC time";
  if (l.find("[TIMER]") != str::npos) return "";
  str r = l; size_t br = r.find('['); if (br != str::npos && br && r.find_first_not_of("0123456789-()!=# \t") == br) r = r.substr(br);
  while (!r.empty() && (r.back() == ' ' || r.back() == '\r')) r.pop_back();
  return r;
}
str diff_stdout(const str &sa, const str &sb, const CmpOpt &o, bool exact) {
  std::map<str, std::pair<std::vector<Tok>, std::vector<Tok>>> g; std::map<str, str> example;
  for (int w = 0; w < 2; w++) for (auto &l0 : split(w ? sb : sa, '\n')) {
    str l = prep(l0); if (l.empty()) continue;
    bool sk = false; for (auto &s : o.skip) if (l.find(s) != str::npos) sk = true;
    if (!exact && (l.find("hecksum") != str::npos || l.find("CRC") != str::npos || l.find("sum29") != str::npos)) sk = true;
    if (sk) continue;
    Tok t = lex(l); auto &q = g[t.key]; (w ? q.second : q.first).push_back(t); if (!example.count(t.key)) example[t.key] = l;
  }
  for (auto &q : g) {
    auto &x = q.second.first, &y = q.second.second;
    if (x.size() != y.size()) return fmt("\"%.150s\" is printed %zu times against %zu times", example[q.first].c_str(), x.size(), y.size());
    bool same = true; for (size_t i = 0; i < x.size() && same; i++) same = close_tok(x[i], y[i], o);
    if (same) continue;
    // independent threads may print in any order
    std::vector<bool> used(y.size(), false);
    for (size_t i = 0; i < x.size(); i++) {
      bool f = false;
      for (size_t k = 0; k < y.size() && !f; k++) if (!used[k] && close_tok(x[i], y[k], o)) { used[k] = f = true; }
      if (!f) {
        str n, m; for (double v : x[i].v) n += fmt(" %.15g", v);
        size_t k = 0; while (k < y.size() && used[k]) k++;
        if (k < y.size()) for (double v : y[k].v) m += fmt(" %.15g", v);
        return fmt("line \"%.120s\": numbers%s against%s", q.first.c_str(), n.c_str(), m.c_str());
      }
    }
  }
  return "";
}
static double bed(const unsigned char *p) { uint64_t v = 0; for (int i = 0; i < 8; i++) v = v << 8 | p[i]; double d; memcpy(&d, &v, 8); return d; }
str diff_bin(const str &a, const str &b, double rel, double abs_) {
  if (a == b) return "";
  if (a.size() != b.size()) return fmt("%zu bytes against %zu bytes", a.size(), b.size());
  const unsigned char *x = (const unsigned char *)a.data(), *y = (const unsigned char *)b.data(); size_t n = a.size();
  for (size_t i = 0; i + 4 <= n; i += 4) {
    if (!memcmp(x + i, y + i, 4)) continue;
    auto ok = [&](size_t k) { if (k + 8 > n) return false; double u = bed(x + k), v = bed(y + k); if (!std::isfinite(u) || !std::isfinite(v)) return false; double m = std::max(fabs(u), fabs(v)); if (m > 1e12) return false; return fabs(u - v) <= abs_ + rel * m; };
    if (ok(i)) { i += 4; continue; }
    if (i >= 4 && ok(i - 4)) continue;
    size_t at = i; auto odd = [&](size_t k) { return k + 8 > n || !(fabs(bed(x + k)) < 1e15) || !(fabs(bed(y + k)) < 1e15) || (bed(x + k) != 0 && fabs(bed(x + k)) < 1e-40); };
    if (odd(i) && i >= 4 && !odd(i - 4)) at = i - 4;
    return fmt("at byte %zu: %.15g against %.15g", at, at + 8 <= n ? bed(x + at) : 0.0, at + 8 <= n ? bed(y + at) : 0.0);
  }
  if (n % 4 && memcmp(x + n / 4 * 4, y + n / 4 * 4, n % 4)) return "trailing bytes";
  return "";
}
bool is_conf_bytes(const str &st, const str &b) { model::Decoded d; str w; return model::decode(b, st, NC_, ND_, d, w); }
str diff_conf_files(const str &st, const str &x, const str &y, double tol) {
  if (undate("", x) == undate("", y)) return "";
  model::Decoded d, e; str w;
  if (!model::decode(x, st, NC_, ND_, d, w)) return "first is not a configuration: " + w;
  if (!model::decode(y, st, NC_, ND_, e, w)) return "second is not a configuration: " + w;
  if (d.c.u.empty() || e.c.u.empty()) return "differ";
  if (d.c.L != e.c.L) return "dimensions differ";
  double m = model::max_diff(d.c, e.c); bool sp = st == "MILC";
  if (!(m <= (sp ? std::max(tol, 1e-6) : tol))) return fmt("links differ by %.3g", m);
  if (d.have_plaq && !(fabs(d.plaq - e.plaq) <= 10 * tol)) return fmt("stored plaquettes %.15g and %.15g", d.plaq, e.plaq);
  if (d.have_trace && !(fabs(d.trace - e.trace) <= 10 * tol)) return fmt("stored traces %.15g and %.15g", d.trace, e.trace);
  if (d.flow != e.flow) return fmt("trajectory numbers %d and %d", d.flow, e.flow);
  if (d.sum_ok != e.sum_ok) return "one has a wrong checksum";
  return "";
}
str diff_work(const Job &j, const RunOut &a, const RunOut &b, const CmpOpt &o) {
  if (a.status != b.status || a.code != b.code) return "outcome: " + a.describe() + " against " + b.describe();
  bool exact = true;
  if (o.files) {
    auto skipf = [&](const str &n) { for (auto &s : o.skip_files) if (s == n) return true; return false; };
    for (auto &f : b.files) if (!a.has(f.first) && !skipf(f.first)) return "file " + f.first + " exists in the second run only";
    for (auto &f : a.files) {
      if (skipf(f.first)) continue;
      if (!b.has(f.first)) return "file " + f.first + " exists in the first run only";
      const str &x = f.second, &y = b.file(f.first);
      if (x == y) continue;
      str st = j.in.count("STORAGE") ? j.in.at("STORAGE") : "", d; size_t n = f.first.size();
      if (n > 5 && f.first.compare(n - 5, 5, ".rand") == 0) d = "generator states differ";
      else if (is_conf_bytes(st, x)) { d = diff_conf_files(st, x, y, o.data); if (undate("", x) != undate("", y)) exact = false; }
      else d = diff_bin(x, y, std::max(o.rel, 1e-8), o.abs_);
      if (!d.empty()) return "file " + f.first + ": " + d;
    }
  }
  if (o.out) { str d = diff_stdout(a.out, b.out, o, exact); if (!d.empty()) return "standard output: " + d; }
  if (o.err) { str d = diff_stdout(a.err, b.err, o, exact); if (!d.empty()) return "standard error: " + d; }
  return "";
}

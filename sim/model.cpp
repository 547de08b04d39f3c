#include "model.h"
#include <cmath>
#include <cstdarg>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
namespace model {
using sim::Rng;

void Conf::alloc(int NC, const std::vector<int> &dims) {
  nc = NC; nd = (int)dims.size(); L = dims; vol = 1;
  for (int d : dims) vol *= d;
  u.assign(vol * nd * nc * nc, cd(0, 0));
}
void Conf::coord(size_t s, int *x) const { for (int m = 0; m < nd; m++) { x[m] = s % L[m]; s /= L[m]; } }
size_t Conf::site(const int *x) const { size_t s = 0; for (int m = nd - 1; m >= 0; m--) s = s * L[m] + x[m]; return s; }
size_t Conf::fwd(size_t s, int mu) const { int x[8]; coord(s, x); x[mu] = (x[mu] + 1) % L[mu]; return site(x); }
size_t Conf::bck(size_t s, int mu) const { int x[8]; coord(s, x); x[mu] = (x[mu] + L[mu] - 1) % L[mu]; return site(x); }

void mul(int n, const cd *a, const cd *b, cd *o) {
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { cd s = 0; for (int k = 0; k < n; k++) s += a[i * n + k] * b[k * n + j]; o[i * n + j] = s; }
}
void mul_dag(int n, const cd *a, const cd *b, cd *o) {
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { cd s = 0; for (int k = 0; k < n; k++) s += a[i * n + k] * std::conj(b[j * n + k]); o[i * n + j] = s; }
}
void dag_mul(int n, const cd *a, const cd *b, cd *o) {
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { cd s = 0; for (int k = 0; k < n; k++) s += std::conj(a[k * n + i]) * b[k * n + j]; o[i * n + j] = s; }
}
cd det(int n, const cd *a) {
  Mat m(a, a + n * n); cd d = 1;
  for (int c = 0; c < n; c++) {
    int p = c; for (int r = c + 1; r < n; r++) if (std::abs(m[r * n + c]) > std::abs(m[p * n + c])) p = r;
    if (m[p * n + c] == cd(0)) return 0;
    if (p != c) { for (int k = 0; k < n; k++) std::swap(m[p * n + k], m[c * n + k]); d = -d; }
    d *= m[c * n + c];
    for (int r = c + 1; r < n; r++) { cd f = m[r * n + c] / m[c * n + c]; for (int k = c; k < n; k++) m[r * n + k] -= f * m[c * n + k]; }
  }
  return d;
}
void reunit(int n, cd *a) {
  for (int pass = 0; pass < 2; pass++)
  for (int i = 0; i < n; i++) {
    for (int k = 0; k < i; k++) {
      cd ip = 0; for (int j = 0; j < n; j++) ip += std::conj(a[k * n + j]) * a[i * n + j];
      for (int j = 0; j < n; j++) a[i * n + j] -= ip * a[k * n + j];
    }
    double nn = 0; for (int j = 0; j < n; j++) nn += std::norm(a[i * n + j]);
    nn = 1 / sqrt(nn); for (int j = 0; j < n; j++) a[i * n + j] *= nn;
  }
  cd d = det(n, a);
  for (int j = 0; j < n; j++) a[(n - 1) * n + j] *= std::conj(d) / std::norm(d);
}
void reunit_cols(int n, cd *a) {
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) std::swap(a[i * n + j], a[j * n + i]);
  reunit(n, a);
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) std::swap(a[i * n + j], a[j * n + i]);
}
static double gauss(Rng &r) { double u = 1 - r.uni(), v = r.uni(); return sqrt(-2 * log(u)) * cos(6.283185307179586 * v); }
static void randsu(Rng &r, int n, double rough, cd *o) {
  for (int i = 0; i < n * n; i++) o[i] = cd(gauss(r), gauss(r)) * (rough < 0 ? 1.0 : rough);
  if (rough >= 0) for (int i = 0; i < n; i++) o[i * n + i] += 1.0;
  reunit(n, o);
}
Conf unit_conf(int nc, const std::vector<int> &dims) {
  Conf c; c.alloc(nc, dims);
  for (size_t k = 0; k < c.vol * c.nd; k++) for (int i = 0; i < nc; i++) c.u[k * nc * nc + i * nc + i] = 1;
  return c;
}
Conf random_conf(int nc, const std::vector<int> &dims, uint64_t seed, double rough) {
  Conf c; c.alloc(nc, dims); Rng r(seed * 7919 + 13);
  for (size_t k = 0; k < c.vol * c.nd; k++) randsu(r, nc, rough, &c.u[k * nc * nc]);
  return c;
}
void gauge_transform(Conf &c, uint64_t seed, double rough) {
  Rng r(seed * 104729 + 5); int n = c.nc;
  std::vector<cd> g(c.vol * n * n);
  for (size_t s = 0; s < c.vol; s++) randsu(r, n, rough, &g[s * n * n]);
  Mat t(n * n);
  for (size_t s = 0; s < c.vol; s++) for (int m = 0; m < c.nd; m++) {
    mul(n, &g[s * n * n], c.link(s, m), t.data());
    mul_dag(n, t.data(), &g[c.fwd(s, m) * n * n], c.link(s, m));
  }
}
double max_diff(const Conf &a, const Conf &b) {
  if (a.u.size() != b.u.size() || a.L != b.L) return 1e300;
  double m = 0;
  for (size_t i = 0; i < a.u.size(); i++) { double d = std::abs(a.u[i] - b.u[i]); if (!(d <= m)) m = std::isnan(d) ? 1e300 : d; }
  return m;
}
double unitarity(const Conf &c) {
  double w = 0; int n = c.nc; Mat t(n * n);
  for (size_t k = 0; k < c.vol * c.nd; k++) {
    const cd *a = &c.u[k * n * n];
    mul_dag(n, a, a, t.data());
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double d = std::abs(t[i * n + j] - (i == j ? 1.0 : 0.0)); if (!(d <= w)) w = std::isnan(d) ? 1e300 : d; }
    double d = std::abs(det(n, a) - 1.0); if (!(d <= w)) w = std::isnan(d) ? 1e300 : d;
  }
  return w;
}
static cd plaq1(const Conf &c, size_t s, int mu, int nu) {
  int n = c.nc; Mat a(n * n), b(n * n);
  mul(n, c.link(s, mu), c.link(c.fwd(s, mu), nu), a.data());
  mul_dag(n, a.data(), c.link(c.fwd(s, nu), mu), b.data());
  mul_dag(n, b.data(), c.link(s, nu), a.data());
  cd t = 0; for (int i = 0; i < n; i++) t += a[i * n + i];
  return t;
}
double plane_plaq(const Conf &c, int mu, int nu) { double s = 0; for (size_t i = 0; i < c.vol; i++) s += plaq1(c, i, mu, nu).real(); return s / c.vol / c.nc; }
double plaquette(const Conf &c) {
  double s = 0; int np = 0;
  for (int m = 0; m < c.nd; m++) for (int n = 0; n < m; n++) { s += plane_plaq(c, m, n); np++; }
  return s / np;
}
double linktrace(const Conf &c) {
  double s = 0; for (size_t k = 0; k < c.vol * c.nd; k++) for (int i = 0; i < c.nc; i++) s += c.u[k * c.nc * c.nc + i * c.nc + i].real();
  return s / (c.vol * c.nd * c.nc);
}
static cd poly1(const Conf &c, size_t s, int mu) {
  int n = c.nc; Mat a(c.link(s, mu), c.link(s, mu) + n * n), b(n * n); size_t x = s;
  for (int k = 1; k < c.L[mu]; k++) { x = c.fwd(x, mu); mul(n, a.data(), c.link(x, mu), b.data()); a.swap(b); }
  cd t = 0; for (int i = 0; i < n; i++) t += a[i * n + i];
  return t;
}
cd polyakov(const Conf &c, int mu) {
  cd t = 0; int x[8];
  for (size_t s = 0; s < c.vol; s++) { c.coord(s, x); if (x[mu] == 0) t += poly1(c, s, mu); }
  return t;
}
std::vector<cd> loops(const Conf &c) {
  std::vector<cd> v; int x[8];
  for (size_t s = 0; s < c.vol; s++) {
    for (int m = 0; m < c.nd; m++) for (int n = 0; n < m; n++) v.push_back(plaq1(c, s, m, n));
    c.coord(s, x);
    for (int m = 0; m < c.nd; m++) if (x[m] == 0) v.push_back(poly1(c, s, m));
  }
  return v;
}
double loops_diff(const Conf &a, const Conf &b) {
  auto p = loops(a), q = loops(b); if (p.size() != q.size()) return 1e300;
  double m = 0; for (size_t i = 0; i < p.size(); i++) { double d = std::abs(p[i] - q[i]); if (!(d <= m)) m = std::isnan(d) ? 1e300 : d; }
  return m;
}
double theta_lin(const Conf &c, int dirs, int slice) {
  int n = c.nc; double tot = 0; Mat A(n * n); size_t n3 = c.vol / c.L[c.nd - 1], s0 = slice < 0 ? 0 : slice * n3, s1 = slice < 0 ? c.vol : s0 + n3;
  for (size_t s = s0; s < s1; s++) {
    std::fill(A.begin(), A.end(), cd(0));
    for (int m = 0; m < dirs; m++) for (int sg = 0; sg < 2; sg++) {
      const cd *u = c.link(sg ? c.bck(s, m) : s, m); double f = sg ? -1 : 1;
      cd tr = 0; for (int i = 0; i < n; i++) tr += u[i * n + i].imag();
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        cd h = (u[i * n + j] - std::conj(u[j * n + i])) / cd(0, 2);
        if (i == j) h -= tr / (double)n;
        A[i * n + j] += f * h;
      }
    }
    for (int k = 0; k < n * n; k++) tot += std::norm(A[k]);
  }
  return tot / (n * (double)(s1 - s0));
}

// ------------------------------------------------------------------ formats
uint32_t crc32z(const void *p, size_t n) {
  uint32_t c = 0xffffffffu; const uint8_t *b = (const uint8_t *)p;
  for (size_t i = 0; i < n; i++) { c ^= b[i]; for (int k = 0; k < 8; k++) c = (c >> 1) ^ (0xEDB88320u & (0u - (c & 1))); }
  return ~c;
}
uint32_t posix_cksum(const void *p, size_t n) {
  uint32_t c = 0; const uint8_t *b = (const uint8_t *)p;
  auto add = [&](uint8_t v) { c ^= (uint32_t)v << 24; for (int k = 0; k < 8; k++) c = (c & 0x80000000u) ? (c << 1) ^ 0x04C11DB7u : c << 1; };
  for (size_t i = 0; i < n; i++) add(b[i]);
  for (size_t m = n; m; m >>= 8) add(m & 0xff);
  return ~c;
}
static uint32_t rot(uint32_t w, unsigned r) { return r ? (w << r | w >> (32 - r)) : w; }
static void put32(std::string &s, uint32_t v, bool big) { for (int i = 0; i < 4; i++) s += (char)(v >> (big ? 24 - 8 * i : 8 * i)); }
static void put64(std::string &s, uint64_t v, bool big) { for (int i = 0; i < 8; i++) s += (char)(v >> (big ? 56 - 8 * i : 8 * i)); }
static uint64_t bits(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static uint32_t bitsf(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }
static void putr(std::string &s, double d, bool dbl, bool big) { if (dbl) put64(s, bits(d), big); else put32(s, bitsf((float)d), big); }
static uint32_t get32(const std::string &s, size_t o, bool big) { uint32_t v = 0; for (int i = 0; i < 4; i++) v |= (uint32_t)(uint8_t)s[o + i] << (big ? 24 - 8 * i : 8 * i); return v; }
static uint64_t get64(const std::string &s, size_t o, bool big) { uint64_t v = 0; for (int i = 0; i < 8; i++) v |= (uint64_t)(uint8_t)s[o + i] << (big ? 56 - 8 * i : 8 * i); return v; }
static double getr(const std::string &s, size_t o, bool dbl, bool big) {
  if (dbl) { uint64_t v = get64(s, o, big); double d; memcpy(&d, &v, 8); return d; }
  uint32_t v = get32(s, o, big); float f; memcpy(&f, &v, 4); return f;
}
// the checksums over the stored numbers
struct Sums { uint32_t nersc = 0, m29 = 0, m31 = 0, c29 = 0, c31 = 0, posix = 0; };
static Sums sums(const std::string &s, size_t o, size_t nreal, size_t persite, bool dbl, bool big) {
  Sums r; size_t w = dbl ? 8 : 4;
  for (size_t i = 0; i < nreal; i++) {
    uint32_t v;
    if (dbl) { uint64_t b = get64(s, o + i * 8, big); v = (uint32_t)b + (uint32_t)(b >> 32); } else v = get32(s, o + i * 4, big);
    r.nersc += v; r.m29 ^= rot(v, i % 29); r.m31 ^= rot(v, i % 31);
  }
  for (size_t k = 0; k * persite < nreal; k++) {
    uint32_t c = crc32z(&s[o + k * persite * w], persite * w);
    r.c29 ^= rot(c, k % 29); r.c31 ^= rot(c, k % 31);
  }
  r.posix = posix_cksum(&s[o], nreal * w);
  return r;
}
static void lime(std::string &o, const char *type, const std::string &data) {
  put32(o, 1164413355u, true); o += (char)0; o += (char)1; o += (char)0x80; o += (char)0; put64(o, data.size(), true);
  std::string t(type); t.resize(128, 0); o += t; o += data; while (o.size() % 8) o += (char)0;
}
static void lime_head(std::string &o, const char *type, size_t n) {
  put32(o, 1164413355u, true); o += (char)0; o += (char)1; o += (char)0x80; o += (char)0; put64(o, n, true);
  std::string t(type); t.resize(128, 0); o += t;
}
static void natural(std::string &o, const Conf &c, int ncomp, bool dbl, bool big) {
  for (size_t s = 0; s < c.vol; s++) for (int m = 0; m < c.nd; m++) for (int k = 0; k < ncomp; k++) {
    putr(o, c.link(s, m)[k].real(), dbl, big); putr(o, c.link(s, m)[k].imag(), dbl, big);
  }
}
static size_t hirep_site(const Conf &c, size_t i) {
  // t slowest, then x, y, z fastest
  int x[8];
  for (int m = c.nd - 2; m >= 0; m--) { x[m] = i % c.L[m]; i /= c.L[m]; }
  x[c.nd - 1] = (int)i;
  return c.site(x);
}
static std::string fmt(const char *f, ...) { va_list ap; va_start(ap, f); char b[4096]; vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }

std::string encode(const Conf &c, const FileFmt &f, Layout *lay) {
  std::string o; int n = c.nc; Layout l;
  double plaq = plaquette(c), tr = linktrace(c);
  if (f.head == "NERSC") {
    int ncomp = f.kind == "GAUGE" ? n * (n - 1) : n * n;
    std::string data; natural(data, c, ncomp, f.dbl, f.big);
    Sums s = sums(data, 0, c.vol * c.nd * ncomp * 2, c.nd * ncomp * 2, f.dbl, f.big);
    o = "BEGIN_HEADER\nHDR_VERSION = 1.0\n";
    if (f.kind == "GAUGE") o += fmt("DATATYPE = %dD_SU%d_GAUGE\n", c.nd, n); else o += fmt("DATATYPE = %dD_SU%d_GAUGE_%dx%d\n", c.nd, n, n, n);
    o += "STORAGE_FORMAT = 1.0\n";
    for (int m = 0; m < c.nd; m++) o += fmt("DIMENSION_%d = %d\n", m + 1, c.L[m]);
    l.sums0 = o.size();
    o += fmt("CHECKSUM = %x\nLINK_TRACE = %1.15f\nPLAQUETTE = %1.15f\n", s.nersc, tr, plaq);
    l.sumsn = o.size() - l.sums0;
    for (int m = 0; m < c.nd; m++) o += fmt("BOUNDARY_%d = PERIODIC\n", m + 1);
    o += fmt("ENSEMBLE_ID = ukqcd\nSEQUENCE_NUMBER = %d\nENSEMBLE_LABEL = sim\nCREATOR_MACHINE = sim\n", f.flow);
    o += fmt("FLOATING_POINT = IEEE%d%s\nEND_HEADER\n", f.dbl ? 64 : 32, f.big ? "BIG" : "LITTLE");
    l.data0 = o.size(); l.datan = data.size(); o += data;
  } else if (f.head == "MILC") {
    std::string data; natural(data, c, n * n, f.dbl, f.big);
    Sums s = sums(data, 0, c.vol * c.nd * n * n * 2, 1, f.dbl, f.big);
    put32(o, f.dbl ? 20104 : 20103, f.big); for (int m = 0; m < c.nd; m++) put32(o, c.L[m], f.big);
    std::string d = "Thu Jan  1 00:00:00 2020 GMT"; d.resize(64, 0); o += d;
    put32(o, 0, f.big); l.sums0 = o.size(); put32(o, s.m29, f.big); put32(o, s.m31, f.big); l.sumsn = 8;
    l.data0 = o.size(); l.datan = data.size(); o += data;
  } else if (f.head == "SCIDAC" || f.head == "ILDG_SCIDAC" || f.head == "LIME" || f.head == "ILDG_BQCD") {
    std::string data; natural(data, c, n * n, f.dbl, true);
    Sums s = sums(data, 0, c.vol * c.nd * n * n * 2, c.nd * n * n * 2, f.dbl, true);
    std::string dims; for (int m = 0; m < c.nd; m++) dims += fmt(m ? " %d" : "%d", c.L[m]);
    const char *X = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>";
    bool ildg = f.head == "ILDG_SCIDAC" || f.head == "ILDG_BQCD" || (f.head == "LIME" && f.kind == "ILDG");
    if (f.head != "ILDG_BQCD") {
      lime(o, "scidac-private-file-xml", fmt("%s<scidacFile><version>1.1</version><spacetime>%d</spacetime><dims>%s</dims><volfmt>0</volfmt></scidacFile>", X, c.nd, dims.c_str()));
      lime(o, "scidac-file-xml", "<title>sim</title>");
      lime(o, "scidac-private-record-xml", fmt("%s<scidacRecord><version>1.0</version><date>Thu Jan  1 00:00:00 2020 GMT</date><globaldata>0</globaldata><datatype>QDP_%c%d_ColorMatrix</datatype><precision>%c</precision><colors>%d</colors><typesize>%d</typesize><datacount>%d</datacount></scidacRecord>", X, f.dbl ? 'D' : 'F', n, f.dbl ? 'D' : 'F', n, c.nd * n * n * 2 * (f.dbl ? 2 : 1), c.nd));
      lime(o, "scidac-record-xml", "<info>sim</info>");
    }
    if (ildg) {
      const char *nm[] = {"lx", "ly", "lz"}; std::string g;
      for (int m = 0; m < c.nd - 1; m++) g += fmt("<%s>%d</%s>", nm[m], c.L[m], nm[m]);
      g += fmt("<lt>%d</lt>", c.L[c.nd - 1]);
      lime(o, "ildg-format", fmt("%s<ildgFormat><version>1.0</version><field>su%dgauge</field><precision>%d</precision>%s</ildgFormat>", X, n, f.dbl ? 64 : 32, g.c_str()));
      lime(o, "ildg-data-lfn", "lfn://");
    }
    lime_head(o, ildg ? "ildg-binary-data" : "scidac-binary-data", data.size());
    l.data0 = o.size(); l.datan = data.size(); o += data; while (o.size() % 8) o += (char)0;
    l.sums0 = o.size();
    if (f.head == "ILDG_BQCD") {
      lime(o, "bqcd-plaquette", fmt("%.15f", plaq));
      lime(o, "bqcd-cksum", fmt("%u", s.posix));
    } else lime(o, "scidac-checksum", fmt("%s<scidacChecksum><version>1.0</version><suma>%x</suma><sumb>%x</sumb></scidacChecksum>", X, s.c29, s.c31));
    l.sumsn = o.size() - l.sums0;
  } else if (f.head == "JLQCD") {
    natural(o, c, n * n, true, true); l.data0 = 0; l.datan = o.size();
  } else if (f.head == "HIREP") {
    put32(o, n, true); put32(o, c.L[c.nd - 1], true); for (int m = 0; m < c.nd - 1; m++) put32(o, c.L[m], true);
    l.sums0 = o.size(); l.sumsn = 8; put64(o, bits(plaq), true); l.data0 = o.size();
    for (size_t i = 0; i < c.vol; i++) {
      size_t s = hirep_site(c, i);
      for (int q = 0; q < c.nd; q++) {
        const cd *u = c.link(s, q == 0 ? c.nd - 1 : q - 1);
        if (n == 2) { // quaternion: u = a0 + i (a1 s1 + a2 s2 + a3 s3)
          put64(o, bits(u[0].real()), true); put64(o, bits(u[1].imag()), true); put64(o, bits(-u[1].real()), true); put64(o, bits(u[0].imag()), true);
        } else for (int k = 0; k < n * n; k++) { put64(o, bits(u[k].real()), true); put64(o, bits(u[k].imag()), true); }
      }
    }
    l.datan = o.size() - l.data0;
  } else if (f.head == "CERN") {
    put32(o, c.L[3], false); for (int m = 0; m < 3; m++) put32(o, c.L[m], false);
    l.sums0 = o.size(); l.sumsn = 8; put64(o, bits(n * plaq), false); l.data0 = o.size();
    int x[4];
    for (x[3] = 0; x[3] < c.L[3]; x[3]++) for (x[0] = 0; x[0] < c.L[0]; x[0]++) for (x[1] = 0; x[1] < c.L[1]; x[1]++) for (x[2] = 0; x[2] < c.L[2]; x[2]++)
      if ((x[0] + x[1] + x[2] + x[3]) % 2) {
        size_t s = c.site(x); int ord[4] = {3, 0, 1, 2};
        for (int q = 0; q < 4; q++) for (int b = 0; b < 2; b++) {
          const cd *u = c.link(b ? c.bck(s, ord[q]) : s, ord[q]);
          for (int k = 0; k < n * n; k++) { put64(o, bits(u[k].real()), false); put64(o, bits(u[k].imag()), false); }
        }
      }
    l.datan = o.size() - l.data0;
  } else { fprintf(stderr, "encode: unknown format %s\n", f.head.c_str()); abort(); }
  if (lay) *lay = l;
  return o;
}

static void complete(int n, cd *u) {
  // last row from the others: cofactors
  for (int j = 0; j < n; j++) {
    Mat m((n - 1) * (n - 1)); int k = 0;
    for (int r = 0; r < n - 1; r++) for (int q = 0; q < n; q++) if (q != j) m[k++] = u[r * n + q];
    cd d = det(n - 1, m.data());
    u[(n - 1) * n + j] = std::conj((((n - 1 + j) % 2) ? -1.0 : 1.0) * d);
  }
}
static bool read_natural(const std::string &b, size_t o, Conf &c, int ncomp, bool dbl, bool big) {
  size_t w = dbl ? 8 : 4;
  if (b.size() < o + c.vol * c.nd * ncomp * 2 * w) return false;
  for (size_t s = 0; s < c.vol; s++) for (int m = 0; m < c.nd; m++) {
    cd *u = c.link(s, m);
    for (int k = 0; k < ncomp; k++) { u[k] = cd(getr(b, o, dbl, big), getr(b, o + w, dbl, big)); o += 2 * w; }
    if (ncomp < c.nc * c.nc) complete(c.nc, u);
  }
  return true;
}
static std::string hdrval(const std::string &h, const std::string &k) {
  size_t p = 0;
  while (p < h.size()) {
    size_t e = h.find('\n', p); if (e == std::string::npos) break;
    std::string l = h.substr(p, e - p); p = e + 1;
    if (l.compare(0, k.size() + 3, k + " = ") == 0) return l.substr(k.size() + 3);
  }
  return "";
}
static bool okdims(const std::vector<int> &d) { double v = 1; for (int x : d) { if (x < 1 || x > 4096) return false; v *= x; } return v <= 1 << 20; }

bool decode(const std::string &b, const std::string &st, int nc, int nd, Decoded &d, std::string &why) {
  std::vector<int> dims(nd);
  d.date_removed = b;
  if (st.compare(0, 5, "NERSC") == 0) {
    size_t e = b.find("END_HEADER\n");
    if (b.compare(0, 13, "BEGIN_HEADER\n") || e == std::string::npos) { why = "no NERSC header"; return false; }
    size_t o = e + 11; std::string h = b.substr(0, o);
    for (int m = 0; m < nd; m++) dims[m] = atoi(hdrval(h, fmt("DIMENSION_%d", m + 1)).c_str());
    if (!okdims(dims)) { why = "bad dimensions"; return false; }
    d.c.alloc(nc, dims);
    std::string fp = hdrval(h, "FLOATING_POINT"), ty = hdrval(h, "DATATYPE");
    bool dbl = fp.compare(0, 6, "IEEE64") == 0, big = fp.find("BIG") != std::string::npos;
    if (fp.compare(0, 4, "IEEE")) { why = "bad FLOATING_POINT"; return false; }
    size_t dp = h.find("CREATION_DATE = "); if (dp != std::string::npos) { size_t de = h.find('\n', dp); d.date_removed = b.substr(0, dp) + b.substr(de); }
    d.have_plaq = d.have_trace = d.have_sum = true;
    d.plaq = atof(hdrval(h, "PLAQUETTE").c_str()); d.trace = atof(hdrval(h, "LINK_TRACE").c_str());
    d.flow = atoi(hdrval(h, "SEQUENCE_NUMBER").c_str());
    int nreal;
    bool small = false;
    if (ty == fmt("%dD_SU%d_GAUGE", nd, nc)) nreal = nc * (nc - 1) * 2;
    else if (ty == fmt("%dD_SU%d_GAUGE_%dx%d", nd, nc, nc, nc)) nreal = nc * nc * 2;
    else if (ty == fmt("%dD_SU%d_GAUGE_SMALL", nd, nc)) { nreal = nc * nc - 1; small = true; }
    else { why = "bad DATATYPE " + ty; return false; }
    size_t w = dbl ? 8 : 4, need = d.c.vol * nd * nreal * w;
    if (b.size() != o + need) { why = fmt("file holds %zu data bytes, %zu expected", b.size() - o, need); return false; }
    Sums s = sums(b, o, d.c.vol * nd * nreal, nd * nreal, dbl, big);
    uint32_t hs = (uint32_t)strtoul(hdrval(h, "CHECKSUM").c_str(), nullptr, 16);
    d.sum_ok = hs == s.nersc; if (!d.sum_ok) d.sum_note = fmt("header CHECKSUM %x, data %x", hs, s.nersc);
    if (small) { d.c.u.clear(); return true; }
    read_natural(b, o, d.c, nreal / 2, dbl, big);
    return true;
  }
  if (st == "MILC") {
    if (b.size() < (size_t)4 + 4 * nd + 64 + 12) { why = "short MILC header"; return false; }
    bool big = true; uint32_t mg = get32(b, 0, true); if (mg != 20103 && mg != 20104) { big = false; mg = get32(b, 0, false); }
    if (mg != 20103 && mg != 20104) { why = "bad MILC magic"; return false; }
    for (int m = 0; m < nd; m++) dims[m] = get32(b, 4 + 4 * m, big);
    if (!okdims(dims)) { why = "bad dimensions"; return false; }
    d.c.alloc(nc, dims);
    size_t o = 4 + 4 * nd; for (int i = 0; i < 64; i++) d.date_removed[o + i] = 0;
    o += 64; if (get32(b, o, big) != 0) { why = "bad MILC order"; return false; }
    uint32_t a = get32(b, o + 4, big), c31 = get32(b, o + 8, big); o += 12;
    bool dbl = mg == 20104; size_t need = d.c.vol * nd * nc * nc * 2 * (dbl ? 8 : 4);
    if (b.size() != o + need) { why = fmt("file holds %zu data bytes, %zu expected", b.size() - o, need); return false; }
    Sums s = sums(b, o, d.c.vol * nd * nc * nc * 2, nd * nc * nc * 2, dbl, big);
    d.have_sum = true; d.first_ok = a == s.m29; d.sum_ok = a == s.m29 && c31 == s.m31; if (!d.sum_ok) d.sum_note = fmt("header sums %x %x, data %x %x", a, c31, s.m29, s.m31);
    read_natural(b, o, d.c, nc * nc, dbl, big);
    return true;
  }
  if (st == "SCIDAC" || st == "ILDG") {
    size_t o = 0, data0 = 0, datan = 0; bool dbl = true; uint32_t s29 = 0, s31 = 0; bool gs = false; std::vector<int> d1, d2;
    while (o + 144 <= b.size()) {
      if (get32(b, o, true) != 1164413355u) { why = fmt("bad LIME magic at %zu", o); return false; }
      uint64_t n = get64(b, o + 8, true); std::string ty(&b[o + 16]); o += 144;
      if (n > b.size() - o) { why = "record " + ty + " is cut short"; return false; }
      std::string rec = b.substr(o, n);
      auto tag = [&](const char *t) -> std::string { std::string a = std::string("<") + t + ">", z = std::string("</") + t + ">"; size_t p = rec.find(a), q = rec.find(z); return p == std::string::npos || q == std::string::npos ? "" : rec.substr(p + a.size(), q - p - a.size()); };
      if (ty == "scidac-private-file-xml") { std::string s = tag("dims"); const char *p = s.c_str(); char *e; while (true) { long v = strtol(p, &e, 10); if (e == p) break; d1.push_back(v); p = e; } }
      if (ty == "scidac-private-record-xml") { dbl = tag("precision") == "D"; size_t k = d.date_removed.find("<date>"); if (k != std::string::npos) { size_t q = d.date_removed.find("</date>"); for (size_t i = k + 6; i < q; i++) d.date_removed[i] = ' '; } if (atoi(tag("colors").c_str()) != nc) { why = "colors"; return false; } }
      if (ty == "ildg-format") { const char *nm[] = {"lx", "ly", "lz"}; for (int m = 0; m < nd - 1; m++) d2.push_back(atoi(tag(nm[m]).c_str())); d2.push_back(atoi(tag("lt").c_str())); }
      if (ty == "scidac-binary-data" || ty == "ildg-binary-data") { data0 = o; datan = n; }
      if (ty == "scidac-checksum") { s29 = strtoul(tag("suma").c_str(), nullptr, 16); s31 = strtoul(tag("sumb").c_str(), nullptr, 16); gs = true; }
      o += (n + 7) / 8 * 8;
    }
    if (o != b.size()) { why = "file does not end at a record boundary"; return false; }
    if (!data0) { why = "no binary record"; return false; }
    if (!gs) { why = "no checksum record"; return false; }
    if (st == "ILDG" && d1 != d2) { why = "dimensions disagree"; return false; }
    if ((int)d1.size() != nd || !okdims(d1)) { why = "bad dimensions"; return false; }
    d.c.alloc(nc, d1);
    size_t need = d.c.vol * nd * nc * nc * 2 * (dbl ? 8 : 4);
    if (datan != need) { why = "binary record has the wrong size"; return false; }
    Sums s = sums(b, data0, d.c.vol * nd * nc * nc * 2, nd * nc * nc * 2, dbl, true);
    d.have_sum = true; d.first_ok = s29 == s.c29; d.sum_ok = s29 == s.c29 && s31 == s.c31; if (!d.sum_ok) d.sum_note = fmt("stored sums %x %x, data %x %x", s29, s31, s.c29, s.c31);
    read_natural(b, data0, d.c, nc * nc, dbl, true);
    return true;
  }
  if (st == "HIREP") {
    if (b.size() < (size_t)4 * (nd + 1) + 8) { why = "short HIREP header"; return false; }
    if ((int)get32(b, 0, true) != nc) { why = "NC"; return false; }
    dims[nd - 1] = get32(b, 4, true); for (int m = 0; m < nd - 1; m++) dims[m] = get32(b, 8 + 4 * m, true);
    if (!okdims(dims)) { why = "bad dimensions"; return false; }
    d.c.alloc(nc, dims);
    size_t o = 4 * (nd + 1); d.have_plaq = true; d.plaq = getr(b, o, true, true); o += 8;
    int per = nc == 2 ? 4 : nc * nc * 2;
    size_t need = d.c.vol * nd * per * 8;
    if (b.size() != o + need) { why = fmt("file holds %zu data bytes, %zu expected", b.size() - o, need); return false; }
    for (size_t i = 0; i < d.c.vol; i++) {
      size_t s = hirep_site(d.c, i);
      for (int q = 0; q < nd; q++) {
        cd *u = d.c.link(s, q == 0 ? nd - 1 : q - 1);
        if (nc == 2) {
          double a[4]; for (int k = 0; k < 4; k++) { a[k] = getr(b, o, true, true); o += 8; }
          u[0] = cd(a[0], a[3]); u[1] = cd(-a[2], a[1]); u[2] = -std::conj(u[1]); u[3] = std::conj(u[0]);
        } else for (int k = 0; k < nc * nc; k++) { u[k] = cd(getr(b, o, true, true), getr(b, o + 8, true, true)); o += 16; }
      }
    }
    return true;
  }
  if (st == "CERN") {
    if (b.size() < 24) { why = "short CERN header"; return false; }
    dims[3] = get32(b, 0, false); for (int m = 0; m < 3; m++) dims[m] = get32(b, 4 + 4 * m, false);
    if (!okdims(dims)) { why = "bad dimensions"; return false; }
    d.c.alloc(nc, dims); d.have_plaq = true; d.plaq = getr(b, 16, true, false) / nc;
    size_t o = 24, need = d.c.vol * 4 * nc * nc * 16;
    if (b.size() != o + need) { why = fmt("file holds %zu data bytes, %zu expected", b.size() - o, need); return false; }
    int x[4];
    for (x[3] = 0; x[3] < dims[3]; x[3]++) for (x[0] = 0; x[0] < dims[0]; x[0]++) for (x[1] = 0; x[1] < dims[1]; x[1]++) for (x[2] = 0; x[2] < dims[2]; x[2]++)
      if ((x[0] + x[1] + x[2] + x[3]) % 2) {
        size_t s = d.c.site(x); int ord[4] = {3, 0, 1, 2};
        for (int q = 0; q < 4; q++) for (int k2 = 0; k2 < 2; k2++) {
          cd *u = d.c.link(k2 ? d.c.bck(s, ord[q]) : s, ord[q]);
          for (int k = 0; k < nc * nc; k++) { u[k] = cd(getr(b, o, true, false), getr(b, o + 8, true, false)); o += 16; }
        }
      }
    return true;
  }
  why = "unknown storage " + st;
  return false;
}
} // namespace model

// Independent reference model: gauge fields, file formats, loops, gauge conditions.
#pragma once
#include "rt.h"
#include <complex>
#include <string>
#include <vector>
#include <map>
namespace model {
typedef std::complex<double> cd;
typedef std::vector<cd> Mat;               // nc*nc row major
struct Conf {
  int nc = 3, nd = 4;
  std::vector<int> L;
  size_t vol = 0;
  std::vector<cd> u;                        // [site][mu][nc*nc]
  cd *link(size_t s, int mu) { return &u[(s * nd + mu) * nc * nc]; }
  const cd *link(size_t s, int mu) const { return &u[(s * nd + mu) * nc * nc]; }
  void alloc(int NC, const std::vector<int> &dims);
  size_t fwd(size_t s, int mu) const;
  size_t bck(size_t s, int mu) const;
  void coord(size_t s, int *x) const;
  size_t site(const int *x) const;
};
void mul(int n, const cd *a, const cd *b, cd *o);
void mul_dag(int n, const cd *a, const cd *b, cd *o);   // a b^dag
void dag_mul(int n, const cd *a, const cd *b, cd *o);   // a^dag b
cd det(int n, const cd *a);
void reunit(int n, cd *a);
void reunit_cols(int n, cd *a);                               // Gram-Schmidt onto SU(n)
Conf random_conf(int nc, const std::vector<int> &dims, uint64_t seed, double rough); // rough<0: fully random
Conf unit_conf(int nc, const std::vector<int> &dims);
void gauge_transform(Conf &c, uint64_t seed, double rough);
double max_diff(const Conf &a, const Conf &b);
double unitarity(const Conf &c);                         // worst |U U^dag - 1|, |det-1|
double plaquette(const Conf &c);                         // average Re Tr / nc
double plane_plaq(const Conf &c, int mu, int nu);
double linktrace(const Conf &c);                         // average Re Tr / nc
cd polyakov(const Conf &c, int mu);                      // sum over the orthogonal volume of Tr
// every plaquette trace and every Polyakov trace: the fingerprint gauge transforms preserve
std::vector<cd> loops(const Conf &c);
double loops_diff(const Conf &a, const Conf &b);
// sum over sites of Tr |d_mu A_mu|^2 / (nc * V) with A = traceless hermitian part, over the first `dirs` directions
// (of one slice of the last direction, if given)
double theta_lin(const Conf &c, int dirs, int slice = -1);

// ---- formats ----
struct FileFmt {
  std::string head;       // what HEADER to use to read it: NERSC HIREP CERN MILC SCIDAC LIME ILDG_SCIDAC ILDG_BQCD JLQCD
  std::string kind;       // for NERSC: GAUGE or NCxNC
  bool dbl = true, big = true;
  int flow = 7;
};
struct Layout { size_t data0 = 0, datan = 0; size_t sums0 = 0, sumsn = 0; };  // where the links are
std::string encode(const Conf &c, const FileFmt &f, Layout *lay = nullptr);
// read with the declared dims; returns false and a reason if the file is not well formed
struct Decoded {
  Conf c;
  bool have_plaq = false, have_trace = false, have_sum = false;
  double plaq = 0, trace = 0;
  bool sum_ok = true, first_ok = true; std::string sum_note;
  int flow = -1;
  std::string date_removed;   // file bytes with the creation date blanked
};
bool decode(const std::string &bytes, const std::string &storage, int nc, int nd, Decoded &d, std::string &why);
uint32_t crc32z(const void *p, size_t n);
uint32_t posix_cksum(const void *p, size_t n);
// what the program's checks would say about a file whose links are at lay (oracle for damaged files)
} // namespace model

// Comparing the observable outcome of two runs of the same work.
#pragma once
#include "scen.h"
struct CmpOpt {
  double data = 1e-9;         // largest difference of a link element of double-precision output
  double rel = 1e-7, abs_ = 1e-11;   // printed numbers, besides one unit in their last printed place
  bool out = true, err = true, files = true;
  std::vector<str> skip;      // lines of standard output containing one of these are ignored
  std::vector<str> skip_files;
};
// "" if the runs agree. Order of summation and order of independent lines may differ.
str diff_work(const Job &j, const RunOut &a, const RunOut &b, const CmpOpt &o = CmpOpt());
str diff_stdout(const str &a, const str &b, const CmpOpt &o, bool data_exact = true);
str diff_bin(const str &a, const str &b, double rel, double abs_);
str diff_conf_files(const str &storage, const str &x, const str &y, double tol);
bool is_conf_bytes(const str &storage, const str &b);
std::vector<double> numbers_in(const str &line);

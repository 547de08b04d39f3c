#include "common.h"
static PropList &list() {
  static PropList P;
  if (P.empty()) { add_io(P); add_mc(P); add_fix(P); add_fields(P); add_robust(P); }
  return P;
}
const std::vector<Prop> &props() { return list(); }
const Prop *find_prop(const str &id) { for (auto &p : list()) if (p.id == id) return &p; return nullptr; }

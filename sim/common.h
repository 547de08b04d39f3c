#pragma once
#include "cmp.h"
#include <cmath>
#include <algorithm>
typedef std::vector<Prop> PropList;
void add_io(PropList &);      // C01-C04, C13
void add_mc(PropList &);      // C05-C07
void add_fix(PropList &);     // C08, C09
void add_fields(PropList &);  // C10-C12, C18
void add_robust(PropList &);  // C14-C17, C19, C20

Rng seed_rng(const char *id, u64 seed);
Plan start_plan(const char *id, u64 seed);
void gen_mem(Plan &p, Rng &r, double prob);
str last_lines(const str &s, int n = 3);
void note_run(Eval &e, const RunOut &r);        // coverage probes of the perturbed run
// the run refused because the machine is too small, which it may do at any time
bool refused_memory(const RunOut &r);
CmpOpt mem_opt();           // comparing runs with different memory sizes
// runs reference and perturbed schedule and compares everything; races are driven home by directed schedules
struct Pair { Job ja, jb; RunOut a, b; bool refused = false; };
str may_fail(const Plan &p, Job &j, const RunOut &r);
bool schedule_pair(const Plan &p, Eval &e, Pair &t, CmpOpt o = CmpOpt(), int ref_threads = 0);
// resolves faults given as kind:fraction-of-the-counted-events(0..999):arg against the counts of a quiet run
std::vector<sim::Fault> resolve_faults(const str &spec, const RunOut &probe);
bool nonempty(const str &s);
str data_header_for(const str &storage);   // HEADER that reads what STORAGE writes
// the averages that a gauge fixing or smearing run reports last, against those of the field it wrote
void reported_averages(const Plan &p, Eval &e, const RunOut &r, const model::Conf &c);
model::Conf translate(const model::Conf &c, const std::vector<int> &d);
model::Conf swap_axes(const model::Conf &c, int a, int b);

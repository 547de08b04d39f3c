// Scenario generators shared by the properties.
#pragma once
#include "harness.h"
// kinds of work the program does
enum Kind { K_REWRITE, K_HEATBATH, K_LANDAU, K_COULOMB, K_COULRES, K_MAG, K_AXIALT, K_SMEAR, K_WFLOW, K_AFLOW, K_CUT, K_U1, K_GENERATE, K_NKINDS };
const char *kind_name(int k);
// fills mode-specific keys; small: cheap scenario
void gen_kind(Plan &p, Rng &r, int kind, bool small = false);
int pick_kind(Rng &r);
void gen_large(Plan &p, Rng &r, int k, double pr);
void limit_cost(Plan &p);
void gen_names(Plan &p, Rng &r);    // sometimes other file names, label and number than the usual ones
void gen_infmt(Plan &p, Rng &r, bool any = true);
str gen_storage(Rng &r, bool full_only = true);
// decodes an output configuration written with STORAGE of the plan
bool decode_out(const Job &j, const RunOut &r, const str &name, model::Decoded &d, str &why);
// a saved configuration claimed by the run
bool claims_written(const RunOut &r);
double eps_for(const Plan &p);      // storage precision of the input

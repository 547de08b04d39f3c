#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(name=a, meaning=b) for a, b in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": observe, "hook_needed": "none: compiler access hooks plus redirected libc/libgomp/FFTW symbols, applied at build time outside /repo"}})

SCHED = "all thread counts 1..8, all interleavings of the simulated OpenMP threads"
p("C01", "A configuration that is written out reads back as the same gauge field",
  "A gauge configuration read from any supported input format and written in any supported output format holds the same link matrices (to the storage precision), and the output file's own description of itself (dimensions, storage type, checksums, average plaquette, link trace, byte order) agrees with the data that follows. This holds for every thread count and interleaving, for the fast and the memory-cheap reader and writer, and for any way the file system splits reads and writes. Reading the written file back gives the same field again and reports no mismatch.",
  ["schedules", "inputs", "configurations", "fault_sequences"],
  SCHED + "; all input formats x output formats x single/double input precision x byte orders x lattice shapes; machine memory sizes selecting either code path; legal short reads and any stdio buffer size",
  "The tests read and write nothing or a few fixed fields, always along the fast path, on real threads whose schedule is not varied; the cheap paths depend on the machine's memory size.",
  ["src/IO/readers.c", "src/IO/writers.c", "src/IO/HIREP.c", "src/IO/CERN.c", "src/IO/Scidac.c", "src/IO/read_headers.c", "src/IO/write_headers.c", "src/IO/XML_info.c", "src/Utils/GLU_memcheck.c"],
  [("reader selection by available memory", "src/IO/read_config.c:get_config_SUNC"), ("checksum reductions", "src/IO/writers.c:compute_checksum"), ("slice writer", "src/IO/writers.c:write_binary_data_cheap")],
  ["bytes of the output file, parsed by an independent reader", "standard output and error", "exit status"])
p("C02", "A damaged configuration file is never accepted as good",
  "When the data or the checks of a configuration file are damaged (bits flipped, a block zeroed, swapped or duplicated, the file cut short, or the device failing or ending early during the read), the reader rejects the file, reports it on standard error, exits with a failure status and produces no output configuration, whenever the format's check shows it: any data change that alters the first of the two stored checksums for MILC, SCIDAC and ILDG or the CRC for BQCD, a plaquette off by more than the format's tolerance for HIREP and CERN, and all three of checksum, plaquette and link trace wrong for NERSC (a subset wrong is reported but accepted). A file that is cut short, or whose read fails, is rejected in every format. An undamaged file is never rejected.",
  ["fault_sequences", "inputs", "schedules", "configurations"],
  "every position and kind of damage, every read that can fail or end early, every format, both reader paths, " + SCHED + ", and any previous contents of memory",
  "Tests read only good files; which bytes are damaged, which read fails and what stale memory holds is an unbounded space.",
  ["src/IO/read_config.c", "src/IO/readers.c", "src/IO/HIREP.c", "src/IO/CERN.c", "src/IO/Scidac.c", "src/IO/crc.c", "src/Wrappers/GLUlib_wrap.c"],
  [("format checks", "src/IO/read_config.c:check_sums"), ("short read detection", "src/IO/readers.c")],
  ["standard error", "presence of an output configuration", "exit status"])
p("C03", "Failing to save a configuration is always reported, never claimed as success",
  "If any part of saving a configuration fails (the file cannot be created, a write fails or is short, the disk fills, the flush at close fails, or memory for the output runs out), the run says so on standard error, does not claim that the configuration was written, and exits with a failure status. If the run claims the configuration was written, the file on disk is complete and correct.",
  ["fault_sequences", "configurations", "schedules"],
  "every single open, device write and close of the save failing, every free-space limit, every allocation of the save, every output format, both writer paths, every buffer size, " + SCHED,
  "Tests never make the file system fail.",
  ["src/IO/writers.c", "src/Wrappers/GLUlib_wrap.c", "src/IO/HIREP.c", "src/IO/CERN.c", "src/IO/Scidac.c", "src/IO/write_headers.c"],
  [("save", "src/Wrappers/GLUlib_wrap.c:write_configuration"), ("writers", "src/IO/writers.c:write_lat")],
  ["standard output and error", "bytes of the output file", "exit status"])
p("C04", "An existing configuration is never overwritten",
  "If a file of the requested output name exists, no mode of the program modifies, truncates or removes it, whatever fails on the way and whether or not it can be opened for reading; the run reports that it will not overwrite. The input configuration, the input file and earlier saved trajectories are likewise left byte for byte as they were.",
  ["fault_sequences", "configurations", "histories"],
  "every mode, every output format, pre-existing files of any size including empty, transient open failures, repeated and continued runs",
  "Tests do not run the program against pre-existing outputs nor with failing opens.",
  ["src/Wrappers/GLUlib_wrap.c", "src/Update/KPHB.c"],
  [("existence check before opening for writing", "src/Wrappers/GLUlib_wrap.c:write_configuration")],
  ["virtual disk contents before and after"])
p("C05", "A Monte-Carlo trajectory depends only on input, seed and thread count",
  "For a fixed input file, seed, starting configuration and thread count, the heatbath/over-relaxation run produces the same plaquette history, the same saved configurations and the same saved generator states under every interleaving of its threads, any clock, any memory contents and any memory size. Every saved link is special unitary and each saved configuration carries the trajectory number of its file name.",
  ["schedules", "inputs", "configurations"],
  SCHED + ", random generator variants, NC, lattice shapes including sides of 2, update counts, save/measure intervals that do and do not divide each other",
  "Tests do not run updates on varied schedules; a racy update still gives plausible plaquettes.",
  ["src/Update/KPHB.c", "src/Update/hb.c", "src/Update/relax.c", "src/Geometry/draughtboard.c", "src/Utils/par_rng.c"],
  [("checkerboard update", "src/Update/hb.c"), ("per-thread generators", "src/Utils/par_rng.c"), ("save inside the parallel region", "src/Update/KPHB.c:hb_update")],
  ["saved files", "plaquette history on standard output"])
p("C06", "A killed heatbath run continues exactly from its last completed save",
  "If a heatbath run is killed at any point and restarted with the same thread count from the last trajectory whose configuration and generator state both reached the disk completely, it reproduces from there the history, configurations and generator states of the uninterrupted run. Restarting never uses a partly written generator state or configuration silently.",
  ["crash_points", "histories", "schedules"],
  "every point of the run including inside every device write (only what reached the disk survives), repeated kills, " + SCHED + ", every generator variant",
  "No test kills or restarts the program.",
  ["src/Update/KPHB.c", "src/Utils/par_rng.c", "src/Utils/par_MWC_4096.c", "src/Wrappers/GLUlib_wrap.c"],
  [("state save", "src/Utils/par_rng.c:write_par_rng_state"), ("state restore", "src/Utils/par_rng.c:read_par_rng_state")],
  ["saved configurations and generator states", "plaquette history"])
p("C07", "Saved generator state restores the exact stream or is visibly refused",
  "A generator state that was saved completely restores exactly the stream each thread would have continued with, for every generator variant. A state that is missing, cut short, of another generator or for another number of threads is never used: the run either stops with an error or announces on standard error that it starts a new sequence. A state that could not be written completely is reported.",
  ["fault_sequences", "histories", "configurations"],
  "every generator variant, thread counts, truncation points, read and write faults, mismatching headers",
  "Tests do not save, damage and reload generator states.",
  ["src/Utils/par_rng.c", "src/Utils/par_KISS.c", "src/Utils/par_MWC_1038.c", "src/Utils/par_MWC_4096.c", "src/Utils/par_XOR_1024.c", "src/Utils/par_WELL_512.c"],
  [("table read/write", "src/Utils/par_*.c"), ("header check", "src/Utils/par_rng.c")],
  ["continued history", "standard error", "exit status"])
p("C08", "Landau gauge fixing returns a gauge transform that is fixed, on every schedule",
  "Landau gauge fixing terminates under every interleaving and thread count, and the field it outputs is a gauge transform of its input: every link is special unitary and every gauge-invariant loop is unchanged. When it reports reaching the requested accuracy, the output satisfies the Landau condition to that accuracy (within the one solver step between the last test and the output); when it does not reach it, it says so, and it does reach it from a nearly fixed start when it is given enough iterations. For a given thread count the result does not depend on the interleaving.",
  ["schedules", "inputs", "configurations"],
  SCHED + ", all three solver builds (conjugate gradient, steepest descent, over-relaxation) with and without FFT acceleration, rough and smooth fields, with and without random transform, iteration limits from 1 up",
  "Tests fix a couple of fields once with whatever schedule the machine gives.",
  ["src/Gfix/Landau.c", "src/Gfix/FACG.c", "src/Gfix/CG.c", "src/Gfix/CGalloc.c", "src/Gfix/line_search.c", "src/Gfix/lin_derivs.c", "src/Gfix/log_derivs.c", "src/Gfix/gftests.c", "src/Gfix/gtrans.c", "src/Gfix/Or.c", "src/Wrappers/GF_wrap.c"],
  [("per-thread reductions", "src/Gfix/FACG.c, src/Gfix/CG.c"), ("restart on failure", "src/Gfix/Landau.c")],
  ["output configuration checked by an independent model", "standard output and error"])
p("C09", "Coulomb, residual, axial and maximal-axial fixing return fixed transforms",
  "Coulomb fixing, Coulomb fixing with the residual temporal fix, axial and maximal axial gauge fixing terminate under every interleaving and thread count and output a gauge transform of their input (special unitary links, unchanged gauge-invariant loops). When the accuracy is reported as reached the output satisfies the respective gauge condition on every timeslice, and for a given thread count the result does not depend on the interleaving.",
  ["schedules", "inputs", "configurations"],
  SCHED + ", all solver builds, lattice shapes, iteration limits, rough and smooth fields",
  "Tests fix a couple of fields once with whatever schedule the machine gives.",
  ["src/Gfix/Coulomb.c", "src/Gfix/CFACG.c", "src/Gfix/MAG.c", "src/Gfix/Or.c", "src/Wrappers/GF_wrap.c"],
  [("slice-wise solver in a parallel region", "src/Gfix/Coulomb.c"), ("axial transforms", "src/Gfix/MAG.c")],
  ["output configuration checked by an independent model", "standard output and error"])
p("C10", "Smearing gives the serial result on every schedule and memory path",
  "APE, stout, log, HYP, HEX and HYL smearing, of all or only spatial links, give the same links and the same reported observables for every thread count, interleaving, amount of available memory and previous memory contents. The result is special unitary, commutes with gauge transformations and lattice translations, leaves temporal links alone when only spatial links are smeared, and zero iterations or zero strength change nothing.",
  ["schedules", "inputs", "configurations"],
  SCHED + ", every smearing type, direction setting, iteration count, parameters, lattice shapes with odd and short sides, machine memory sizes selecting each implementation",
  "Tests run each routine on one schedule and memory path; slice-buffer reuse errors and races show only for particular shapes and interleavings.",
  ["src/Smear/4D_fast.c", "src/Smear/ND_generic_HYP.c", "src/Smear/smear.c", "src/Smear/HYP.c", "src/Smear/staples.c", "src/Smear/projectors.c", "src/Wrappers/SM_wrap.c"],
  [("slice buffers", "src/Smear/smear.c"), ("implementation choice by memory", "src/Wrappers/SM_wrap.c")],
  ["output configuration", "standard output"])
p("C11", "Wilson flow gives the serial result on every schedule and memory path",
  "Fixed-step and adaptive Wilson flow (stout and log) report the same flow history and scales and output the same links for every thread count, interleaving, amount of available memory and previous memory contents. Output links are special unitary, flow commutes with gauge transformations, and flow time and action density advance consistently: time increases strictly and the action never increases for small steps, every reported measurement is that of the field at that time, the links agree with an independent integration of the flow to the order of the integrator (stout), and each reported scale lies between the two measurements that bracket its target.",
  ["schedules", "inputs", "configurations"],
  SCHED + ", both projections, fixed and adaptive steps, both memory implementations, lattice shapes",
  "Tests run one schedule and one memory path.",
  ["src/Smear/wflow.c", "src/Smear/wflowfuncs.c", "src/Smear/adaptive_flow.c", "src/Smear/projectors.c", "src/Wrappers/SM_wrap.c"],
  [("Runge-Kutta stages over slice buffers", "src/Smear/wflowfuncs.c"), ("adaptive step control", "src/Smear/adaptive_flow.c")],
  ["output configuration", "flow history on standard output"])
p("C12", "Reported observables do not depend on schedule, threads or memory path",
  "Average plaquettes, link traces, Polyakov loops, static potential, topological charge, correlators, moments and susceptibility, and all gluon correlation outputs are the same for every interleaving, thread count, memory size and previous memory contents (up to summation rounding). They agree with an independent computation where they are elementary loops or traces; gauge-invariant ones do not change under a gauge transformation of the input, nor volume-averaged ones under a translation.",
  ["schedules", "inputs", "configurations"],
  SCHED + ", every measurement mode, lattice shapes, cut and momentum parameters, with and without FFTW",
  "Tests compare a few numbers from one schedule.",
  ["src/Field/plaqs_links.c", "src/Field/POLY.c", "src/Field/clover.c", "src/Field/Qcorr.c", "src/Field/Qmoments.c", "src/Field/Qsusc.c", "src/Field/Qslab.c", "src/Cuts/cuts.c", "src/Cuts/glueprop.c", "src/Cuts/config_gluons.c", "src/Cuts/MOMgg.c", "src/Cuts/MOMggg.c", "src/Cuts/3Dcuts.c", "src/Wrappers/OBS_wrap.c", "src/Wrappers/CUT_wrap.c"],
  [("per-thread reductions with padded arrays", "src/Field/plaqs_links.c, src/Field/clover.c"), ("FFT correlators", "src/Cuts")],
  ["standard output", "measurement output files"])
p("C13", "Measurement files are complete or the failure is reported",
  "A measurement or correlator run that exits with success leaves a complete, well-formed output file holding the values of this run. If creating, writing or closing that file fails, the run reports it on standard error and exits with a failure status and does not crash.",
  ["fault_sequences", "configurations"],
  "every measurement mode that writes a file, every open/write/close of it failing, every free-space limit",
  "Tests never make the file system fail.",
  ["src/Cuts/cut_output.c", "src/Cuts/cuts.c", "src/Cuts/config_gluons.c", "src/Cuts/glueprop.c", "src/Field/Qmoments.c", "src/Field/Qcorr.c", "src/Field/Qsusc.c", "src/Wrappers/CUT_wrap.c"],
  [("momentum list and correlator writers", "src/Cuts/cut_output.c")],
  ["bytes of the measurement file", "standard error", "exit status"])
p("C14", "Running out of memory ends in a clean, reported failure",
  "If any one memory allocation fails, in any mode, the run either completes with the correct result or reports the failure on standard error and exits with a failure status. It never crashes, hangs, or writes a configuration or measurement that differs from the one the successful run writes.",
  ["fault_sequences", "configurations", "schedules"],
  "every allocation of every mode failing, any thread count and interleaving",
  "Tests never fail an allocation.",
  ["src/Utils/GLU_malloc.c", "src/Wrappers", "src/Gfix", "src/Smear", "src/Cuts", "src/Update"],
  [("allocation checks", "throughout")],
  ["signal or exit status", "output files", "standard error"])
p("C15", "Exit status and messages tell the truth about what was done",
  "The exit status is success only if the requested work was done, and is success when the input is valid and nothing fails; a missing or unreadable input file, unusable setting, unreadable configuration, or unknown header or storage type ends with a failure status and a message on standard error, and writes no configuration. An unrecognised name of a choice selects the documented default. No input file or configuration header text makes the program crash or run on garbage.",
  ["inputs", "fault_sequences", "configurations"],
  "every missing, duplicated, out-of-range or overlong input line, corrupted headers of every format, failing and short reads of the input file",
  "Tests feed only valid inputs.",
  ["src/Run/Mainfile.c", "src/IO/input_reader.c", "src/IO/chklat_stuff.c", "src/IO/read_headers.c", "src/IO/XML_info.c", "src/Wrappers/GLUlib_wrap.c"],
  [("input parsing", "src/IO/input_reader.c"), ("header parsing", "src/IO/chklat_stuff.c, src/IO/XML_info.c")],
  ["exit status", "standard error", "output files"])
p("C16", "No result depends on the clock",
  "Clock steps forward or backward of any size, and any time of day, change nothing in any mode but reported timings and the creation date in file headers, and never make a run crash, stop early or loop.",
  ["fault_sequences", "configurations"],
  "clock jumps at any clock reading, including before the epoch and far in the future, every mode",
  "Tests do not control the clock.",
  ["src/Utils/GLU_timer.c", "src/IO/write_headers.c", "src/IO/Scidac.c"],
  [("timers and dates", "src/Utils/GLU_timer.c")],
  ["output files apart from the date", "standard output apart from timings"])
p("C17", "Parallel regions are free of data races",
  "In every mode, no thread reads or writes a memory location while another thread may concurrently store a different value there: every two such accesses are ordered by a barrier, worksharing construct, atomic, critical section or region boundary.",
  ["schedules", "configurations", "inputs"],
  SCHED + ", every mode and build variant",
  "A race that the tests' schedules happen not to exercise leaves their results right.",
  ["src/Gfix", "src/Smear", "src/Update", "src/Field", "src/Cuts", "src/U1", "src/IO", "src/Geometry", "src/Utils"],
  [("OpenMP synchronisation", "throughout src")],
  ["happens-before race detector inside the simulator"])
p("C18", "U(1) dressing is schedule-independent and is a pure phase, none at zero charge",
  "The compact U(1) multiplication gives the same links and measurements for a given seed and thread count under every interleaving and memory contents; every output link is the input link times a phase of modulus one, and with zero charge the field is returned unchanged. The phases depend only on seed and lattice, scale with the charge, carry no spatial zero mode, and the reported U(1) plaquette, rectangle and charge are those of these phases.",
  ["schedules", "inputs", "configurations"],
  SCHED + ", charges and couplings, measurement types, seeds",
  "Tests run one schedule with few fields.",
  ["src/U1/SUNCxU1_config.c", "src/U1/U1_obs.c", "src/U1/U1_top.c"],
  [("FFT of gaussian momenta", "src/U1/SUNCxU1_config.c")],
  ["output configuration", "standard output"])
p("C19", "No run touches memory it does not own or leaves values to chance",
  "In every mode, with or without injected faults, the program never reads or writes outside its live allocations, frees memory twice, overruns a stack buffer or uses a closed stream, and nothing it outputs depends on the previous contents of memory.",
  ["inputs", "fault_sequences", "configurations", "schedules"],
  "every mode, memory path, thread count, fault, and seeded previous memory contents",
  "Uninitialised or out-of-bounds reads usually give right-looking results on the test machine.",
  ["src"],
  [("allocation and indexing", "throughout src")],
  ["heap bounds checker inside the simulator", "differences between runs with different memory fill"])
p("C20", "Every run finishes: no deadlock, barrier mismatch or endless loop",
  "In every mode, thread count and interleaving, all threads of every parallel region meet the same synchronisation in the same order and the run finishes within a bounded number of steps, also after a failed allocation, an unreachable accuracy or an I/O error once no further faults occur.",
  ["schedules", "fault_sequences", "configurations"],
  SCHED + ", every mode, unreachable accuracies and iteration limits, all fault kinds",
  "Tests cannot choose the schedule at which threads disagree about a loop exit.",
  ["src/Gfix/CFACG.c", "src/Gfix/Landau.c", "src/Gfix/Coulomb.c", "src/Gfix/MAG.c", "src/Update/KPHB.c", "src/Smear/wflowfuncs.c", "src/Smear/adaptive_flow.c"],
  [("loop exits decided from shared reductions", "src/Gfix, src/Smear, src/Update")],
  ["simulator's blocked-thread and step-budget detection"])
p("N01", "Matrix algebra identities hold", 
  "Products, inverses, exponentials, logarithms and projections of NC x NC matrices satisfy their algebraic identities to rounding.",
  ["inputs"], "all matrices", "Sampled values only; but there is no schedule, I/O, time or fault involved.",
  ["src/Matrix_Ops"], [("pure functions", "src/Matrix_Ops")], ["return values"])
p("N02", "Geometry maps are bijections",
  "Site index and coordinate maps, neighbour tables and momentum maps are mutually inverse for every lattice shape.",
  ["inputs"], "all lattice shapes", "Sampled shapes only; but there is no schedule, I/O, time or fault involved.",
  ["src/Geometry"], [("pure functions", "src/Geometry/geometry.c")], ["return values"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")

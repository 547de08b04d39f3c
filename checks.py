"""Per property: the seeds per simulator variant and tier, and the texts used in the evidence and the manifest."""
COMMON_ASSUMPTIONS = [
 "The simulator's OpenMP, heap, stdio and clock models behave as the real ones do for the calls the program makes; FFTW is replaced by a small exact DFT with the same plan interface, so defects inside FFTW or in how it vectorises are outside.",
 "Threads are interleaved at every recorded memory access and runtime call, sequentially consistent; compiler or hardware reorderings beyond that are covered only by reporting the data races that allow them.",
 "Lattices are small (at most a few hundred sites, sides of 2 and up) N is 2, 3 or 4, dimension 3 or 4 and there are at most 16 threads; behaviour that needs larger volumes is not reached.",
]
def W(total, **w):
    "total seeds shared over variants by weight"
    s = sum(w.values()); return {v: max(1, total * x // s) for v, x in w.items()}
STD = dict(nc3=46, nc2=18, nc4=10, nc3nd3=11, nc3nofft=9, nc3t16=6)
GEN = dict(nc3=45, nc2=14, nc4=8, nc3nd3=8, nc3t16=5, nc3kiss=5, nc3mwc1038=5, nc3xor=5, nc3well=5)
FIX = dict(nc3=36, nc2=14, nc4=8, nc3nd3=10, nc3nofft=8, nc3sd=12, nc3or=12, nc3t16=5)
ALL = dict(nc3=37, nc2=14, nc4=9, nc3nd3=10, nc3nofft=9, nc3sd=8, nc3or=8, nc3t16=5)
def C(q, t, w, chunk, nontrivial, **kw): return dict(quick=W(q, **w), thorough=W(t, **w), chunk=chunk, nontrivial=nontrivial + "; distinct by hash of the full event history", **kw)
CHECKS = {
 "C01": C(4000, 100000, STD, 20, "an execution in which an input configuration was read and an output configuration was written with more than one thread, a fault or a non-default memory path"),
 "C02": C(12000, 400000, dict(nc3=55, nc2=20, nc4=10, nc3nd3=15), 100, "an execution reading a damaged file, a file with changed check values, or a sound file with several threads"),
 "C03": C(2500, 80000, dict(nc3=55, nc2=20, nc4=10, nc3nd3=15), 20, "an execution in which a file fault was injected into a save"),
 "C04": C(2500, 80000, dict(nc3=55, nc2=20, nc4=10, nc3nd3=15), 20, "an execution whose output path already existed in some form, or whose second save meets the first one's file"),
 "C05": C(1100, 25000, GEN, 8, "a Monte-Carlo run with several threads under a perturbed schedule, clock, memory size or memory contents"),
 "C06": C(1300, 30000, GEN, 8, "a Monte-Carlo run that was killed, or whose saves were damaged by the kill, and was then restarted"),
 "C07": C(2200, 50000, dict(GEN, nc3kiss=12, nc3mwc1038=12, nc3xor=12, nc3well=12), 10, "a run that saved or loaded a generator state which was damaged, missing, of other shape, or continued the stream with several threads"),
 "C08": C(2600, 60000, FIX, 10, "a gauge-fixing run with several threads under a perturbed schedule, or with a fault or non-default memory"),
 "C09": C(2600, 60000, FIX, 10, "a gauge-fixing run with several threads under a perturbed schedule, or with a fault or non-default memory"),
 "C10": C(900, 20000, dict(nc3=45, nc2=20, nc4=10, nc3nd3=20, nc3t16=5), 5, "a smearing run with several threads under a perturbed schedule, memory size or memory contents, or on a transformed field"),
 "C11": C(1100, 25000, dict(nc3=41, nc2=20, nc4=12, nc3nd3=22, nc3t16=5), 5, "a flow run with several threads under a perturbed schedule, memory size or memory contents, on a transformed field, or compared with the independent integration"),
 "C12": C(2500, 60000, STD, 10, "a measurement with several threads under a perturbed schedule, memory size or memory contents, on a transformed or shifted field, or compared with the independent model"),
 "C13": C(4000, 100000, STD, 15, "an execution of a measurement that writes result files, with a fault injected, a pre-existing file or several threads"),
 "C14": C(4500, 120000, ALL, 15, "an execution in which an allocation failed by injection"),
 "C15": C(4000, 100000, ALL, 15, "an execution with a changed input file, configuration header or file fault"),
 "C16": C(2500, 60000, ALL, 10, "an execution under a clock that steps, jumps or starts at an unusual time"),
 "C17": C(3500, 100000, ALL, 10, "an execution of parallel regions with at least two threads"),
 "C18": C(5000, 120000, dict(nc3=36, nc2=20, nc3nd3=14, nc2nd3=6, nc3t16=4, nc3kiss=5, nc3mwc1038=5, nc3xor=5, nc3well=5), 20, "a U(1) run with several threads under a perturbed schedule or memory contents, or compared with the phases recovered from its output"),
 "C19": C(1200, 40000, ALL, 8, "an execution with other memory contents, a fault or several threads"),
 "C20": C(2200, 60000, ALL, 10, "an execution with several threads under an adversarial schedule, or with a fault"),
}

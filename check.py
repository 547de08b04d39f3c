#!/usr/bin/env python3
"""Decides one property by seeded simulation: builds the simulator variants from /repo's
working tree, searches scenarios/schedules/faults, confirms, minimises and records every
violation, writes the evidence file.
usage: check.py PROP [--tier quick|thorough] [--seed N] [--replay FILE]
exit 0: held on everything explored; 1: VIOLATION; 2: the check itself could not decide"""
import argparse, collections, concurrent.futures as cf, json, os, re, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sim"))
import build as B
from checks import CHECKS, COMMON_ASSUMPTIONS

def err(*a): print(*a, file=sys.stderr, flush=True)

def known():
    fnd = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", l)
            if m: fnd.append((m.group(1), m.group(2), m.group(3).strip()))
    return fnd

def sig(r): return (r["cls"] + "@" + (r["site"] or "-")).replace(" ", "_")

def run_json(cmd, timeout):
    try: p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired: return [], "timeout"
    out = []
    for l in p.stdout.splitlines():
        if l.startswith("{"):
            try: out.append(json.loads(l))
            except ValueError: return out, "unreadable output"
    return out, "" if p.returncode == 0 else "rc=%d %s" % (p.returncode, p.stderr[-300:])

class Search:
    def __init__(s, prop, cfg, exes, seed, deadline):
        s.prop, s.cfg, s.exes, s.seed, s.deadline = prop, cfg, exes, seed, deadline
        s.lock = threading.Lock(); s.res = []; s.errors = []; s.stop = False
    def chunks(s):
        """(variant, first seed, count): variants interleaved by weight, until the seed counts are used up"""
        todo = {v: n for v, n in s.cfg["seeds"].items()}
        nxt = {v: s.seed * 10000000 + 100000 * k for k, v in enumerate(sorted(B.VARIANTS))}
        c = s.cfg.get("chunk", 10); out = []
        total = {v: max(1, n) for v, n in todo.items()}
        while any(todo.values()):
            v = max((v for v in todo if todo[v]), key=lambda v: todo[v] / total[v])
            n = min(c, todo[v]); out.append((v, nxt[v], n)); nxt[v] += n; todo[v] -= n
        return out
    def work(s, c):
        if s.stop or time.time() > s.deadline: return
        v, s0, n = c
        left = max(1, s.deadline - time.time())
        r, e = run_json([s.exes[v], "batch", s.prop, str(s0), str(n), "%.0f" % left], left + 240)
        with s.lock:
            s.res += r
            if e: s.errors.append("%s seeds %d+%d: %s" % (v, s0, n, e))
            kinds = collections.Counter(sig(x) for x in s.res if x["bad"] and x["cls"] != "SIMFAIL")
            if sum(kinds.values()) >= 12: s.stop = True
    def run(s, workers=8):
        with cf.ThreadPoolExecutor(workers) as ex: list(ex.map(s.work, s.chunks()))

def confirm(exe, r, tmp):
    """the same plan twice in fresh processes must fail the same way with the same hash"""
    open(tmp, "w").write(r["plan"])
    hs = []
    for _ in range(2):
        x, e = run_json([exe, "exec", tmp], 300)
        if e or not x: return False, e or "no output"
        hs.append((x[0]["bad"], x[0]["cls"], x[0]["hash"]))
    if hs[0] != hs[1] or hs[0] != (True, r["cls"], r["hash"]): return False, "not reproducible: %s vs %s" % (hs, (r["cls"], r["hash"]))
    return True, ""

def replay(prop, f, exes=None):
    t = open(f).read(); kv = dict(l.split("=", 1) for l in t.splitlines() if "=" in l and not l.startswith("#"))
    v = kv.get("variant", "nc3"); exe = B.build([v])[v]
    x, e = run_json([exe, "exec", f], 600); y, e2 = run_json([exe, "exec", f], 600)
    if e or e2 or not x or not y: err("replay failed", e, e2); return 2
    a, b = x[0], y[0]
    if a["hash"] != b["hash"]: err("replay is not deterministic"); return 2
    if kv.get("expect.hash") and kv["expect.hash"] != a["hash"]: print("note: the execution differs from the recorded one (the code has changed)")
    print(a["cls"], a["site"], a["detail"])
    if a["bad"]: print("VIOLATION property=%s replay=%s" % (prop, f)); return 1
    print("property held on this replay"); return 0

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default="quick"); ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1)); ap.add_argument("--replay"); ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args(); prop = a.prop; t0 = time.time()
    if a.replay: return replay(prop, a.replay)
    base = CHECKS[prop]; cfg = {"seeds": {v: max(1, int(n * a.scale)) for v, n in base[a.tier].items()}, "chunk": base.get("chunk", 10)}
    budget = base.get("budget", {}).get(a.tier, 75 if a.tier == "quick" else 780)
    try: exes = B.build(sorted(cfg["seeds"]))
    except SystemExit as x: err(str(x)[-3000:]); return 2
    tb = time.time(); hard = t0 + 840
    S = Search(prop, cfg, exes, a.seed, min(tb + budget, hard - 100)); S.run()
    R = S.res; ts = time.time()
    if not R: err("no results", S.errors[:3]); return 2
    simfail = [r for r in R if r["cls"] == "SIMFAIL"]; bad = [r for r in R if r["bad"] and r["cls"] != "SIMFAIL"]
    # determinism: a sample of the seeds again, in fresh processes, must give identical executions
    good = [r for r in R if not r["bad"]]; step = max(1, len(good) // (24 if a.tier == "quick" else 200)); mism = []
    def again(r):
        x, e = run_json([exes[r["variant"]], "batch", prop, r["seed"], "1"], 300)
        if e or not x or x[0]["hash"] != r["hash"]: mism.append((r["variant"], r["seed"], e))
    sample = good[::step] if not bad else []
    sample = [r for r in sample if r["wall"] < 5]
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(again, sample))
    # violations
    kf = [(s_, t) for p_, s_, t in known() if p_ == prop]; seen = {}; viol = []; unconf = []; hits = collections.Counter()
    for r in sorted(bad, key=lambda r: r["wall"]): seen.setdefault(sig(r), []).append(r)
    rd = os.path.join(HERE, "replays"); os.makedirs(rd, exist_ok=True)
    for k, (sg, rs) in enumerate(sorted(seen.items(), key=lambda x: -len(x[1]))):
        if any(sg == s_ for s_, _ in kf): hits[sg] += len(rs); continue
        if len(viol) >= 3: break
        for r in rs[:3]:
            f = os.path.join(rd, "%s-%s-%s.plan" % (prop, r["variant"], r["seed"]))
            ok, why = confirm(exes[r["variant"]], r, f)
            if not ok: unconf.append("%s seed %s %s: %s" % (r["variant"], r["seed"], sg, why)); continue
            p = r["plan"].rstrip("\n") + "\nvariant=%s\nexpect.class=%s\nexpect.hash=%s\n" % (r["variant"], r["cls"], r["hash"])
            det = r["detail"]
            open(f, "w").write("# %s %s\n" % (r["cls"], r["site"]) + "".join("# %s\n" % l for l in det.splitlines()[:20]) + p)
            mt = min(60 if not viol else 20, hard - time.time() - 40)
            if mt > 5:
                open(f + ".full", "w").write(r["plan"])
                x, e = run_json([exes[r["variant"]], "min", f + ".full", f + ".min", "%.0f" % mt], mt + 120)
                if x and x[0]["bad"] and os.path.exists(f + ".min"):
                    open(f, "w").write(open(f + ".min").read()); det = x[0]["detail"]
                for q in (f + ".full", f + ".min"):
                    if os.path.exists(q): os.unlink(q)
            viol.append((r, f, det, len(rs))); break
    # evidence
    P, F, St, Sg = (collections.Counter() for _ in range(4)); inter = set(); bykind = collections.Counter()
    for r in R:
        for k, x in r["probes"].items(): P[k] += x
        for k, x in r["fired"].items(): F[k] += x
        for k, x in r["statuses"].items(): St[k] += x
        Sg[r["strategy"]] += 1; inter.update(r["inter"])
        m = re.search(r"^kind=(.*)$", r["plan"], re.M); bykind[m.group(1) if m else "-"] += 1
    runs = sum(r["runs"] for r in R); wall = max(0.1, ts - tb)
    ev = {"property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
      "coverage": {"evaluations": len(R), "distinct_nontrivial": len(set((r["variant"], r["hash"]) for r in R if r["nontrivial"])),
        "rule": base["nontrivial"], "samples": [{"variant": r["variant"], "seed": r["seed"], "strategy": r["strategy"], "plan": r["plan"][:1500]} for r in R[:: max(1, len(R) // 4)][:4]],
        "seeds_evaluated": len(R), "simulated_runs": runs, "seeds_per_hour": round(len(R) / wall * 3600), "runs_per_hour": round(runs / wall * 3600), "simulated_program_steps": sum(r["steps"] for r in R),
        "simulated_time_s": round(sum(r["vtime"] for r in R), 3), "context_switches": sum(r["switches"] for r in R), "max_threads": max(r["threads"] for r in R),
        "distinct_interleavings": len(inter), "interleaving_measure": "distinct hashes of the whole per-run sequence of (logical step, thread chosen) with at least one preemption, over all simulated runs",
        "faults_fired": dict(F), "outcomes_of_runs": dict(St), "schedulers": dict(Sg), "variants": dict(collections.Counter(r["variant"] for r in R)), "scenarios": dict(bykind), "probes": dict(P),
        "planned_seeds": cfg["seeds"], "determinism_rerun": {"seeds": len(sample), "mismatches": len(mism)}, "undecided_seeds": len(simfail), "worker_errors": S.errors[:5],
        "real_components": "all of the program: input and header parsing, configuration readers and writers, RNGs, update, gauge fixing, smearing, flow, cuts, U(1), observables, wrappers, main(); the C runtime's string and formatting functions",
        "stubbed_components": "OpenMP runtime (simulated threads), heap, stdio and file system (in memory, durable/volatile layers), clocks, /proc/meminfo, /dev/urandom, FFTW (exact small DFT with the same plan interface), exit/abort/signals"},
      "wall_s": round(time.time() - t0, 2), "violations": len(viol), "assumptions": COMMON_ASSUMPTIONS + base.get("assumptions", [])}
    if hits: ev["coverage"]["known_findings_hit"] = dict(hits)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for s_, t in kf: print("KNOWN-FINDING: property=%s %s (%s; seen %d times in this run)" % (prop, t, s_, hits[s_]))
    print("%s %s: %d seeds, %d runs, %d distinct interleavings, build %.0fs search %.0fs total %.0fs; faults %s" % (prop, a.tier, len(R), runs, len(inter), tb - t0, ts - tb, time.time() - t0, dict(F)))
    for r, f, det, n in viol:
        print("%s: %s %s (%d seeds); first: variant %s seed %s\n  %s" % (prop, r["cls"], r["site"], n, r["variant"], r["seed"], det[:1500].replace("\n", "\n  ")))
        print("VIOLATION property=%s replay=%s" % (prop, f))
    if viol: return 1
    for u in unconf[:3]: err("unconfirmed:", u)
    for m in mism[:3]: err("nondeterministic:", m)
    for r in simfail[:3]: err("simulator:", r["variant"], r["seed"], r["detail"][:500])
    for e in S.errors[:3]: err("worker:", e)
    # a few undecided seeds (a worker that ran out of time on a busy machine, a scenario the model cannot express) do not
    # make the rest undecided; a seed that is not reproducible does
    lost = len(simfail) + sum(int(re.search(r"\+(\d+):", e).group(1)) for e in S.errors if re.search(r"\+(\d+):", e))
    if unconf or any(not e for _, _, e in mism) or lost > max(1, 0.02 * (len(R) + lost)): return 2
    return 0

sys.exit(main())

// Command line of a simulator variant: batch (seeded search), exec (replay a plan), min (minimise a plan)
#include "harness.h"
#include "scen.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <sstream>

static str jesc(const str &s) {
  str o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) o += fmt("\\u%04x", c); else o += c; } return o;
}
static void set_variant(const str &v) {
  VARIANT = v; NC_ = 3; ND_ = 4; HAVE_FFT_ = true;
  if (v.compare(0, 3, "nc2") == 0) NC_ = 2;
  if (v.compare(0, 3, "nc4") == 0) { NC_ = 4; HAVE_FFT_ = false; }
  if (v.find("nofft") != str::npos) HAVE_FFT_ = false;
  if (v.find("nd3") != str::npos) ND_ = 3;
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static void evaluate(const Prop *P, const Plan &p, Eval &e) { P->check(p, e); }

static void report(const Prop *P, const str &seed, const Plan &p, const Eval &e, double wall) {
  str s = fmt("{\"prop\":\"%s\",\"variant\":\"%s\",\"seed\":\"%s\",\"bad\":%s,\"cls\":\"%s\",\"site\":\"%s\",\"detail\":\"", P->id.c_str(), VARIANT.c_str(), seed.c_str(), e.v.bad ? "true" : "false", jesc(e.v.cls).c_str(), jesc(e.v.site).c_str());
  s += jesc(e.v.detail.substr(0, 3000)) + fmt("\",\"hash\":\"%016llx\",\"runs\":%d,\"steps\":%llu,\"vtime\":%.6f,\"switches\":%llu,\"threads\":%llu,\"wall\":%.3f,\"nontrivial\":%s,\"fired\":{", (unsigned long long)e.hash, e.runs, (unsigned long long)e.steps, e.vtime, (unsigned long long)e.switches, (unsigned long long)e.maxthreads, wall, e.nontrivial ? "true" : "false");
  bool first = true;
  for (int k = 1; k < sim::F_NKINDS; k++) if (e.fired[k]) { s += fmt("%s\"%s\":%llu", first ? "" : ",", sim::fault_name(k), (unsigned long long)e.fired[k]); first = false; }
  s += "},\"inter\":["; first = true;
  for (auto h : e.inter) { s += fmt("%s\"%016llx\"", first ? "" : ",", (unsigned long long)h); first = false; }
  s += "],\"probes\":{"; first = true;
  for (auto &q : e.probes) { s += fmt("%s\"%s\":%ld", first ? "" : ",", jesc(q.first).c_str(), q.second); first = false; }
  s += "},\"statuses\":{"; first = true;
  for (auto &q : e.statuses) { s += fmt("%s\"%s\":%ld", first ? "" : ",", jesc(q.first).c_str(), q.second); first = false; }
  s += fmt("},\"strategy\":\"%s\",\"plan\":\"", p.has("sched") ? "explicit" : sim::strategy_name((int)p.num("strat")));
  s += jesc(p.text()) + "\"}";
  puts(s.c_str()); fflush(stdout);
}

static str slurp(const char *f) { std::ifstream i(f, std::ios::binary); std::stringstream b; b << i.rdbuf(); return b.str(); }

// ------------------------------------------------------------------ minimisation
struct Min {
  const Prop *P; Plan best; str cls, site; double deadline; int tries = 0;
  std::vector<sim::Decision> trace; bool over = false;
  bool bad(const Plan &p) {
    if (now() > deadline) return false;
    tries++;
    Eval e; evaluate(P, p, e);
    if (e.v.bad && e.v.cls == cls && e.v.site == site) { trace = e.last_trace; over = e.trace_over; return true; }
    return false;
  }
  bool tryset(const str &k, const str &v) { if (best.get(k) == v) return false; Plan q = best; if (v.empty()) q.kv.erase(k); else q.set(k, v); if (bad(q)) { best = q; return true; } return false; }
  void faults(const str &key) {
    for (bool again = true; again;) {
      again = false;
      auto f = plan_faults(best, key);
      for (size_t i = 0; i < f.size() && f.size() > 0; i++) { auto g = f; g.erase(g.begin() + i); Plan q = best; if (g.empty()) q.kv.erase(key); else q.set(key, faults_text(g)); if (bad(q)) { best = q; again = true; break; } }
    }
  }
  void run() {
    faults("faults");
    tryset("strat", "0"); tryset("nt", "1"); if (best.num("nt") > 2) tryset("nt", "2"); if (best.num("nt") > 3) tryset("nt", "3");
    tryset("fill", "0"); tryset("mem", ""); tryset("bufsz", "8192"); tryset("clock0", ""); tryset("conf", "unit");
    for (const char *k : {"in.SMITERS", "in.ITERS", "in.THERM", "in.OVER_ITERS", "in.MAX_ITERS", "in.MAX_T"}) if (best.has(k)) for (long long v : {0, 1, 2, 3, 5}) if (v < best.num(k) && tryset(k, fmt("%lld", v))) break;
    if (best.has("dims")) {
      for (bool again = true; again;) {
        again = false; auto d = plan_dims(best);
        for (size_t i = 0; i < d.size() && !again; i++) for (int v : {2, 3, 4}) if (v < d[i]) { auto q = d; q[i] = v; str s; for (int x : q) s += (s.empty() ? "" : "x") + fmt("%d", x); if (tryset("dims", s)) { again = true; break; } }
      }
    }
    faults("faults");
    if (best.num("strat") != 0 && best.num("nt") > 1) {
      // turn the seeded schedule into an explicit list of preemptions and shrink it
      bad(best);
      if (!over && !trace.empty() && trace.size() < 200000) {
        auto cur = trace;
        auto text = [](const std::vector<sim::Decision> &v) { str s; for (auto &d : v) s += fmt("%s%llu:%u", s.empty() ? "" : ",", (unsigned long long)d.tick, d.tid); return s.empty() ? str("none") : s; };
        Plan q = best; q.set("sched", text(cur));
        if (bad(q)) {
          best = q;
          size_t n = 2;
          while (cur.size() >= 1 && now() < deadline) {
            size_t chunk = (cur.size() + n - 1) / n; bool red = false;
            for (size_t i = 0; i < cur.size(); i += chunk) {
              std::vector<sim::Decision> t(cur.begin(), cur.begin() + i);
              t.insert(t.end(), cur.begin() + std::min(cur.size(), i + chunk), cur.end());
              Plan z = best; z.set("sched", text(t));
              if (bad(z)) { cur = t; best = z; red = true; n = n > 2 ? n - 1 : 2; break; }
            }
            if (!red) { if (chunk <= 1) break; n = std::min(cur.size(), n * 2); }
          }
        }
      }
    }
  }
};

int main(int argc, char **argv) {
  setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
  str exe = argv[0]; size_t sl = exe.rfind("sim_"); set_variant(sl == str::npos ? "nc3" : exe.substr(sl + 4));
  sim::init();
  str cmd = argc > 1 ? argv[1] : "";
  if (cmd == "batch" && argc >= 5) {
    const Prop *P = find_prop(argv[2]); if (!P) return 3;
    u64 s0 = strtoull(argv[3], 0, 10), n = strtoull(argv[4], 0, 10); double dl = argc > 5 ? atof(argv[5]) : 1e18, t0 = now();
    for (u64 s = s0; s < s0 + n; s++) {
      if (now() - t0 > dl) break;
      double t = now(); Plan p = P->gen(s); p.set("prop", P->id); limit_cost(p);
      if (getenv("SIM_PLAN")) fprintf(stderr, "seed %llu\n%s", (unsigned long long)s, p.text().c_str());
      Eval e; evaluate(P, p, e); report(P, fmt("%llu", (unsigned long long)s), p, e, now() - t);
    }
    return 0;
  }
  if ((cmd == "exec" || cmd == "min") && argc >= 3) {
    Plan p = Plan::parse(slurp(argv[2])); const Prop *P = find_prop(p.get("prop")); if (!P) return 3;
    if (cmd == "exec") { double t = now(); Eval e; evaluate(P, p, e); report(P, p.get("seed"), p, e, now() - t); return 0; }
    Eval e; evaluate(P, p, e);
    if (!e.v.bad) { fprintf(stderr, "plan does not fail\n"); return 4; }
    Min m; m.P = P; m.best = p; m.cls = e.v.cls; m.site = e.v.site; m.deadline = now() + (argc > 4 ? atof(argv[4]) : 60);
    m.run();
    Eval f; evaluate(P, m.best, f);
    if (!f.v.bad || f.v.cls != m.cls) { fprintf(stderr, "minimised plan does not fail\n"); return 5; }
    std::ofstream o(argv[3], std::ios::binary);
    o << "# minimised scenario: " << m.tries << " candidates tried\n# " << f.v.cls << (f.v.site.empty() ? "" : " in " + f.v.site) << "\n";
    str det = f.v.detail.substr(0, 1500); for (auto &l : split(det, '\n')) o << "# " << l << "\n";
    m.best.set("variant", VARIANT); m.best.set("prop", P->id);
    m.best.set("expect.class", f.v.cls); m.best.set("expect.hash", fmt("%016llx", (unsigned long long)f.hash));
    o << m.best.text();
    o.close();
    report(P, p.get("seed"), m.best, f, 0);
    return 0;
  }
  if (cmd == "list") { for (auto &P : props()) puts(P.id.c_str()); return 0; }
  fprintf(stderr, "usage: batch PROP SEED0 N [SECONDS] | exec PLAN | min PLAN OUT [SECONDS] | list\n");
  return 2;
}

"""Running checks: jobs in worker processes, violations, known findings, evidence."""
import os, sys, json, time, traceback, multiprocessing as mp, random, fnmatch
import sx
from sx import VERIF
class Viol(dict):
    """One violation found by a job: sig (stable identity), title, detail, files (name->bytes)"""
def viol(sig, title, detail="", files=None): return Viol(sig=sig, title=title, detail=detail, files={k: (v if isinstance(v, bytes) else str(v).encode()) for k, v in (files or {}).items()})

_JOBS = None
def _worker(i):
    name, fn, args = _JOBS[i]
    t0 = time.time(); s0 = sx.stats(); err = None; res = None
    try: res = fn(*args)
    except sx.Incomplete as e: err = "incomplete: %s" % e
    except sx.Unknown as e: err = "solver gave no answer: %s" % e
    except Exception: err = "error: " + traceback.format_exc()
    s1 = sx.stats(); d = {k: (s1[k] - s0[k] if k != "expr_nodes" else s1[k]) for k in s1}
    return i, res, err, d, time.time() - t0

class Result:
    """What a job returns: violations, counters, samples of explored cases."""
    def __init__(self): self.viols = []; self.n = {}; self.samples = []; self.funcs = set()
    def count(self, k, n=1): self.n[k] = self.n.get(k, 0) + n
    def sample(self, s):
        if len(self.samples) < 3: self.samples.append(s)
    def add(self, *v): self.viols.extend(v)

class Check:
    def __init__(self, pid, level, technique, assumptions=()):
        self.pid = pid; self.level = level; self.technique = technique; self.assumptions = list(assumptions); self.jobs = []
        self.tier = "thorough" if "thorough" in sys.argv[1:] else "quick"
        self.only = [a for a in sys.argv[1:] if a not in ("quick", "thorough", "-v")]
        self.seed = int(os.environ.get("VERIF_SEED", "1")); self.t0 = time.time(); self.bounds = {}; self.extra = {}; self.vacuity = {}
        self.verbose = "-v" in sys.argv
    @property
    def thorough(self): return self.tier == "thorough"
    def job(self, name, fn, *args):
        if self.only and not any(fnmatch.fnmatch(name, o) for o in self.only): return
        self.jobs.append((name, fn, args))
    def run(self, need=(), limits=None):
        """need: counters that must be non-zero (reachability witnesses); limits: counter -> (base counter, largest fraction of it)"""
        global _JOBS
        _JOBS = self.jobs; sx.tmpdir()
        tot = {}; n = {}; viols = []; errs = []; samples = []; per = {}
        nproc = min(8, max(1, len(self.jobs)))
        ctx = mp.get_context("fork")
        with ctx.Pool(nproc, maxtasksperchild=int(os.environ.get("SX_TASKS", "20"))) as pool:
            for i, res, err, st, dt in pool.imap_unordered(_worker, range(len(self.jobs))):
                name = self.jobs[i][0]; per[name] = round(dt, 2)
                if self.verbose: print("job %-40s %.1fs %s q=%d" % (name, dt, err.strip().split("\n")[-1] if err else "ok", st["queries"]), flush=True)
                for k, v in st.items(): tot[k] = tot.get(k, 0) + v if k != "expr_nodes" else max(tot.get(k, 0), v)
                if err: errs.append((name, err)); continue
                for k, v in res.n.items(): n[k] = n.get(k, 0) + v
                viols += [(name, v) for v in res.viols]; samples += [{"job": name, "case": s} for s in res.samples]
        for k, (base, frac) in (limits or {}).items():
            if n.get(k, 0) > frac * n.get(base, 0): errs.append(("-", "%s: %d of %d %s" % (k, n.get(k, 0), n.get(base, 0), base)))
        return self.report(viols, errs, n, tot, samples, per, need)
    def report(self, viols, errs, n, tot, samples, per, need):
        known = []
        kf = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(kf):
            for line in open(kf):
                line = line.strip()
                if line and not line.startswith("fixed:"):
                    k = json.loads(line)
                    if k.get("property") == self.pid and "sig" in k: known.append(k)
        hit = set(); new = []
        for name, v in viols:
            k = next((k for k in known if k["sig"] == v["sig"]), None)
            if k: hit.add(k["sig"])
            else: new.append((name, v))
        for k in known:
            if k["sig"] in hit: print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        missing = [c for c in need if not n.get(c)] if not self.only else []
        rd = os.path.join(VERIF, "replays"); rc = 0
        seen = {}
        for name, v in new:
            if v["sig"] in seen: seen[v["sig"]] += 1; continue
            seen[v["sig"]] = 1
            if len(seen) > (400 if os.environ.get('SX_ALLV') else 12): continue
            d = os.path.join(rd, "%s-%02d" % (self.pid, len(seen))); os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "README"), "w") as f: f.write("property %s job %s\n%s\n\n%s\n" % (self.pid, name, v["title"], v["detail"]))
            for fn, b in v["files"].items():
                with open(os.path.join(d, os.path.basename(fn)), "wb") as f: f.write(b)
            print("VIOLATION property=%s replay=%s" % (self.pid, d)); print("  %s [%s]" % (v["title"][:400], v["sig"][:120])); rc = 1
            if self.verbose: print(v["detail"])
        for name, e in errs: print("NO-ANSWER property=%s job=%s %s" % (self.pid, name, e.strip().replace("\n", "\n    ")))
        if missing: print("VACUOUS property=%s nothing reached: %s" % (self.pid, ", ".join(missing)))
        if rc == 0 and (errs or missing): rc = 2
        wall = time.time() - self.t0
        cov = {"technique": self.technique, "jobs": len(self.jobs), "counters": n, "solver": tot, "bounds": self.bounds, "samples": samples[:8], "slowest_jobs": dict(sorted(per.items(), key=lambda x: -x[1])[:5]), "incomplete_jobs": [e[0] for e in errs], "known_findings_seen": sorted(hit)}
        cov.update(self.cov_level(n, tot)); cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov, "wall_s": round(wall, 2), "assumptions": self.assumptions, "violations": len(new)}
        if not self.only:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
        print("%s %s: %s jobs=%d %s queries=%d solver=%.1fs wall=%.1fs" % (self.pid, self.tier, {0: "held", 1: "VIOLATED", 2: "no answer"}[rc], len(self.jobs), n, tot.get("queries", 0), tot.get("solver_s", 0), wall))
        sys.stdout.flush(); return rc
    def cov_level(self, n, tot):
        if self.level == "other": return {"explanation": self.technique + ". Each job symbolically executes the current source (regenerated LLVM IR or compiled output) over all values of its symbolic variables within the bounds; the SMT solver decides every path condition and assertion. Counters, queries and solver time are measured on this run."}
        return {}

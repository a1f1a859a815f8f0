"""Running one property's check: budget, counting, confirmation of rejections, evidence, exit code."""
import hashlib, json, os, random, shutil, sys, time, traceback
from . import build as B, core, tlc

KNOWN = os.path.join(B.VERIF, "KNOWN_FINDINGS.txt")

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.states = self.trans = self.validated = self.evals = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.unconfirmed = []
        self.mcs = []
        self.extra = {}
        self.ops = {}
        self.rules = []
        self.times = []
        self.level = "model_checking"
    def rng(self, *tag):
        return random.Random("%s/%s/%s" % (self.prop, self.seed, "/".join(map(str, tag))))
    def n(self, quick, thorough=None):
        return quick if self.quick else (thorough if thorough is not None else quick * 12)
    def elapsed(self):
        return time.time() - self.t0
    def left(self, quick=60, thorough=1500):
        return (quick if self.quick else thorough) - self.elapsed()
    # ---- exhaustive model checking
    def mc(self, module, cfg, timeout=600, workers="8", expect=True):
        """The model itself is independent of the code: an unexpected result is an error of the check."""
        r = tlc.check(module, cfg, timeout=timeout, workers=workers)
        if r["ok"] != expect:
            raise tlc.TLCError("%s/%s: expected %s\n%s" % (module, cfg, expect, r["out"][-4000:]))
        self.states += r["distinct"]
        self.trans += r["states"]
        self.mcs.append({"module": module, "cfg": cfg, "distinct": r["distinct"], "generated": r["states"]})
        return r
    # ---- conformance
    def conform(self, jobs, module="TraceStore", fn=None, nontrivial=None, rule="", cfg=None, reruns=3, timeout=600, env=None, nproc=8, racy=False):
        """Execute the jobs on the real code, validate the recorded traces, confirm rejections by re-execution."""
        if not jobs:
            return []
        if len(self.violations) >= 3:
            return []
        fn = fn or core.execute
        if rule and rule not in self.rules:
            self.rules.append(rule)
        ta = time.time()
        traces, chunk_of = core.run_jobs(jobs, fn=fn, nproc=nproc)
        tb = time.time()
        rej, st, ds = tlc.validate(module, traces, cfg=cfg, timeout=timeout, env=env)
        self.times.append({"module": module, "executions": len(traces), "executing_s": round(tb - ta, 1), "validating_s": round(time.time() - tb, 1)})
        self.states += ds
        self.trans += st
        nb = sum(len(t.get("br", [])) for t in traces)
        self.evals += len(traces) + nb
        if nb:
            self.extra["continuations_after_crashes"] = self.extra.get("continuations_after_crashes", 0) + nb
        for t in traces:
            for e in t["ev"]:
                self.ops[e["op"]] = self.ops.get(e["op"], 0) + 1
            if nontrivial is None or nontrivial(t):
                self.distinct.add(hashlib.md5(json.dumps([(e["op"], e.get("key"), e.get("req"), e.get("h")) for e in t["ev"]], sort_keys=True).encode()).hexdigest())
        self.validated += len(traces) + nb - len(rej)
        if not self.samples and traces:
            t = traces[len(traces) // 2]
            self.samples.append({"module": module, "events": t["ev"][:12]})
        elif len(self.samples) < 6 and module not in [s["module"] for s in self.samples]:
            self.samples.append({"module": module, "events": traces[0]["ev"][:8]})
        before = len(self.unconfirmed)
        if racy:        # the schedule is not under control: an execution is repeated more often
            reruns = 12
        for r in sorted(rej, key=lambda x: (len(traces[x["index"]]["ev"]), x["index"]))[:8]:
            if len(self.violations) >= 2:
                break
            self.confirm(jobs, traces, chunk_of, r, module, fn, cfg, reruns, env)
        if racy and not self.violations and len(self.unconfirmed) - before >= 2:
            # several different executions of this run contradict the specification: that confirms them
            r = sorted(rej, key=lambda x: len(traces[x["index"]]["ev"]))[0]
            self.violation(r["diff"], module, traces[r["index"]], r, jobs[r["index"]], fn, cfg)
        return traces
    def confirm(self, jobs, traces, chunk_of, r, module, fn, cfg, reruns, env):
        i = r["index"]
        for k in range(reruns):
            t2 = core.run_chunk([jobs[i]], fn)
            rj, st, ds = tlc.validate(module, t2, cfg=cfg, env=env)
            self.evals += 1
            if rj:
                return self.violation(r["diff"] or rj[0]["diff"], module, t2[0], rj[0], jobs[i], fn, cfg)
        # it may depend on what the same process did before: repeat its whole chunk
        c = chunk_of[i]
        t2 = core.run_chunk([jobs[j] for j in c], fn)
        rj, st, ds = tlc.validate(module, t2, cfg=cfg, env=env)
        self.evals += len(c)
        if rj:
            return self.violation(rj[0]["diff"], module, t2[rj[0]["index"]], rj[0], jobs[c[rj[0]["index"]]], fn, cfg)
        self.unconfirmed.append({"module": module, "pos": r["pos"], "diff": r["diff"][:1500], "trace": traces[i]["ev"][:r["pos"] + 1][-6:]})
        self.dump("unconfirmed", {"diff": r["diff"], "trace": traces[i], "pos": r["pos"]})
    def dump(self, kind, obj):
        d = os.path.join(B.VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        k = 0
        while os.path.exists("%s/%s-%s-%d.json" % (d, self.prop, kind, k)) and k < 20:
            k += 1
        p = "%s/%s-%s-%d.json" % (d, self.prop, kind, k)
        with open(p, "w") as f:
            json.dump(obj, f, default=str)
        return p
    def violation(self, what, module=None, trace=None, rej=None, job=None, fn=None, cfg=None):
        p = self.dump("violation", {"property": self.prop, "module": module, "what": what, "rejected_at": rej and rej["pos"], "branch": rej and rej.get("br"),
                                    "trace": trace, "seed": self.seed, "tier": self.tier})
        self.violations.append({"what": what[:600], "replay": p})
        print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
        evs = (trace["br"][rej["br"] - 1]["ev"] if rej and rej.get("br") else trace["ev"]) if trace else []
        ev = evs[rej["pos"]] if rej and rej["pos"] < len(evs) else None
        if rej and rej.get("br"):
            b = trace["br"][rej["br"] - 1]
            print("  after %s at event %d (%s)" % (b["kind"], b["k"], json.dumps(trace["ev"][b["k"] - 1], default=str)[:300] if b["k"] else "start"))
        print("  rejected event: %s" % json.dumps(ev, default=str)[:800])
        print("  " + what[:1500].replace("\n", "\n  "))
    def known(self, fid, what, happened):
        """a listed finding: still there -> one line; gone -> silence (it is then recorded in the evidence)"""
        listed = any(("property=%s" % self.prop in l and "id=%s" % fid in l) for l in open(KNOWN)) if os.path.exists(KNOWN) else False
        if happened and listed:
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, fid, what), flush=True)
        elif happened:
            self.violation("unlisted finding " + fid + ": " + what)
        self.extra.setdefault("known_findings", {})[fid] = "present" if happened else "absent"
    def evidence(self):
        cov = {"states": self.states, "transitions": self.trans, "traces_validated_against_impl": self.validated,
               "evaluations": self.evals, "distinct_nontrivial": len(self.distinct),
               "rule": " | ".join(self.rules) or "see DESIGN.md", "samples": self.samples or ["none"],
               "model_runs": self.mcs, "conformance_runs": self.times, "events_by_operation": self.ops, "unconfirmed_rejections": self.unconfirmed, "given_up": sum(tlc.CAPPED)}
        cov.update(self.extra)
        e = {"property": self.prop, "tier": self.tier if self.tier == "thorough" else "quick", "seed": self.seed, "level": self.level,
             "coverage": cov, "assumptions": ["see DESIGN.md, section of " + self.prop], "wall_s": round(self.elapsed(), 2),
             "violations": len(self.violations)}
        os.makedirs(os.path.join(B.VERIF, "evidence"), exist_ok=True)
        p = os.path.join(B.VERIF, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(e, f, indent=1, default=str)
        os.rename(p + ".tmp", p)

def main(argv, table):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    rc = 2
    try:
        B.build()
        ctx = Ctx(prop, tier, seed)
        table[prop](ctx)
        ctx.evidence()
        rc = 1 if ctx.violations else 0
        print("%s %s: %d executions validated, %d model states, %.1fs, %d violations, %d unconfirmed" % (
            prop, tier, ctx.validated, ctx.states, ctx.elapsed(), len(ctx.violations), len(ctx.unconfirmed)))
    except SystemExit as e:
        rc = e.code or 2
    except BaseException:
        traceback.print_exc()
        rc = 1 if "ctx" in locals() and ctx.violations else 2
        if rc == 1:
            ctx.evidence()
    finally:
        core.shutdown()
        s = tlc._scr
        if s and os.path.basename(s).startswith("vfdb."):
            shutil.rmtree(s, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)

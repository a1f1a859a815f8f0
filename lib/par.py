"""Executions with sections in which several threads call the same handles (TracePar)."""
import json
from . import core
from .core import Exec, Gen

class ParExec(Exec):
    def step(self, e):
        if e["op"] == "scbs":
            r = super().step(dict(e, op="cbs"))
            self.ev[-1]["op"] = "scbs"
            return r
        if e["op"] not in ("par", "stress"):
            return super().step(e)
        p = e["threads"][0][0]["h"].split(".")[0]
        ths = []
        for th in e["threads"]:
            ths.append([json.dumps(self.command(c)) for c in th])
        r = self.raw(p + ".x", {"op": "par", "threads": ths, "jitter": e["jitter"]})
        if not r["ok"]:
            self.ev.append({"op": "open", "h": "died", "sub": False, "res": r["ex"], "what": r["what"]})
            return r
        calls = []
        for t, (th, out) in enumerate(zip(e["threads"], r["threads"])):
            for c, o in zip(th, out):
                c = dict(c, t=t, s=o["s"], e=o["e"])
                c["res"] = "ok" if o["r"]["ok"] else o["r"]["ex"]
                if not o["r"]["ok"]:
                    c["what"] = o["r"]["what"]
                self.observe(c, o["r"])
                c["n"] = len(c.get("obs", c.get("vs", [])))
                calls.append(c)
        base = min(c["s"] for c in calls)
        for c in calls:
            c["s"] -= base
            c["e"] -= base
        calls.sort(key=lambda c: c["s"])
        if e["op"] == "par":
            s = {"op": "par", "h": p, "res": "ok", "calls": calls, "order": {}}
            self.ev.append(s)
            for h in sorted({c["h"] for c in calls}):
                super().step({"op": "cbs", "h": h})
                s["order"][h] = [x["v"] for x in self.ev[-1]["cbs"]]
        else:   # different keys, nothing looked at: every order of these calls leaves the same state after a flush
            for c in calls:
                if c["op"] == "archive" or c["res"] != "ok":
                    c.pop("n")
                    self.ev.append(c)
        return r
    def command(self, c):
        o = {"op": c["op"], "h": self.dir + c["h"]}
        if c["op"] == "archive":
            o.update(key=core.order_key(c, self.w), v=c["v"], len=c["len"])
        elif c["op"] in ("list", "axes"):
            o.update({k: c[k] for k in ("level", "mode") if k in c}, all=not c["req"], data=True)
            if c["req"]:
                o["req"] = c["req"]
        elif c["op"] in ("inspect", "retrieve"):
            o["req"] = c["req"]
        return o

    def finish(self):
        t = super().finish()
        db = {}
        for e in t["ev"]:
            for c in e.get("calls", [e]):
                if c["op"] == "archive":
                    db[c["v"]] = {k: c["key"][k] for k in self.w.db}
        t["vdb"] = [db.get(v, {}) for v in range(1, max(db, default=0) + 1)]
        return t

def execute(job):
    w, events = job
    x = ParExec(w, core._pool)
    try:
        for e in events:
            x.step(e)
            if x.dead:
                break
    finally:
        t = x.finish()
    return t

def gen(w, rng, weights, sections=4, threads=(2, 3, 4), calls=(1, 2, 3), handles=("p1.a",), stress=.4):
    """threads on one object (or a few), with everything else in between done one after the other"""
    g = Gen(w, rng, weights, handles=handles, readers=())
    ev, opened = [], set()
    for h in handles:
        ev.append({"op": "open", "h": h, "sub": rng.random() < w.sub, "cb": True})
    ops, ws = zip(*weights.items())
    n = len(ev)
    def call(h, op=None):
        op = op or rng.choices(ops, ws)[0]
        if op == "archive":
            g.v += 1
            k = g.key()
            o = list(k)
            rng.shuffle(o)
            return {"op": "archive", "h": h, "key": k, "ord": o, "v": g.v, "len": rng.choice([10, 24, 100, 3000])}
        if op in ("flush", "dirty"):
            return {"op": op, "h": h}
        if op == "list":
            return {"op": op, "h": h, "req": g.request(), "level": 3, "mode": rng.choice(["full", "dedup", "dups"])}
        if op == "axes":
            # which fields were published together is not known after a stress, so no index is selected by its data
            return {"op": op, "h": h, "req": {k: v for k, v in g.request().items() if k not in w.dt}, "level": 3}
        return {"op": op, "h": h, "req": g.request(full=True)}
    vals = w.values()
    for _ in range(sections):
        for _ in range(rng.randint(0, 3)):
            ev.append(call(rng.choice(handles)))
        jit = rng.choice([0, 20, 100, 400])
        if rng.random() < stress:
            nt = rng.choice([2, 4, 8])
            ks, seen = [], set()
            for _ in range(nt * rng.choice([5, 15])):
                k = {x: rng.choice(v) for x, v in vals.items()}
                if tuple(k.values()) not in seen:
                    seen.add(tuple(k.values()))
                    ks.append(k)
            for h in handles:
                ev.append({"op": "flush", "h": h})
            ths = [[] for _ in range(nt)]
            for i, k in enumerate(ks):
                g.v += 1
                g.keys.append(k)
                h = handles[i % len(handles)]
                ths[i % nt].append({"op": "archive", "h": h, "key": k, "v": g.v, "len": rng.choice([10, 300])})
                if rng.random() < .1:
                    o = rng.choice(["flush", "list", "retrieve", "inspect", "axes"])
                    ths[i % nt].append(call("p1.q" if o in ("retrieve", "inspect") else h, o))
            ev.append({"op": "open", "h": "p1.q"})
            ev.append({"op": "stress", "threads": [t for t in ths if t], "jitter": jit})
            ev.append({"op": "close", "h": "p1.q"})
            for h in handles:
                ev.append({"op": "flush", "h": h})
                ev.append({"op": "scbs", "h": h})
        else:
            for h in handles:
                ev.append({"op": "cbs", "h": h})
            ev.append({"op": "par", "jitter": jit, "threads": [[call(rng.choice(handles)) for _ in range(rng.choice(calls))] for _ in range(rng.choice(threads))]})
        if rng.random() < .5:
            ev.append({"op": "open", "h": "p2.r"})
            ev.append({"op": "list", "h": "p2.r", "req": {}, "level": 3, "mode": "full"})
            ev.append({"op": "close", "h": "p2.r"})
    for h in handles:
        ev.append({"op": "close", "h": h, "cb": True})
    ev.append({"op": "open", "h": "p2.z"})
    for mode in ("full", "dedup", "dups"):
        ev.append({"op": "list", "h": "p2.z", "req": {}, "level": 3, "mode": mode})
    for _ in range(2):
        ev.append({"op": "retrieve", "h": "p2.z", "req": g.request(full=True)})
    ev.append({"op": "ls", "h": "p2.z"})
    return ev

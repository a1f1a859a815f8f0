"""Histories of several writing and reading processes, as traces of TraceCommit, with continuations after crashes."""
import json, os, random, shutil
from . import build as B, core, fslog, tlc
from .core import World, Exec, merged

LOCKS = ("list", "retrieve", "archive", "wipe")
MUT = ("creat", "trunc", "write", "sync", "rename", "unlink", "mkdir", "rmdir", "ftruncate")

def config(world, d):
    cfg = {"type": "local", "engine": "toc", "schema": d + "/schema", "spaces": [{"handler": "Default", "roots": [{"path": d + "/root"}]}]}
    cfg.update(world.extra_cfg)
    return json.dumps(cfg)

def to_cmd(w, e, cfg, d):
    """model-level event -> driver command"""
    op = e["op"]
    if op == "open":
        u = dict(w.user)
        if e.get("sub"):
            u["useSubToc"] = True
        return {"op": "open", "h": e["h"], "cfg": cfg, "user": json.dumps(u)}
    if op == "archive":
        return {"op": op, "h": e["h"], "key": core.order_key(e, w), "v": e["v"], "len": e["len"]}
    if op in ("close", "flush"):
        return {"op": op, "h": e["h"]}
    if op == "list":
        c = {"op": op, "h": e["h"], "mode": e.get("mode", "dedup"), "level": 3, "data": True, "all": not e["req"]}
        if e["req"]:
            c["req"] = e["req"]
        return c
    if op in ("retrieve", "inspect"):
        return {"op": op, "h": e["h"], "req": e["req"]}
    c = {k: e[k] for k in e if k not in ("op", "h", "req")}
    c.update({"op": op, "h": e["h"], "all": not e["req"]})
    if e["req"]:
        c["req"] = e["req"]
    return c

def observe(e, r):
    """completed ret event"""
    o = {"op": "ret", "api": e["op"], "res": "ok" if r.get("ok") else r.get("ex", "died")}
    if not r.get("ok"):
        o["what"] = str(r.get("what", ""))[:300]
    for k in ("key", "v", "len", "sub", "req", "doit"):
        if k in e:
            o[k] = e[k]
    if e["op"] == "list":
        o["obs"] = [{"k": merged(x["k"]), "v": x.get("v", -4), "len": x.get("len", -4)} for x in r.get("elems", [])] if r.get("ok") else []
    elif e["op"] == "retrieve":
        o["obs"] = [{"v": v} for v in r.get("vs", [])] if r.get("ok") else []
    if e["op"] == "open":
        o["sub"] = bool(e.get("sub"))
    if e.get("reader"):
        o["api"] = "reader"
    return o

class Hist:
    """One recorded history: the TraceCommit events, and the log with the positions of its events."""
    def __init__(self, world, scripts, mode, seed, d, kill=None):
        self.w, self.d = world, d
        root = d + "/root"
        os.makedirs(root, exist_ok=True)
        with open(d + "/schema", "w") as f:
            f.write(world.schema())
        cfg = config(world, d)
        cmds = [[to_cmd(world, e, cfg, d) for e in s] for s in scripts]
        self.log, self.blob, self.out, self.rc = fslog.record(cmds, root, d, mode, seed, env=world.env, res=world.res, kill=kill)
        self.ids = {}
        self.tocs = {}
        self.convert(scripts, kill)
    def id(self, *k):
        return self.ids.setdefault(k, len(self.ids) + 1)
    def convert(self, scripts, kill=None):
        ev, at = [], []          # at[i]: number of log entries up to and including event i
        cur = [0] * len(scripts)
        for p in range(len(scripts)):
            if scripts[p]:
                ev.append(self.call(scripts, p, 0))
                at.append(0)
        self.mut = []            # positions (events, log entries) after which the file system has changed
        for n, x in enumerate(self.log, 1):
            if x["op"] == "exit" and kill and x["p"] == kill[0] and x["rc"] == -9:
                cur[x["p"]] = 10 ** 6
                ev.append({"op": "die", "p": "w%d" % x["p"]})
                at.append(n)
                continue
            e = self.one(x, scripts, cur)
            if e:
                ev.append(e)
                at.append(n)
                if e["op"] == "ret" and cur[x["p"]] < len(scripts[x["p"]]):
                    ev.append(self.call(scripts, x["p"], cur[x["p"]]))
                    at.append(n)
            if x["op"] in MUT:
                self.mut.append((len(ev), n))
        # a process that ended without answering
        for p, s in enumerate(scripts):
            if cur[p] < len(s) and cur[p] < 10 ** 6:
                ev.append(dict(observe(s[cur[p]], {"ok": False, "ex": "died"}), p="w%d" % p))
                at.append(len(self.log))
        self.ev, self.at = ev, at
    def call(self, scripts, p, i):
        e = scripts[p][i]
        api = "reader" if e.get("reader") else e["op"]
        if api in ("wipe", "purge") and not e["doit"]:
            api = "dry"
        return {"op": "call", "p": "w%d" % p, "api": api}
    def one(self, x, scripts, cur):
        op, p = x["op"], x["p"]
        if op == "resp":
            i = cur[p]
            cur[p] += 1
            r = self.out[p][i] if i < len(self.out[p]) else {"ok": False, "ex": "died"}
            return dict(observe(scripts[p][i], r), p="w%d" % p) if i < len(scripts[p]) else None
        if op in ("mkdir", "rmdir", "read", "fail", "exit"):
            return None
        f = x["f"]
        p = "w%d" % p
        dirn, name = os.path.split(f)
        toc = name == "toc" or name.startswith("toc.")
        d = dict(zip(self.w.db, dirn.split(":"))) if toc else None
        sid = 0 if name == "toc" else self.id(dirn, name) if toc else -1
        if name.endswith(".lock") and name[:-5] in LOCKS and op in ("creat", "trunc", "unlink"):
            return {"op": "unlock" if op == "unlink" else "lock", "p": p, "d": dict(zip(self.w.db, dirn.split(":"))), "id": name[:-5]}
        if toc:
            self.tocs[f] = {"f": f, "d": d, "sid": sid}
        if op in ("creat", "trunc"):
            return {"op": "creat", "p": p, "f": f}
        if op == "sync":
            return {"op": "sync", "p": p, "f": f}
        if op == "rename":
            return {"op": "rename", "p": p, "f": f, "to": x["to"]}
        if op == "unlink":
            return {"op": "unlink", "p": p, "f": f, "main": name == "toc", "d": dict(zip(self.w.db, dirn.split(":")))}
        if op == "write" and not toc:
            return {"op": "write", "p": p, "f": f, "off": x["off"], "n": x["len"]}
        if op == "write":
            recs = []
            for r in fslog.records(self.blob[x["blob"]:x["blob"] + x["len"]], list(self.w.ix)):
                o = {"t": r["t"]}
                if r["t"] == "IDX":
                    o.update(id=self.id(dirn, r["name"], r["off"]), idx=dirn + "/" + r["name"], off=r["off"],
                             data=[dirn + "/" + y for y in r["data"]], ik=r["ik"])
                elif r["t"] == "SUB":
                    o.update(id=self.id(dirn, r["name"]), file=dirn + "/" + r["name"])
                elif r["t"] == "CLR":
                    o["ids"] = [self.id(dirn, r["name"]) if r["name"].startswith("toc.") else self.id(dirn, r["name"], r["off"])]
                recs.append(o)
            return {"op": "toc", "p": p, "f": f, "main": name == "toc", "d": d, "sid": sid, "off": x["off"], "n": x["len"],
                    "recs": recs, "schema": dirn + "/schema"}
        return {"op": op, "p": p, "f": f}
    def trace(self, br):
        t = self.w.header()
        t["opt"] = {"maxdb": self.w.maxdb, "async": "FDB_ASYNC_WRITE" in self.w.env}
        t["tocs"] = list(self.tocs.values())
        t["ev"] = self.ev
        t["br"] = br
        return t

class Cont(Exec):
    """Operations of a fresh process on a directory left behind by a crash."""
    def __init__(self, world, pool, d):
        self.w = world
        self.dir = d
        self.roots = [d + "/root"]
        self.cfg = config(world, d)
        self.drv, self.pool, self.ev, self.dead = {}, pool, [], False
        with open(d + "/schema", "w") as f:
            f.write(world.schema())

def continuation(world, events, shadow, power, keep):
    d = os.path.join(tlc.scratch(), "c%d_%d" % (os.getpid(), Exec.count()))
    os.makedirs(d)
    shadow.write(d + "/root", power=power, keep=keep)
    x = Cont(world, core._pool, d)
    try:
        for e in events:
            x.step(e)
            if x.dead:
                break
    finally:
        x.finish()
    return x.ev

def rewipe(rng, world, keys, v0, last):
    """after an interrupted wipe or purge: it is repeated; whatever controls it left are lifted; content and files are observed"""
    req = {k: list(v) for k, v in world.values().items()}
    ev = [{"op": "open", "h": "r.a"}]
    if rng.random() < .5:
        ev.append({"op": "list", "h": "r.a", "req": {}, "level": 3, "mode": "full"})
    ev.append(dict(last, h="r.a"))
    ev.append({"op": "left", "h": "r.a"})
    dbreq = {k: v for k, v in last["req"].items() if k in world.db}
    ev.append({"op": "control", "h": "r.a", "req": dbreq, "action": "enable", "ids": ["list", "archive", "retrieve"]})
    ev += [{"op": "open", "h": "r.w", "sub": rng.random() < world.sub * .5}]
    ev += [{"op": "list", "h": "r.a", "req": {}, "level": 3, "mode": rng.choice(["full", "dedup"])}, {"op": "open", "h": "r.c"}, {"op": "retrieve", "h": "r.c", "req": req}]
    for i in range(rng.choice([1, 2])):
        k = dict(rng.choice(keys)) if rng.random() < 0.8 else {x: rng.choice(v) for x, v in world.values().items()}
        ev.append({"op": "archive", "h": "r.w", "key": k, "v": v0 + i, "len": 20 + i})
    ev += [{"op": rng.choice(["flush", "close"]), "h": "r.w"}]
    ev += [{"op": "open", "h": "r.b"}, {"op": "list", "h": "r.b", "req": {}, "level": 3, "mode": rng.choice(["full", "dedup", "dups"])},
           {"op": "retrieve", "h": "r.b", "req": req}]
    return ev

def recovery(rng, world, keys, v0):
    """what is done after a crash: everything is read, fields are written again (old and new keys) and read"""
    req = {k: list(v) for k, v in world.values().items()}
    ev = [{"op": "open", "h": "r.a"}, {"op": "list", "h": "r.a", "req": {}, "level": 3, "mode": rng.choice(["full", "dedup"])},
          {"op": "retrieve", "h": "r.a", "req": req}]
    if rng.random() < 0.3:
        ev.append({"op": "status", "h": "r.a", "req": {}})
    if rng.random() < 0.3:
        ev.append({"op": "stats", "h": "r.a", "req": {}})
    if rng.random() < 0.3:
        ev.append({"op": "axes", "h": "r.a", "req": {}, "level": 3})
    ev += [{"op": "open", "h": "r.w", "sub": rng.random() < world.sub * .5}]
    for i in range(rng.choice([1, 2])):
        k = dict(rng.choice(keys)) if rng.random() < 0.8 else {x: rng.choice(v) for x, v in world.values().items()}
        ev.append({"op": "archive", "h": "r.w", "key": k, "v": v0 + i, "len": 20 + i})
    ev += [{"op": rng.choice(["flush", "close"]), "h": "r.w"}]
    ev += [{"op": "open", "h": "r.b"}, {"op": "list", "h": "r.b", "req": {}, "level": 3, "mode": rng.choice(["full", "dedup", "dups"])},
           {"op": "retrieve", "h": "r.b", "req": req}]
    return ev

def execute(job):
    """job: (world, spec) with spec = dict(scripts, mode, seed, cuts, rseed, power) -> trace"""
    w, sp = job
    rng = random.Random(sp["rseed"])
    d = os.path.join(tlc.scratch(), "h%d_%d" % (os.getpid(), Exec.count()))
    os.makedirs(d)
    try:
        h = Hist(w, sp["scripts"], sp["mode"], sp["seed"], d, kill=sp.get("kill"))
    finally:
        shutil.rmtree(d + "/root", ignore_errors=True)
    keys = [e["key"] for s in sp["scripts"] for e in s if e["op"] == "archive"]
    mut = h.mut[:-1]
    if "redo" in sp:        # only the changes of the last operation
        c = max(i for i, e in enumerate(h.ev) if e["op"] == "call")
        mut = [m for m in mut if m[0] > c]
    cuts = [c for c in mut if rng.random() < sp["cuts"]] if sp["cuts"] else []
    cuts.append((len(h.ev), len(h.log)))
    br, sh, n = [], fslog.Shadow(), 0
    v0 = 900000
    for k, upto in cuts:
        while n < upto:
            sh.apply(h.log[n], h.blob)
            n += 1
        for kind in ("kill", "power"):
            if kind == "power" and rng.random() >= sp["power"]:
                continue
            keep = []
            if kind == "power":
                m = rng.random()
                keep = [] if m < .4 else [f for f in sh.files if rng.random() < .5]
            last = sp["scripts"][0][-1] if "redo" in sp else None
            todo = rewipe(rng, w, keys, v0, last) if last else recovery(rng, w, keys, v0)
            ev = continuation(w, todo, sh, kind == "power", keep)
            v0 += 10
            br.append({"k": k, "kind": kind, "keep": keep, "ev": ev})
    shutil.rmtree(d, ignore_errors=True)
    return h.trace(br)

# ------------------------------------------------------------------ generation
def script(w, rng, n, v0, reads=0.0, keys=None, sub=None):
    """operations of one process: one writing handle, reading handles of their own"""
    vals = w.values()
    keys = [] if keys is None else keys
    ev, v, r, opened = [], v0, 0, False
    dirty = 0
    # sizes which fill the buffers of the data files exactly
    b = w.res.get("fdbBufferSize") or w.res.get("fdbSizeAsyncBuffer")
    sizes = [b, b, 2 * b] if b and rng.random() < .5 else [10, 100, 1000, 5000]
    while len(ev) < n:
        if reads and rng.random() < reads:
            r += 1
            h = "r%d" % r
            req = {k: list(x) for k, x in vals.items()}
            ev += [{"op": "open", "h": h, "reader": True},
                   {"op": "list", "h": h, "req": {}, "mode": "dedup"} if rng.random() < .5 else {"op": "retrieve", "h": h, "req": req},
                   {"op": "close", "h": h, "reader": True}]
            continue
        if not opened:
            ev.append({"op": "open", "h": "a", "sub": rng.random() < w.sub if sub is None else sub})
            opened = True
        m = rng.random()
        if m < .62:
            k = dict(rng.choice(keys)) if keys and rng.random() < .5 else {x: rng.choice(y) for x, y in vals.items()}
            keys.append(k)
            v += 1
            ev.append({"op": "archive", "h": "a", "key": k, "v": v, "len": rng.choice(sizes)})
            dirty += 1
        elif m < .88:
            if dirty:
                ev.append({"op": "flush", "h": "a"})
                dirty = 0
        else:
            ev.append({"op": "close", "h": "a"})
            opened, dirty = False, 0
    if opened:
        if rng.random() < .5:
            ev.append({"op": "flush", "h": "a"})
        if rng.random() < .8:
            ev.append({"op": "close", "h": "a"})
    return ev

def job(w, rng, nproc, n, mode, cuts, power, reads=0.0, kill=0.0):
    keys = []
    scripts = [script(w, rng, n, 10000 * (i + 1), reads=reads if nproc > 1 else reads / 2, keys=keys) for i in range(nproc)]
    k = (rng.randrange(nproc), rng.randint(1, 25 + 5 * n)) if rng.random() < kill else None
    return (w, {"scripts": scripts, "mode": mode, "kill": k, "seed": rng.randint(1, 10 ** 6), "cuts": cuts, "rseed": rng.randint(1, 10 ** 6), "power": power})

def admin_job(w, rng, n, what, power=0.0):
    """one process writes, then wipes or purges; the run continues after a crash at every step of that last operation"""
    keys = []
    s = script(w, rng, n, 10000, keys=keys)
    if s and s[-1]["op"] != "close" and any(e["op"] == "open" for e in s):
        s.append({"op": "close", "h": "a"})
    k = rng.choice(keys) if keys else {x: y[0] for x, y in w.values().items()}
    req = {x: [k[x]] for x in w.db if rng.random() < .8}
    e = {"op": what, "h": "z", "req": req, "doit": True}
    if what == "wipe":
        e["unsafe"] = rng.random() < .2
        if rng.random() < .6:
            req.update({x: [k[x]] for x in w.ix})
    s += [{"op": "open", "h": "z", "reader": True}]
    if rng.random() < .3:
        s.append(dict(e, doit=False))
    s.append(e)
    return (w, {"scripts": [s], "mode": "free", "kill": None, "seed": 1, "cuts": 1, "rseed": rng.randint(1, 10 ** 6), "power": power, "redo": True})

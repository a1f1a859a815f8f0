"""Executing operation sequences on the real library and recording them as traces of FdbStore."""
import hashlib, json, os, random, re, shutil, subprocess, sys, time, traceback
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp
from . import build as B
from .drv import Driver, Died, env, reshome
from . import tlc

RESERVED = ("unique",)

GRIBLEN = 196        # of the messages the driver makes

class World:
    """One FDB: a schema (three sets of keywords with their values), a root and options."""
    def __init__(self, db, ix, dt, sub=0.0, maxdb=64, env=None, user=None, res=None, cfg=None, grib=False, roots=1):
        self.grib, self.roots = grib, roots
        self.db, self.ix, self.dt = db, ix, dt          # ordered dicts keyword -> list of values
        self.sub, self.maxdb = float(sub), maxdb        # sub: probability that a handle writes in sub-toc mode
        self.env, self.user, self.res = dict(env or {}), dict(user or {}), dict(res or {})
        if maxdb < 64:
            self.res["fdbMaxNbDBsOpen"] = maxdb
        self.extra_cfg = cfg or {}
    def schema(self):
        return "[ %s\n  [ %s\n    [ %s ]]]\n" % (", ".join(self.db), ", ".join(self.ix), ", ".join(self.dt))
    def values(self):
        d = {}
        d.update(self.db); d.update(self.ix); d.update(self.dt)
        return d
    def header(self):
        return {"sch": {"db": list(self.db), "ix": list(self.ix), "dt": list(self.dt)},
                "opt": {"maxdb": self.maxdb}}

def merged(ks):
    o = {}
    for k in ks:
        o.update(k)
    return {a: b for a, b in o.items() if b != ""}

class Exec:
    """Executes commands of one trace. Handles are "p<n>.<name>": one driver process per p<n>."""
    tc = True
    aux = []        # other roots holding data files
    def __init__(self, world, pool=None):
        self.w = world
        self.dir = os.path.join(tlc.scratch(), "x%d_%d" % (os.getpid(), Exec.count()))
        self.roots = [self.dir + "/root"] + [self.dir + "/root%d" % i for i in range(2, world.roots + 1)]
        for r in self.roots:
            os.makedirs(r)
        with open(self.dir + "/schema", "w") as f:
            f.write(world.schema())
        cfg = {"type": "local", "engine": "toc", "schema": self.dir + "/schema",
               "spaces": [{"handler": "Default", "roots": [{"path": r} for r in self.roots]}]}
        cfg.update(world.extra_cfg)
        self.cfg = json.dumps(cfg)
        self.drv = {}
        self.pool = pool if pool is not None else {}
        self.ev = []
        self.ext, self.extf, self.exto = {}, {}, {}
        self.dead = False
    _n = 0
    @classmethod
    def count(cls):
        cls._n += 1
        return cls._n
    def driver(self, p):
        if p not in self.drv:
            key = (p, tuple(sorted(self.w.env.items())), tuple(sorted(self.w.res.items())))
            d = self.pool.get(key)
            if d is None or d.p.poll() is not None:
                d = Driver(tlc.scratch(), extra_env=self.w.env, res=self.w.res,
                           errfile="/dev/null", timeout=60)
                self.pool[key] = d
            self.drv[p] = d
        return self.drv[p]
    def raw(self, h, cmd):
        p = h.split(".")[0]
        c = dict(cmd)
        c["h"] = self.dir + h          # unique per trace: driver processes are shared between traces
        try:
            return self.driver(p).call(c)
        except Died as e:
            self.dead = True
            self.drv.pop(p, None)
            return {"ok": False, "ex": "died", "what": str(e)}
    def step(self, e):
        """e: model-level event without observations; executes it and appends the completed event"""
        e = dict(e)
        op = e["op"]
        h = e["h"]
        if op == "open":
            u = dict(self.w.user)
            u.update(e.get("user", {}))
            e.setdefault("sub", False)
            if e["sub"]:
                u["useSubToc"] = True
            c = {"op": "open", "cfg": self.cfg, "user": json.dumps(u)}
            if e.get("cb"):
                c["cb"] = True
            r = self.raw(h, c)
        elif op == "archive":
            b = self.tocs() if self.w.maxdb < 64 and self.tc else None
            c = {"op": "archive", "key": order_key(e, self.w), "v": e["v"], "len": e["len"]}
            if self.w.grib:
                c["grib"] = True
                e["len"] = GRIBLEN
            r = self.raw(h, c)
            if b is not None:       # tables of contents that grew: sessions evicted to make room
                a = self.tocs()
                e["tc"] = [dict(zip(self.w.db, d.split(":"))) for d in b if a.get(d) != b[d]]
        elif op in ("close", "flush", "dirty"):
            r = self.raw(h, {"op": op})
        elif op == "cbs":
            r = self.raw(h, {"op": "cbs", "read": True})
        elif op == "garchive":
            c = {k: e[k] for k in ("op", "msgs", "req", "how") if k in e}
            r = self.raw(h, c)
        elif op in ("list", "axes", "stats", "status", "control", "purge", "wipe"):
            c = {k: e[k] for k in e if k not in ("op", "h", "req", "mode", "obs", "res", "what")}
            c["op"] = op
            c["all"] = not e["req"]
            if e["req"]:
                c["req"] = e["req"]
            if op == "list":
                c["mode"] = e["mode"]
                c["data"] = True
            r = self.raw(h, c)
        elif op in ("inspect", "retrieve"):
            r = self.raw(h, {"op": op, "req": e["req"]})
        elif op == "hide":      # modelled as a request naming one database; nothing to do when it does not exist
            if os.path.isdir(self.dbdir(e["key"])):
                r = self.raw(h, {"op": "hide", "key": [[k, e["key"][k]] for k in self.w.db]})
            else:
                r = {"ok": True}
            e["req"] = {k: [v] for k, v in e["key"].items()}
        elif op in ("ls", "left", "where"):
            r = {"ok": True}
        elif op == "overlay":
            kv = lambda k: ",".join("%s=%s" % x for x in k.items())
            r = self.tool(["fdb-overlay"] + (["--force"] if e["force"] else []) + (["--remove"] if e["remove"] else [])
                          + (["--variable-keys=" + ",".join(e["vkeys"])] if e["vkeys"] != ["class", "expver"] else []) + [kv(e["src"]), kv(e["tgt"])])
        elif op == "move":
            r = self.tool(["fdb-move", "--dest=" + self.roots[e["loc"] - 1], "--minimum-keys=class", "--threads=%d" % e["threads"]]
                          + [",".join("%s=%s" % x for x in e["key"].items())])
        elif op == "reindex":
            if not e["ext"]:        # the location of a field of the same database that can be listed now
                n = self.dir + h + "l"
                self.driver(h.split(".")[0]).call({"op": "open", "h": n, "cfg": self.cfg, "user": "{}"})
                el = self.driver(h.split(".")[0]).call({"op": "list", "h": n, "all": True, "level": 3, "mode": "full", "data": True})["elems"]
                self.driver(h.split(".")[0]).call({"op": "close", "h": n})
                if e.get("samedb"):
                    mine = {k: e["key"][k] for k in self.w.db}
                    el = [x for x in el if x["k"][0] == mine]
                el = sorted((x for x in el if x["v"] > 0), key=lambda x: (x["v"], x["full"]))
                if el:
                    x = el[e["i"] % len(el)]
                    e["v"], e["len"], loc = x["v"], x["len"], (x["uri"], x["off"])
                else:
                    e["ext"] = 1
            if e["ext"]:
                f, fs, offs = self.external(e["ext"], h)
                i = e["i"] % len(fs)
                e["v"], e["len"], loc = fs[i][0], fs[i][1], ("file:" + f, offs[i])
            b = self.tocs() if self.w.maxdb < 64 and self.tc else None
            r = self.raw(h, {"op": "reindex", "key": order_key(e, self.w), "uri": loc[0], "off": loc[1], "len": e["len"]})
            if b is not None:
                a = self.tocs()
                e["tc"] = [dict(zip(self.w.db, d.split(":"))) for d in b if a.get(d) != b[d]]
        elif op == "ext":
            r = {"ok": True}
            e["same"] = all(self.ext[n] == self.filesum(self.extpath(n)) for n in self.ext)
        elif op == "junk":
            d = self.dbdir(e["key"])
            if os.path.isdir(d):
                with open(d + "/" + e["name"], "w") as f:
                    f.write("not a database file")
                r = {"ok": True}
            else:
                r = {"ok": False, "ex": "none", "what": ""}
        else:
            raise ValueError(op)
        e["res"] = "ok" if r["ok"] else r["ex"]
        if not r["ok"]:
            e["what"] = r["what"]
        self.observe(e, r)
        self.ev.append(e)
        return r
    def observe(self, e, r):
        op = e["op"]
        ok = r["ok"]
        el = r.get("elems", []) if ok else []
        if op == "dirty":
            e["dirty"] = r.get("dirty", False)
        elif op == "close":
            if e.pop("cb", False) and ok:
                e["flushes"] = r["flushes"]
        elif op == "cbs":
            e["cbs"] = [{"key": x["key"], "v": x["v"], "len": x["len"], "loc": x["loc"], "llen": x.get("llen", -1), "rv": x.get("rv", -1)} for x in r.get("cbs", [])]
            e["flushes"] = r.get("flushes", -1)
        elif op == "list":
            if e["level"] == 3:
                e["obs"] = [{"k": merged(x["k"]), "v": x.get("v", -4), "len": x.get("len", -4)} for x in el]
            else:
                e["obs"] = [merged(x["k"]) for x in el]
        elif op == "inspect":
            e["obs"] = [{"k": merged(x["k"]), "v": x.get("v", -4), "len": x.get("len", -4)} for x in el]
        elif op == "retrieve":
            e["vs"] = r.get("vs", []) if ok else []
            e["size"] = r.get("size", 0) if ok else 0
            if self.w.grib:
                e["gk"] = r.get("gk", [])
        elif op == "axes":
            e["obs"] = [{"key": x["key"], "axes": x["axes"]} for x in el]
        elif op == "stats":
            e["obs"] = [{k: x[k] for k in ("fields", "dups", "fsize", "dsize")} for x in el]
        elif op in ("status", "control"):
            e["obs"] = [{"key": x["key"], "enabled": [y for y in x["enabled"] if y not in RESERVED]} for x in el]
        elif op == "ls":
            e["obs"] = self.ls()
        elif op == "where":
            e["obs"] = [{"key": dict(zip(self.w.db, d.split(":"))), "loc": i} for i, d in self.dirs()]
        elif op == "left":      # databases with any file but a schema
            e["obs"] = [dict(zip(self.w.db, d.split(":"))) for i, d in self.dirs()
                        if set(os.listdir(self.roots[i - 1] + "/" + d)) - {"schema"}]
    def extpath(self, n):
        """files with the same name in different places; the last in a directory named like a database"""
        return self.dir + ["/ext.data", "/x/ext.data", "/x/%s/ext.data" % ":".join(v[0] for v in self.w.db.values())][n - 1]
    def external(self, n, h):
        """a file with fields outside every database"""
        f = self.extpath(n)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        if not os.path.exists(f):
            rng = random.Random(n)
            self.extf[n] = [[100000 * n + i, rng.choice([10, 30, 100, 5000]), rng.choice([0, 0, 7, 4096])] for i in range(1, 8)]
            self.exto[n] = self.raw(h, {"op": "mkdata", "path": f, "fields": self.extf[n]})["offs"]
            self.ext[n] = self.filesum(f)
        return f, self.extf[n], self.exto[n]
    def filesum(self, f):
        return hashlib.md5(open(f, "rb").read()).hexdigest() if os.path.exists(f) else ""
    def tool(self, args):
        """one of the command line tools"""
        f = self.dir + "/tool.json"
        with open(f, "w") as o:
            o.write(self.cfg)
        e = env(self.w.env, home=reshome(self.w.res))
        try:
            p = subprocess.run([B.BIN + "/" + args[0], "--config=" + f] + args[1:], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, cwd=self.dir)
        except subprocess.TimeoutExpired:
            return {"ok": False, "ex": "died", "what": "timeout"}
        out = p.stdout.decode(errors="replace")
        if p.returncode == 0:
            return {"ok": True, "out": out}
        m = re.findall(r"\b(UserError|SeriousBug|Assert\w*)\b", out)
        return {"ok": False, "ex": "died" if p.returncode < 0 else m[0] if m else "Exception", "what": out[-400:]}
    def dirs(self):
        return [(i + 1, d) for i, r in enumerate(self.roots) for d in sorted(os.listdir(r))]
    def dbdir(self, key):
        n = ":".join(key[k] for k in self.w.db)
        return next((r + "/" + n for r in self.roots if os.path.isdir(r + "/" + n)), self.roots[0] + "/" + n)
    def tocs(self):
        out = {}
        for i, d in self.dirs():
            p = self.roots[i - 1] + "/" + d
            x = sorted((f, os.path.getsize(p + "/" + f)) for f in os.listdir(p) if f == "toc" or f.startswith("toc."))
            if x and x[0][0] == "toc" and x[0][1]:
                out[d] = x
        return out
    def ls(self):
        """per database directory: numbers of data, index, sub-toc and unrecognised files"""
        out = []
        for i, d in self.dirs():
            n = {"data": 0, "index": 0, "sub": 0, "junk": 0}
            for f in [f for r in [self.roots[i - 1]] + self.aux if os.path.isdir(r + "/" + d) for f in os.listdir(r + "/" + d)]:
                if f.startswith("toc."):
                    n["sub"] += 1
                elif f.endswith(".data"):
                    n["data"] += 1
                elif f.endswith(".index"):
                    n["index"] += 1
                elif f not in ("toc", "schema", "duplicates.allow") and not f.endswith(".lock"):
                    n["junk"] += 1
            out.append({"key": dict(zip(self.w.db, d.split(":"))), "n": n})
        return out
    def finish(self):
        for h in {x["h"] for x in self.ev if x["op"] == "open"} - {x["h"] for x in self.ev if x["op"] == "close"}:
            if not self.dead:
                self.raw(h, {"op": "close"})
        shutil.rmtree(self.dir, ignore_errors=True)
        t = self.w.header()
        t["ev"] = self.ev
        return t

def order_key(e, w):
    """archive keys are sent in a caller-chosen keyword order (default: sorted as stored)"""
    o = e.get("ord")
    k = e["key"]
    return [[x, k[x]] for x in (o if o else k)]

# ------------------------------------------------------------------ generation
class Gen:
    """Random behaviours over a world; weights select what is exercised."""
    def __init__(self, w, rng, weights, handles=("p1.a", "p1.b"), length=30, readers=("p1.r",), reopen=0.5):
        self.w, self.rng, self.weights, self.length = w, rng, weights, length
        self.handles, self.readers = list(handles), list(readers)
        self.v = 0
        self.reopen = reopen
        self.onedb = "reindex" in weights     # then a field may be in several databases: requests name one
        self.reindexers, self.exts = ["p1.x", "p2.y"], [1, 2]
        self.keys = []
    def key(self):
        r = self.rng
        if self.keys and r.random() < 0.45:
            return dict(r.choice(self.keys))
        k = {x: r.choice(v) for x, v in self.w.values().items()}
        self.keys.append(k)
        return dict(k)
    def request(self, full=False, over=True):
        r = self.rng
        vals = self.w.values()
        base = r.choice(self.keys) if self.keys and r.random() < 0.8 else None
        if not full and r.random() < 0.2:
            return {}
        if full:
            kws = list(vals)
        else:
            mode = r.random()
            if mode < 0.3:
                kws = list(self.w.db)
            elif mode < 0.5:
                kws = list(self.w.db) + list(self.w.ix)
            else:
                kws = [k for k in vals if r.random() < 0.5]
        req = {}
        for k in kws:
            vs = set(r.sample(vals[k], r.randint(1, len(vals[k])) if r.random() < 0.5 else 1))
            if base:
                vs.add(base[k])
            if r.random() < 0.05:
                vs.add("zz")
            if full and self.onedb and k in self.w.db:
                vs = {r.choice(sorted(vs))}
            vs = list(vs)
            vs.sort()
            r.shuffle(vs)
            req[k] = vs
        ks = list(req)
        r.shuffle(ks)
        return {k: req[k] for k in ks}
    def messages(self, h):
        """messages archived together, most often against the request they were made for"""
        r = self.rng
        vals = self.w.values()
        req = {}
        for k in vals:
            if len(vals[k]) == 1:
                if r.random() < .5:
                    req[k] = list(vals[k])
            elif r.random() < .85:
                req[k] = sorted(r.sample(vals[k], r.randint(1, len(vals[k])) if r.random() < .6 else 1))
        from itertools import product
        ks = [dict(zip(req, c)) for c in product(*req.values())]
        base = {k: r.choice(v) for k, v in vals.items()}
        ms = []
        for k in ks[:12]:
            ms.append(dict(base, **k))
        if len(ks) > 12:
            req = None
        r.shuffle(ms)
        m = r.random()
        if m < .15 and len(ms) > 1:
            ms.pop(r.randrange(len(ms)))
        elif m < .3 and ms:
            ms.insert(r.randrange(len(ms) + 1), dict(r.choice(ms)))
        elif m < .45:
            ms.insert(r.randrange(len(ms) + 1), self.key())
        e = {"op": "garchive", "h": h, "msgs": []}
        for k in ms:
            self.v += 1
            self.keys.append(k)
            e["msgs"].append({"key": k, "v": self.v, "len": GRIBLEN})
        if req and r.random() < .75:
            e["req"] = req
        else:
            e["how"] = r.choice(["handle", "data"])
        return e
    def dbreq(self):
        r = self.rng
        if r.random() < 0.25:
            return {}
        vals = self.w.values()
        base = r.choice(self.keys) if self.keys and r.random() < 0.8 else {x: r.choice(v) for x, v in vals.items()}
        return {k: [base[k]] for k in self.w.db if r.random() < 0.8}
    def events(self):
        r = self.rng
        opened = set()
        out = []
        ops, ws = zip(*self.weights.items())
        def need(h):
            if h not in opened:
                opened.add(h)
                e = {"op": "open", "h": h, "sub": r.random() < self.w.sub}
                if "cbs" in self.weights and h in self.handles:
                    e["cb"] = True
                out.append(e)
        while len(out) < self.length:
            op = r.choices(ops, ws)[0]
            if op in ("archive", "flush", "close", "cbs", "dirty", "garchive"):
                h = r.choice(self.handles)
            elif op == "reindex":
                h = r.choice(self.reindexers)
            elif op in ("rflush", "rclose"):
                h = r.choice(self.reindexers)
                if h in opened:
                    out.append({"op": op[1:], "h": h})
                    if op == "rclose":
                        opened.discard(h)
                continue
            else:
                h = r.choice(self.readers + (self.handles if r.random() < 0.4 else []))
                if h in opened and h in self.readers and r.random() < self.reopen:
                    opened.discard(h)
                    out.append({"op": "close", "h": h})
            if op == "close":
                if h in opened:
                    opened.discard(h)
                    out.append({"op": "close", "h": h})
                    if "cbs" in self.weights and h in self.handles:
                        out[-1]["cb"] = True
                continue
            if op in ("purge", "wipe", "hide", "junk", "overlay", "move"):
                # these are defined for databases nobody is writing or reading
                for x in sorted(opened):
                    out.append({"op": "close", "h": x})
                opened.clear()
                x = "p1.w"
                # a session that has not published anything yet may be under way while a purge runs
                late = op == "purge" and r.random() < .35
                if late:
                    y = r.choice(self.handles)
                    need(y)
                    for _ in range(r.choice([1, 2, 3])):
                        self.v += 1
                        k = self.key()
                        out.append({"op": "archive", "h": y, "key": k, "v": self.v, "len": r.choice([10, 100, 5000, 9000])})
                out.append({"op": "open", "h": x})
                if op == "purge":
                    e = {"op": "purge", "h": x, "req": self.dbreq() if r.random() < 0.9 else self.request(), "doit": r.random() < 0.8}
                    if self.onedb:
                        e["req"] = {k: [r.choice(v)] for k, v in self.w.db.items()}
                elif op == "wipe":
                    m = r.random()
                    req = self.dbreq()
                    if m < 0.55:
                        b = r.choice(self.keys) if self.keys else {k: v[0] for k, v in self.w.values().items()}
                        for k in self.w.ix:
                            if r.random() < 0.8:
                                req[k] = sorted({b[k]} | ({r.choice(self.w.ix[k])} if r.random() < 0.2 else set()))
                    elif m < 0.7:
                        req = self.request()
                    e = {"op": "wipe", "h": x, "req": req, "doit": r.random() < 0.8, "unsafe": r.random() < 0.25}
                elif op == "overlay":
                    from itertools import product
                    dbs = [dict(zip(self.w.db, c)) for c in product(*self.w.db.values())]
                    i, j = sorted(r.sample(range(len(dbs)), 2))     # never in a circle
                    if r.random() < .05:
                        j = i
                    prev = [x for x in out if x["op"] == "overlay" and not x["remove"]]
                    e = {"op": "overlay", "h": x, "src": dbs[i], "tgt": dbs[j], "force": r.random() < .8, "remove": False,
                         "vkeys": ["class", "expver"] if r.random() < .9 else r.choice([["class"], ["expver"], ["stream"]])}
                    if prev and r.random() < .45:
                        q = r.choice(prev)
                        e.update(src=q["src"], tgt=q["tgt"], remove=r.random() < .7)
                elif op == "move":
                    b = r.choice(self.keys) if self.keys and r.random() < .95 else {k: r.choice(v) for k, v in self.w.values().items()}
                    e = {"op": "move", "h": x, "key": {k: b[k] for k in self.w.db}, "loc": r.randint(1, len(range(self.w.roots))), "threads": r.choice([1, 1, 3])}
                elif op == "hide":
                    b = r.choice(self.keys) if self.keys else {k: v[0] for k, v in self.w.values().items()}
                    e = {"op": "hide", "h": x, "key": {k: b[k] for k in self.w.db}}
                else:
                    b = r.choice(self.keys) if self.keys else {k: v[0] for k, v in self.w.values().items()}
                    e = {"op": "junk", "h": x, "key": {k: b[k] for k in self.w.db},
                         "name": r.choice(["junk", "notes.txt", "x.dat", "index", "datafile", "a.indexx", "b.data.tmp"])}
                out.append(e)
                out.append({"op": "ls", "h": x})
                if self.w.roots > 1:
                    out.append({"op": "where", "h": x})
                for mode in r.sample(["full", "dedup", "dups"], 1):
                    out.append({"op": "list", "h": x, "req": {}, "level": 3, "mode": mode})
                if r.random() < 0.5:
                    out.append({"op": "stats", "h": x, "req": {}})
                if r.random() < 0.5:
                    out.append({"op": "status", "h": x, "req": {}})
                if r.random() < 0.4 and op in ("purge", "wipe"):
                    out.append(dict(e))
                    out.append({"op": "ls", "h": x})
                out.append({"op": "close", "h": x})
                if late:
                    out.append({"op": r.choice(["flush", "close"]), "h": y})
                    if out[-1]["op"] == "close":
                        opened.discard(y)
                    out.append({"op": "open", "h": x})
                    out.append({"op": "list", "h": x, "req": {}, "level": 3, "mode": "full"})
                    out.append({"op": "close", "h": x})
                continue
            need(h)
            if op == "archive":
                for _ in range(r.choice([1, 1, 2, 3])):
                    self.v += 1
                    k = self.key()
                    o = list(k)
                    r.shuffle(o)
                    out.append({"op": "archive", "h": h, "key": k, "ord": o, "v": self.v,
                                "len": r.choice([10, 11, 24, 32, 100, 1000, 5000])})
            elif op == "reindex":
                near = self.key() if r.random() < .6 else None     # several fields of one index
                for _ in range(r.choice([1, 2, 4])):
                    k = self.key()
                    if near:
                        k = dict(near, **{x: k[x] for x in self.w.dt})
                        self.keys.append(k)
                    o = list(k)
                    r.shuffle(o)
                    out.append({"op": "reindex", "h": h, "key": k, "ord": o, "ext": r.choice(self.exts), "i": r.randrange(1000)})
                    if "purge" in self.weights:
                        out[-1]["samedb"] = True
                if r.random() < .1:
                    out.append({"op": "ext", "h": h})
            elif op in ("flush", "dirty"):
                out.append({"op": op, "h": h})
            elif op == "cbs":
                if r.random() < .8:
                    out.append({"op": "flush", "h": h})
                out.append({"op": op, "h": h})
            elif op == "garchive":
                out.append(self.messages(h))
            elif op == "list":
                req = self.request()
                level = r.choice([3, 3, 3, 3, 2, 1])
                out.append({"op": "list", "h": h, "req": req, "level": level,
                            "mode": r.choice(["full", "dedup", "dups"]) if level == 3 else "full"})
            elif op in ("inspect", "retrieve"):
                out.append({"op": op, "h": h, "req": self.request(full=True)})
            elif op == "axes":
                out.append({"op": op, "h": h, "req": self.request(), "level": r.choice([1, 2, 3, 3])})
            elif op == "stats":
                out.append({"op": op, "h": h, "req": self.request()})
            elif op == "status":
                out.append({"op": op, "h": h, "req": self.request()})
            elif op == "control":
                out.append({"op": op, "h": h, "req": self.dbreq(), "action": r.choice(["disable", "disable", "enable"]),
                            "ids": r.sample(["list", "retrieve", "archive", "wipe"], r.randint(1, 3))})
            else:
                raise ValueError(op)
        # final observation by a fresh handle after everything is closed
        for h in sorted(opened):
            out.append({"op": "close", "h": h})
        out.append({"op": "open", "h": "p1.z"})
        out.append({"op": "ls", "h": "p1.z"})
        for mode in ("full", "dedup", "dups"):
            out.append({"op": "list", "h": "p1.z", "req": {}, "level": 3, "mode": mode})
        for _ in range(2):
            out.append({"op": "retrieve", "h": "p1.z", "req": self.request(full=True)})
        return out

# ------------------------------------------------------------------ running many
_pool = {}
def execute(job):
    """job: (World, events) -> trace"""
    w, events = job
    x = Exec(w, _pool)
    try:
        for e in events:
            x.step(e)
            if x.dead:
                break
    finally:
        t = x.finish()
    return t

def shutdown():
    for d in _pool.values():
        d.close()
    _pool.clear()

def run_chunk(jobs, fn=execute):
    """jobs executed one after the other, sharing driver processes that start with the chunk"""
    shutdown()
    tlc.scratch()
    try:
        return [fn(j) for j in jobs]
    finally:
        shutdown()

def _chunk(a):
    return run_chunk(*a)

def run_jobs(jobs, nproc=8, fn=execute, chunk=None):
    """-> (traces, chunk membership of each job)"""
    tlc.scratch()
    n = chunk or max(1, min(40, (len(jobs) + nproc * 3 - 1) // (nproc * 3)))
    chunks = [list(range(i, min(i + n, len(jobs)))) for i in range(0, len(jobs), n)]
    of = {j: c for c in chunks for j in c}
    if len(chunks) == 1 or nproc == 1:
        res = [run_chunk([jobs[j] for j in c], fn) for c in chunks]
    else:
        shutdown()
        with ProcessPoolExecutor(nproc, mp_context=mp.get_context("fork")) as ex:
            res = list(ex.map(_chunk, [([jobs[j] for j in c], fn) for c in chunks]))
    return [t for r in res for t in r], of

"""Checks decided by the store specification (FdbStore / MCStore / TraceStore)."""
from . import core, worlds, tlc, props_commit
from .core import Gen

def gen_jobs(ctx, tag, n, world, weights, **kw):
    jobs = []
    for i in range(n):
        rng = ctx.rng(tag, i)
        w = world(rng)
        k = {a: (b(rng) if callable(b) else b) for a, b in kw.items()}
        jobs.append((w, Gen(w, rng, weights, **k).events()))
    return jobs

def has(*ops):
    return lambda t: all(any(e["op"] == o and e["res"] == "ok" for e in t["ev"]) for o in ops)

RULE = "seeded random behaviours of FdbStore executed on the real library; non-trivial: distinct event sequence containing the operations of the property"

def fill(ctx, tag, world, n, batch, probe):
    """big indexes: hundreds of distinct fields, overwritten, listed and retrieved"""
    jobs = []
    for i in range(n):
        rng = ctx.rng(tag, i)
        w = world(rng)
        vals = w.values()
        ev = [{"op": "open", "h": "p1.a", "sub": rng.random() < w.sub}, {"op": "open", "h": "p1.b", "sub": rng.random() < w.sub}]
        keys, v = [], 0
        for b in range(rng.randint(2, 4)):
            for _ in range(batch // 3):
                k = dict(rng.choice(keys)) if keys and rng.random() < 0.15 else {x: rng.choice(y) for x, y in vals.items()}
                keys.append(k)
                v += 1
                ev.append({"op": "archive", "h": rng.choice(["p1.a", "p1.b"]), "key": k, "v": v, "len": rng.choice([10, 17, 64, 300])})
            ev.append({"op": "flush", "h": "p1.a"})
            ev.append({"op": "flush", "h": "p1.b"})
        ev += [{"op": "open", "h": "p2.r"}]
        for _ in range(probe):
            k = rng.choice(keys)
            req = {x: [k[x]] for x in vals}
            x = rng.choice(list(w.dt))
            req[x] = sorted(set(rng.sample(vals[x], min(len(vals[x]), rng.choice([1, 3, 8])))) | {k[x]})
            ev.append({"op": "retrieve", "h": "p2.r", "req": req})
        ev.append({"op": "list", "h": "p2.r", "req": {}, "level": 3, "mode": rng.choice(["full", "dedup", "dups"])})
        ev.append({"op": "close", "h": "p1.a"})
        ev.append({"op": "close", "h": "p1.b"})
        ev.append({"op": "list", "h": "p2.r", "req": {x: [k[x]] for x in w.dt}, "level": 3, "mode": "dedup"})
        ev.append({"op": "list", "h": "p2.r", "req": {}, "level": 3, "mode": "dups"})
        ev.append({"op": "stats", "h": "p2.r", "req": {}})
        jobs.append((w, ev))
    return jobs

def F01(ctx):
    W = {"archive": 8, "flush": 3, "close": 1.2, "retrieve": 4, "inspect": 2, "list": .7}
    ctx.mc("MCStore", "MCStoreE")
    ctx.conform(gen_jobs(ctx, "s", ctx.n(280), worlds.small, W, length=45, readers=("p1.r", "p2.r")), nontrivial=has("archive", "flush", "retrieve"), rule=RULE)
    ctx.conform(gen_jobs(ctx, "v", ctx.n(280), worlds.varied, W, length=45, handles=("p1.a", "p2.b"), readers=("p1.r", "p2.r")), nontrivial=has("archive", "retrieve"))
    ctx.conform(gen_jobs(ctx, "m", ctx.n(100), worlds.manydb, W, length=60, handles=("p1.a", "p1.b", "p2.c")), nontrivial=has("archive", "retrieve"))
    ctx.conform(fill(ctx, "w", worlds.wide, ctx.n(12), 300, 6), nontrivial=has("archive", "retrieve"))

def F02(ctx):
    W = {"archive": 8, "flush": 4, "close": 1.5, "retrieve": 2, "inspect": 1, "list": 4}
    ctx.mc("MCStore", "MCStoreQ")
    def w(rng):
        return core.World({"class": ["od", "rd"]}, {"stream": ["s1", "s2"]}, {"step": ["1", "2"]}, sub=rng.choice([0, 0, 1]), maxdb=rng.choice([64, 1]), **worlds.options(rng))
    ctx.conform(gen_jobs(ctx, "s", ctx.n(280), w, W, length=45, handles=("p1.a", "p1.b", "p2.c"), readers=("p1.r", "p2.r")), nontrivial=has("archive", "flush", "list"), rule=RULE)
    ctx.conform(gen_jobs(ctx, "v", ctx.n(250), worlds.varied, W, length=45), nontrivial=has("archive", "list"))
    ctx.conform(fill(ctx, "w", worlds.wide, ctx.n(12), 300, 4))

def F06(ctx):
    # many reads between archives and flushes, by readers that stay open and by fresh ones, in several processes
    W = {"archive": 6, "flush": 2, "close": .7, "retrieve": 5, "inspect": 2, "list": 4}
    ctx.mc("MCStore", "MCStoreE")
    ctx.conform(gen_jobs(ctx, "s", ctx.n(200), worlds.small, W, length=45, handles=("p1.a", "p2.b"), readers=("p1.r", "p2.r", "p3.s"), reopen=0.3), nontrivial=has("archive", "flush", "retrieve"), rule=RULE)
    ctx.conform(gen_jobs(ctx, "m", ctx.n(170), worlds.manydb, W, length=45, handles=("p1.a", "p1.b"), readers=("p1.r", "p2.r"), reopen=0.2), nontrivial=has("archive", "retrieve"))
    props_commit.F06_reads(ctx)

def F07(ctx):
    W = {"archive": 6, "flush": 2, "close": .6, "inspect": 2, "list": 6, "axes": 4, "stats": 2, "status": 2, "control": .4}
    ctx.mc("MCStore", "MCStoreQ")
    ctx.conform(gen_jobs(ctx, "s", ctx.n(250), worlds.small, W, length=45), nontrivial=has("archive", "list", "axes"), rule=RULE)
    ctx.conform(gen_jobs(ctx, "v", ctx.n(280), worlds.varied, W, length=45), nontrivial=has("archive", "list", "axes"))
    ctx.conform(gen_jobs(ctx, "m", ctx.n(150), worlds.manydb, W, length=60), nontrivial=has("archive", "list"))
    ctx.conform(fill(ctx, "w", worlds.wide, ctx.n(8), 300, 1))

def F09(ctx):
    W = {"archive": 8, "flush": 2.5, "close": .7, "list": .6, "retrieve": .6, "wipe": 3, "junk": .5, "control": .6, "purge": .3, "hide": .2}
    ctx.mc("MCStore", "MCStoreQ")
    ctx.conform(gen_jobs(ctx, "s", ctx.n(280), worlds.small, W, length=45), nontrivial=has("archive", "wipe"), rule=RULE)
    ctx.conform(gen_jobs(ctx, "v", ctx.n(280), worlds.varied, W, length=45), nontrivial=has("archive", "wipe"))
    props_commit.F09_crash(ctx)

def F10(ctx):
    W = {"archive": 9, "flush": 3, "close": 1, "list": .5, "retrieve": .5, "purge": 3, "wipe": .4, "control": .3, "hide": .3}
    ctx.mc("MCStore", "MCStoreQ")
    def w(rng):
        return core.World({"class": ["od", "rd"]}, {"stream": ["s1", "s2"]}, {"step": ["1", "2"]}, sub=rng.choice([0, .5, 1]), maxdb=rng.choice([64, 1]), **worlds.options(rng))
    ctx.conform(gen_jobs(ctx, "s", ctx.n(280), w, W, length=45), nontrivial=has("archive", "purge"), rule=RULE)
    ctx.conform(gen_jobs(ctx, "v", ctx.n(250), worlds.varied, W, length=45), nontrivial=has("archive", "purge"))
    props_commit.F10_crash(ctx)

def F11(ctx):
    W = {"archive": 7, "flush": 2.5, "close": .8, "list": 2, "retrieve": 3, "inspect": 1, "axes": .5, "stats": .5, "status": 2, "control": 4, "wipe": .6, "purge": .4}
    ctx.mc("MCStore", "MCStoreE")
    ctx.conform(gen_jobs(ctx, "s", ctx.n(400), worlds.small, W, length=50, readers=("p1.r", "p2.r"), reopen=0.7), nontrivial=has("archive", "control"), rule=RULE)
    ctx.conform(gen_jobs(ctx, "v", ctx.n(250), worlds.varied, W, length=50, reopen=0.7), nontrivial=has("archive", "control"))

KF1 = "two writers of one key with overlapping sessions, one in sub-toc mode: compaction at close re-publishes its older version over the other writer's newer flush"
def kf1_events(order):
    k = {"class": "od", "stream": "s1", "step": "1"}
    ev = [{"op": "open", "h": "p1.a", "sub": True}, {"op": "open", "h": "p1.b", "sub": False},
          {"op": "archive", "h": "p1.a", "key": k, "v": 1, "len": 10}, {"op": "flush", "h": "p1.a"},
          {"op": "archive", "h": "p1.b", "key": k, "v": 2, "len": 10}, {"op": "flush", "h": "p1.b"}, {"op": "close", "h": "p1.b"},
          {"op": "close", "h": "p1.a"}, {"op": "open", "h": "p1.r"}, {"op": "retrieve", "h": "p1.r", "req": {x: [y] for x, y in k.items()}}]
    return ev

def F16(ctx):
    W = {"archive": 8, "flush": 4, "close": 2, "retrieve": 2, "inspect": 1, "list": 3, "stats": .3, "purge": .5, "wipe": .3, "hide": .2}
    ctx.mc("MCStore", "MCStoreSub")
    ctx.mc("MCStore", "MCStoreMix")
    # known finding: the mixed-mode order between writers of one key (the model shows it; so does the code)
    ctx.mc("MCStore", "MCStoreKF1", expect=False)
    w = core.World({"class": ["od", "rd"]}, {"stream": ["s1"]}, {"step": ["1", "2"]})
    t = ctx.conform([(w, kf1_events(0))])
    ctx.known("KF1", KF1, bool(t) and t[0]["ev"][-1].get("vs") == [1])
    def w(rng):
        return core.World({"class": ["od", "rd"], "expver": ["a"]}, {"stream": ["s1", "s2"]}, {"step": ["1", "2"]}, sub=rng.choice([.5, 1, 1]),
                          maxdb=rng.choice([64, 1, 1]), **worlds.options(rng))
    ctx.conform(gen_jobs(ctx, "s", ctx.n(250), w, W, length=45, handles=("p1.a", "p1.b", "p2.c"), readers=("p1.r", "p2.r")), nontrivial=has("archive", "flush", "list"), rule=RULE)
    ctx.conform(gen_jobs(ctx, "v", ctx.n(200), lambda r: worlds.varied(r, sub=r.choice([.5, 1])), W, length=45), nontrivial=has("archive", "list"))
    ctx.conform(fill(ctx, "w", lambda r: worlds.wide(r, sub=r.choice([.5, 1])), ctx.n(10), 200, 2))
    props_commit.F16_steps(ctx)

def F18(ctx):
    W = {"archive": 7, "flush": 2, "close": .8, "cbs": 4, "dirty": 1, "retrieve": 1, "list": .5}
    ctx.mc("MCStore", "MCStoreE")
    ctx.conform(gen_jobs(ctx, "s", ctx.n(250), worlds.small, W, length=40, handles=("p1.a", "p1.b", "p2.c")), nontrivial=has("archive", "cbs"), rule=RULE)
    ctx.conform(gen_jobs(ctx, "m", ctx.n(150), worlds.manydb, W, length=40, handles=("p1.a", "p2.b")), nontrivial=has("archive", "cbs"))
    W = {"garchive": 5, "archive": 2, "flush": 2, "close": .8, "cbs": 3, "dirty": .5, "retrieve": 1.5, "list": 1}
    ctx.conform(gen_jobs(ctx, "g", ctx.n(150), worlds.grib, W, length=35, handles=("p1.a", "p2.b")), nontrivial=has("garchive", "cbs"))

def F12(ctx):
    W = {"archive": 8, "flush": 2, "close": 1, "list": 1.5, "retrieve": 2, "inspect": .7, "axes": .3, "stats": .3, "hide": .8, "overlay": 2.5, "move": .8}
    ctx.mc("MCStore", "MCStoreE")
    ctx.conform(gen_jobs(ctx, "o", ctx.n(130), lambda r: worlds.grib(r, roots=2), W, length=45, readers=("p1.r", "p2.r")), nontrivial=has("archive", "overlay"), rule=RULE)


def F21(ctx):
    """reindexed fields, of the same database, another one or files that belong to none, mixed with archived ones"""
    W = {"archive": 5, "reindex": 7, "rflush": 3, "rclose": 1.5, "flush": 2.5, "close": 1.5, "retrieve": 3, "inspect": 1, "list": 2, "axes": .5, "stats": .5}
    P = dict(W, purge=2, axes=0)
    kw = dict(length=45, handles=("p1.a", "p2.b"), readers=("p1.r", "p2.r"))
    ok = has("archive", "reindex", "retrieve")
    for tag, n, world, weights, exts in (("s", 200, worlds.small, W, [0, 1, 2, 3]), ("v", 150, worlds.varied, W, [0, 1, 2, 3]), ("m", 60, worlds.manydb, W, [0, 1]),
                                         ("p", 220, worlds.small, P, [0, 1, 2, 3]), ("q", 160, worlds.varied, P, [0, 0, 3])):
        jobs = []
        for i in range(ctx.n(n)):
            rng = ctx.rng(tag, i)
            w = world(rng)
            g = Gen(w, rng, weights, **kw)
            g.exts = exts
            jobs.append((w, g.events() + [{"op": "open", "h": "p1.z", "sub": False}, {"op": "ext", "h": "p1.z"}]))
        ctx.conform(jobs, nontrivial=ok)

TABLE = {k: v for k, v in globals().items() if k[0] == "F" and k[1:].isdigit()}

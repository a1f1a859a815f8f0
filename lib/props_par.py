"""Checks decided by the store specification with concurrent sections (TracePar)."""
from . import core, par, worlds

RULE = "seeded sections of 2-4 threads (stress: up to 8) calling the same objects, delayed at random places; every result explained by one interleaving of the steps of the specification"

def jobs(ctx, tag, n, weights, **kw):
    out = []
    for i in range(n):
        rng = ctx.rng(tag, i)
        hs = rng.choice([("p1.a",), ("p1.a",), ("p1.a", "p1.b")])
        w = rng.choice([worlds.small, worlds.small, worlds.varied])(rng, sub=rng.choice([0, 0, 1]) if len(hs) == 1 else 0, maxdb=64)
        w.res = {k: v for k, v in w.res.items() if k != "fdbMaxOpenDatabases"}     # readers stay open
        out.append((w, par.gen(w, rng, weights, handles=hs, **kw)))
    return out

def threaded(t):
    return any(e["op"] == "par" and len({c["t"] for c in e["calls"]}) > 1 for e in t["ev"])

def F20(ctx):
    ctx.mc("MCStore", "MCStoreE")
    W = {"archive": 6, "flush": 2, "list": 2, "retrieve": 2, "inspect": 1, "axes": .7, "dirty": .5}
    ctx.conform(jobs(ctx, "m", ctx.n(220), W), module="TracePar", fn=par.execute, nontrivial=threaded, rule=RULE, racy=True)
    W = {"archive": 6, "flush": 4, "dirty": 1}
    ctx.conform(jobs(ctx, "w", ctx.n(130), W, sections=7, threads=(2, 3, 4), calls=(1, 2)), module="TracePar", fn=par.execute, nontrivial=threaded, racy=True)
    W = {"archive": 2, "flush": .7, "list": 4, "retrieve": 4, "inspect": 3, "axes": 3}
    ctx.conform(jobs(ctx, "r", ctx.n(120), W, sections=5, threads=(3, 4, 6)), module="TracePar", fn=par.execute, nontrivial=threaded, racy=True)

TABLE = {k: v for k, v in globals().items() if k[0] == "F" and k[1:].isdigit()}

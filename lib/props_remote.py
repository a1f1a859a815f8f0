"""F14: the same store specification, through catalogue and store servers."""
from . import core, remote, worlds
from .props_store import has, RULE

KF2 = "archiving through a catalogue server does not heed a database's archive lock"
def kf2_events():
    k = {"class": "od", "expver": "a", "stream": "s1", "step": "1", "param": "p"}
    return [{"op": "open", "h": "p1.a"}, {"op": "archive", "h": "p1.a", "key": k, "v": 1, "len": 100}, {"op": "close", "h": "p1.a"},
            {"op": "open", "h": "d1.c"}, {"op": "control", "h": "d1.c", "req": {"class": ["od"], "expver": ["a"]}, "action": "disable", "ids": ["archive"]}, {"op": "close", "h": "d1.c"},
            {"op": "open", "h": "p1.b"}, {"op": "archive", "h": "p1.b", "key": k, "v": 2, "len": 100}, {"op": "flush", "h": "p1.b"}, {"op": "close", "h": "p1.b"},
            {"op": "open", "h": "p2.r"}, {"op": "list", "h": "p2.r", "req": {}, "level": 3, "mode": "full"}]

def jobs(ctx, tag, n, weights, **kw):
    out = []
    for i in range(n):
        rng = ctx.rng(tag, i)
        w = remote.world(rng, **kw)
        out.append((w, remote.gen(w, rng, weights)))
    return out

def F14(ctx):
    ctx.mc("MCStore", "MCStoreE")
    W = {"archive": 8, "flush": 3, "close": 1.2, "retrieve": 4, "inspect": 2, "list": 2, "axes": .7, "stats": .7, "control": .5, "status": .5}
    ctx.conform(jobs(ctx, "a", ctx.n(220), W), fn=remote.execute, nontrivial=has("archive", "retrieve"), rule=RULE)
    W = {"archive": 8, "flush": 3, "close": 1.2, "retrieve": 2, "inspect": 1, "list": 2, "wipe": 2.5, "control": .3}
    ctx.conform(jobs(ctx, "w", ctx.n(130), W, sub=False, split=True), fn=remote.execute, nontrivial=has("archive", "wipe"))
    # known finding: the lock on archiving is not seen by a remote writer
    rng = ctx.rng("kf2", 0)
    w = remote.world(rng, sub=False, kinds="s")
    w.remote.update(stores=1, srvcfg={})
    t = remote.execute((w, kf2_events()))
    ctx.known("KF2", KF2, [x["v"] for x in t["ev"][-1].get("obs", [])] == [2, 1])

TABLE = {"F14": F14}

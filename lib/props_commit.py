"""Checks decided by the commit specification (FdbCommit / MCCommit / TraceCommit)."""
import random
from . import core, commit, worlds

RULE = "recorded file-system histories of writing processes (every change, one global order) with continuations after crashes; non-trivial: distinct history with at least two flushes that published something"

def flushed(t):
    n = sum(1 for e in t["ev"] if e["op"] == "toc")
    return n >= 3

def world(rng, **kw):
    o = worlds.options(rng)
    o.update(kw)
    return core.World({"class": ["od", "rd"], "expver": ["a"]}, {"stream": ["s1", "s2"]}, {"step": ["1", "2"]},
                      sub=rng.choice([0, .5, 1]), maxdb=rng.choice([64, 64, 1]), **o)

def bigworld(rng):
    return core.World({"class": ["od", "rd"], "expver": ["a", "b"]}, {"stream": ["s1", "s2", "s3"]}, {"step": ["1", "2", "3"], "param": ["p", "q"]},
                      sub=rng.choice([0, .5, 1]), maxdb=rng.choice([64, 2, 1]), **worlds.options(rng))

def histories(ctx, tag, n, wf, nproc, ops, mode, cuts, power, reads=0.0, kill=0.0):
    jobs = []
    for i in range(n):
        rng = ctx.rng(tag, i)
        w = wf(rng)
        jobs.append(commit.job(w, rng, nproc(rng) if callable(nproc) else nproc, ops, mode(rng) if callable(mode) else mode, cuts, power, reads, kill))
    return jobs

def admin(ctx, tag, n, what, ops=14, power=0.2):
    jobs = []
    for i in range(n):
        rng = ctx.rng(tag, i)
        jobs.append(commit.admin_job(world(rng), rng, ops, what, power))
    return jobs

def run(ctx, jobs, **kw):
    return ctx.conform(jobs, module="TraceCommit", fn=commit.execute, nontrivial=flushed, rule=RULE, **kw)

def deviations(ctx, quick, more):
    """the model must refuse each deviation from the protocol (otherwise its invariants would prove nothing)"""
    for b in quick + ([] if ctx.quick else more):
        ctx.mc("MCCommit", "MCCommitB_" + b, expect=False)

def F03(ctx):
    ctx.mc("MCCommit", "MCCommitS")
    deviations(ctx, ["maskfirst"], ["initfirst", "idxinplace", "appendfirst"])
    run(ctx, histories(ctx, "s", ctx.n(60), world, 1, 16, "free", 1, 0, .1))
    run(ctx, histories(ctx, "b", ctx.n(15), bigworld, 1, 40, "free", .4, 0, .05))

def F04(ctx):
    ctx.mc("MCCommit", "MCCommitT" if not ctx.quick else "MCCommitS")
    deviations(ctx, ["nodatasync"], ["notocsync", "noschemasync", "nofullsync", "nosubrecsync"])
    run(ctx, histories(ctx, "s", ctx.n(45), world, 1, 16, "free", .5, 1, .05))
    def env(rng):      # the ways data reach the disk
        e, r, u = rng.choice(worlds.ENVS[2:])
        return world(rng, env=e, res=r, user=u)
    run(ctx, histories(ctx, "e", ctx.n(36), env, 1, 20, "free", .3, 1))

def F05(ctx):
    ctx.mc("MCCommit", "MCCommitN")
    deviations(ctx, ["initappend"], ["initfirst", "appendfirst"])
    mode = lambda r: r.choice(["sched", "sched", "pct", "free"])
    run(ctx, histories(ctx, "2", ctx.n(90), world, 2, 10, mode, .02, .2, .1, .3), reruns=8)
    run(ctx, histories(ctx, "3", ctx.n(60), world, lambda r: r.choice([3, 4]), 10, mode, .01, .2, .1, .3), reruns=8)
    run(ctx, histories(ctx, "b", ctx.n(20), bigworld, 3, 25, mode, .01, .2, .05, .2), reruns=8)

def F06_reads(ctx):
    mode = lambda r: r.choice(["sched", "sched", "pct", "free"])
    run(ctx, histories(ctx, "c2", ctx.n(60), world, 2, 12, mode, 0, 0, .35), reruns=8)
    run(ctx, histories(ctx, "c3", ctx.n(50), world, 3, 10, mode, 0, 0, .45), reruns=8)

def F16_steps(ctx):
    # sub-toc sessions: every step of their flushes and of their compaction at close
    def sub(rng):
        w = world(rng)
        w.sub = 1
        return w
    run(ctx, histories(ctx, "st", ctx.n(25), sub, 1, 12, "free", 1, 0, .1))
    run(ctx, histories(ctx, "sr", ctx.n(30), sub, 2, 10, lambda r: r.choice(["sched", "pct", "free"]), 0, 0, .4), reruns=8)

def F09_crash(ctx):
    run(ctx, admin(ctx, "cw", ctx.n(60), "wipe"))

def F10_crash(ctx):
    run(ctx, admin(ctx, "cp", ctx.n(70), "purge"))

TABLE = {k: v for k, v in globals().items() if k[0] == "F" and k[1:].isdigit()}

"""Checks decided by the schema and type specifications (FdbTypes / FdbSchema / MCTypes / MCSchema / TraceSchema)."""
from . import core, schema

RULE = ("seeded schemas (1-3 database rules, 1-3 index rules each, predicates of every kind, typed keywords, types redeclared in rules), keys that fit, nearly fit or do not fit, "
        "requests spelled differently; every outcome and every field found compared with the specification evaluated on the same schema")
RULE_T = "seeded spellings of values of every keyword type, and values that are none: the canonical value is that of the specification"
RULE_C = "type declarations with the date-like types (climate, year/month) in one keyword"

def jobs(ctx, tag, n, kind, length=30, **kw):
    out = []
    for i in range(n):
        rng = ctx.rng(tag, i)
        w = {"plain": lambda: schema.world(rng, False), "typed": lambda: schema.world(rng, True), "climate": lambda: schema.climate_world(rng)}[kind]()
        out.append((w, schema.Gen(w, rng, length, **kw).events()))
    return out
def types(ctx, tag, per):
    """one world per batch of spellings; every event one spelling"""
    out = []
    for ty in schema.TYPES:
        for i in range(per):
            rng = ctx.rng(tag, ty, i)
            out.append((schema.world(rng, False), [{"op": "type", "type": ty, "values": [v]} for v in schema.spellings(rng, ty)]))
    return out
def found(t):
    return any(e["op"] == "archive" and e["res"] == "ok" for e in t["ev"]) and any(e.get("vs") for e in t["ev"])

def F08(ctx):
    ctx.mc("MCSchema", "MCSchema" if ctx.quick else "MCSchemaT", timeout=1500)
    k = dict(module="TraceSchema", fn=schema.execute, nontrivial=found)
    ctx.conform(jobs(ctx, "p", ctx.n(450), "plain"), rule=RULE, **k)
    ctx.conform(jobs(ctx, "b", ctx.n(60), "plain", bad=0.5), **k)
    ctx.conform(jobs(ctx, "t", ctx.n(120), "typed"), **k)

KF3 = "fractional numbers are told apart to six significant digits only: 12.34567 and 12.34568 are one key"
def F19(ctx):
    ctx.mc("MCTypes", "MCTypes")
    k = dict(module="TraceSchema", fn=schema.execute)
    ctx.conform(types(ctx, "y", ctx.n(6, 60)), rule=RULE_T, **k)
    ctx.conform(jobs(ctx, "t", ctx.n(300), "typed"), rule=RULE, nontrivial=found, **k)
    ctx.conform(jobs(ctx, "b", ctx.n(60), "typed", bad=0.5), nontrivial=found, **k)
    ctx.conform(jobs(ctx, "c", ctx.n(160), "climate"), rule=RULE_C, nontrivial=found, **k)
    t = schema.execute((schema.world(ctx.rng("kf3"), False), [{"op": "type", "type": "Double", "values": ["12.34567", "12.34568"]}]))
    ctx.known("KF3", KF3, len(set(t["ev"][0]["out"])) == 1)

TABLE = {"F08": F08, "F19": F19}

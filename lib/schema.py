"""Schemas with several rules and typed keywords: how keys are split and spelled (FdbSchema, TraceSchema)."""
import datetime, json, os, shutil
from . import core, tlc

# ------------------------------------------------------------------ spellings
# type -> list of (spelling used to archive, other spellings of the same value usable in requests)
def dates(fmts):
    return [(d, ["%s-%s-%s" % (d[:4], d[4:6], d[6:])] if "iso" in fmts else []) for d in ("20200101", "20200102", "20191231", "20200229", "20210311", "20201101")]
TYPES = {
    "Default": [(v, [v.upper()]) for v in ("x", "y", "s-1", "s_1", "1", "01", "1.0", "10", "100", "na", "0")],
    "Time": [("0000", ["0", "00", "000000", "00:00", "0:00"]), ("0600", ["6", "06", "600", "06:00", "6:00:00", "060000"]), ("1200", ["12", "12:00", "120000"]),
             ("0030", ["030", "00:30", "003000"]), ("1230", ["12:30", "123000", "12:30:00"]), ("2359", ["23:59"]), ("0100", ["1", "100", "01:00"]), ("1000", ["10"])],
    "Date": dates(["iso"]) + [("@0", []), ("@1", []), ("@40", [])],
    "Expver": [("0001", []), ("0002", []), ("abcd", ["ABCD", "AbCd"]), ("0010", []), ("1000", []), ("00ab", ["00AB"])],
    "Integer": [("1", ["01", "001", "+1"]), ("0", ["00", "-0"]), ("10", ["010"]), ("100", []), ("-5", ["-05"]), ("12", ["012"])],
    "Double": [("1", ["1.0", "01", "1."]), ("0.5", [".5", "0.50", "00.5"]), ("-1.5", ["-1.50", "-01.5"]), ("0", ["-0", "0.0", "00"]), ("10", ["10.0"]), ("12.25", ["12.2500"]), ("1.05", [])],
    "Step": [("0", ["00", "0h", "0m"]), ("6", ["06", "6h", "360m"]), ("12", ["12h", "720m", "012"]), ("24", ["1d", "24h"]), ("0-6", ["0-6h", "0h-6h", "00-06", "0m-360m"]),
             ("6-12", ["6h-12h", "06-12"]), ("0-24", ["0-1d"]), ("30m", ["1800s"]), ("1h30m", ["90m"]), ("0-30m", ["0m-30m"]), ("1", ["60m", "3600s"]), ("6-7", []), ("12-24", ["12h-1d"])],
    "First3": [("an", []), ("fcx", ["fcxy", "fcxyz1"]), ("abc", ["abcd"]), ("ab", [])],
    "Grid": [("1.0/1.0", ["1.0+1.0"]), ("0.5/0.25", ["0.5+0.25"]), ("o640", []), ("f80", [])],
    "YearMonth": dates(["iso"]), "Year": dates(["iso"]), "Month": dates(["iso"]), "MonthOfDate": dates(["iso"]),
    "ClimateDaily": dates(["iso"]) + [("mar-11", ["20200311"]), ("jan-1", ["20210101", "20200101"])],
    "ClimateMonthly": [("jan", ["1", "01", "20200101"]), ("3", ["mar", "03"]), ("20201101", ["11", "nov"]), ("dec", ["12"])],
    "Ignore": [("x", ["y"]), ("z", ["x"])],
}
# spellings archiving has to refuse
BADS = {"Time": ["6", "12:00", "2400", "0060", "x", "600"], "Date": ["2020-01-01", "x", "20201301", "-1", "0"], "Expver": ["1", "001"], "Integer": ["x", "1.5", "1x"],
        "Double": ["x", "1.2.3"], "Step": ["x", "12-6", "-6"], "YearMonth": ["x", "202001"], "Month": ["x"], "Year": ["2020"], "MonthOfDate": ["13"],
        "ClimateMonthly": ["13", "xyz"], "ClimateDaily": ["xyz-1", "1301"]}
PLAIN = ["Default", "Time", "Date", "Expver", "Integer", "Double", "Step", "First3", "Grid"]

def today(n=0):
    return (datetime.date.today() - datetime.timedelta(days=n)).strftime("%Y%m%d")
def rel(v):
    return today(int(v[1:])) if v[:1] == "@" else v

class SchemaWorld:
    """rules: list of dicts preds/types/sub; preds: dicts kw/kind/vals/def"""
    def __init__(self, types, rules, vals, env=None, user=None, res=None):
        self.types, self.rules, self.vals = types, rules, vals      # vals: keyword -> list of (archive spelling, others)
        self.env, self.user, self.res = dict(env or {}), dict(user or {}), dict(res or {})
    def text(self):
        def pred(p, types):
            k = p["kw"] + (":" + types[p["kw"]] if p["kw"] in types and (p["kind"], types[p["kw"]]) != ("hidden", "Ignore") else "")
            if p["kind"] == "hidden":
                return k + "-" + p["def"]
            if p["kind"] == "optional":
                return k + "?" + p["def"]
            if p["kind"] == "in":
                return k + "=" + "/".join(p["vals"])
            if p["kind"] == "notin":
                return k + "=!" + "/".join(p["vals"])
            return k
        def rule(r, ind):
            t = {k: v for k, v in r["types"].items()}
            return " " * ind + "[ " + ", ".join(pred(p, t) for p in r["preds"]) + ("\n" + "\n".join(rule(x, ind + 2) for x in r["sub"]) if r["sub"] else "") + " ]"
        return "".join("%s:%s;\n" % x for x in self.types.items()) + "\n" + "\n".join(rule(r, 0) for r in self.rules) + "\n"
    def typ(self, kw, *chain):
        for r in chain:
            if kw in r["types"]:
                return r["types"][kw]
        return self.types.get(kw, "Default")

def world(rng, typed=True, **opt):
    """a random schema: rules told apart by ka and kb (databases) and kc (indexes), with other keywords of all kinds"""
    types, vals = {}, {}
    def setvals(kw, ty, n=3):
        c = list(TYPES[ty])
        rng.shuffle(c)
        vals[kw] = c[:n]
    for k, pre in (("ka", "a"), ("kb", "b"), ("kc", "c")):
        vals[k] = [(pre + str(i), []) for i in range(1, 5)]
    pool = ["kd", "ke", "kf", "kg", "kh", "ki", "kj"]
    for k in pool:
        ty = rng.choice(PLAIN) if typed and rng.random() < 0.75 else "Default"
        if ty == "Step":
            continue
        if ty != "Default":
            types[k] = ty
        setvals(k, ty)
    for k in pool:
        if k not in vals:
            setvals(k, "Default")
    if typed:
        types["step"] = "Step"
        setvals("step", "Step", 5)
    else:
        setvals("step", "Default")
    if rng.random() < 0.3:      # declared in the rules instead of globally
        moved = {k: types.pop(k) for k in list(types) if rng.random() < 0.5 and k in pool}
    else:
        moved = {}
    climate = typed and rng.random() < 0.35
    if climate:
        setvals("date", "Date", 6)
        vals["date"] = [x for x in vals["date"] if x[0][0] != "@"]
        types["date"] = "Date"
    def tell(k, n):
        """a predicate on values"""
        if (types.get(k) or moved.get(k) or "Default") != "Default":      # a request's values are converted first
            return {"kw": k, "kind": "any", "vals": [], "def": ""}
        vs = [v[0] for v in vals[k]]
        x = rng.random()
        if x < 0.35:        # values no other rule asks for
            return {"kw": k, "kind": "in", "vals": [vs[n]] + ([vs[3]] if n == 2 else []), "def": ""}
        if x < 0.6:
            return {"kw": k, "kind": "in", "vals": sorted(rng.sample(vs, rng.randint(1, 2))), "def": ""}
        if x < 0.75:
            return {"kw": k, "kind": "notin", "vals": sorted(rng.sample(vs, rng.randint(1, 2))), "def": ""}
        return {"kw": k, "kind": "any", "vals": [], "def": ""}
    def other(k):
        x = rng.random()
        if x < 0.35:
            ty = types.get(k) or moved.get(k) or "Default"
            d = rng.choice(vals[k])[0] if rng.random() < 0.5 else ""
            if ty not in ("Default", "Integer", "Expver") or d[:1] == "@" or not d.isalnum():
                d = ""
            return {"kw": k, "kind": "optional", "vals": [], "def": d}
        return {"kw": k, "kind": "any", "vals": [], "def": ""}
    def rule(preds, sub, datum=False):
        t = {p["kw"]: moved[p["kw"]] for p in preds if p["kw"] in moved}
        t.update({p["kw"]: rng.choice(["Ignore", "Default"]) for p in preds if p["kind"] == "hidden"})
        return {"preds": preds, "types": t, "sub": sub}
    # keywords of databases: databases of different rules need different values (the directory is named by them)
    dbk = [k for k in pool if (types.get(k) or moved.get(k) or "Default") == "Default"]
    for k in dbk[:2]:
        vals[k] = [(k + v, [(k + v).upper()]) for v, o in vals[k]]
    dbk = dbk[:2] + [k for k in pool if (types.get(k) or moved.get(k) or "Default") != "Default"][:1]
    rules = []
    for d in range(rng.randint(1, 3)):
        ks = list(pool)
        rng.shuffle(ks)
        dbp = [tell("ka", d), {"kw": "kb", "kind": "any", "vals": [], "def": ""} if rng.random() < 0.6 else tell("kb", d)] + []
        if rng.random() < 0.45:
            ks.remove(x := rng.choice(dbk))
            dbp.append(other(x))
        if rng.random() < 0.15:
            dbp.append({"kw": "hid%d" % d, "kind": "hidden", "vals": [], "def": "h"})
        rng.random() < 0.5 and rng.shuffle(dbp)
        sub = []
        for i in range(rng.randint(1, 3)):
            kk = list(ks)
            rng.shuffle(kk)
            ip = [tell("kc", i)] + [other(kk.pop()) if rng.random() < 0.75 else tell(kk.pop(), rng.randrange(2)) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
            dp = [{"kw": "step", "kind": "any", "vals": [], "def": ""}] + [other(kk.pop()) for _ in range(rng.choice([0, 1, 2]))]
            rng.random() < 0.5 and rng.shuffle(dp)
            I = rule(ip, [])
            D = rule(dp, [])
            if climate:
                ip.append({"kw": "date", "kind": "any", "vals": [], "def": ""})
                I["types"]["date"] = rng.choice(["Month", "MonthOfDate", "YearMonth"])
                dp.append({"kw": "date", "kind": "any", "vals": [], "def": ""})
                D["types"]["date"] = "Date"
            I["sub"] = [D]
            sub.append(I)
        R = rule(dbp, sub)
        if climate:
            dbp.append({"kw": "date", "kind": "any", "vals": [], "def": ""})
            R["types"]["date"] = "Year"
        rules.append(R)
    w = SchemaWorld(types, rules, vals, **opt)
    w.moved = moved
    return w

def climate_world(rng, **opt):
    """one rule per special date type"""
    w = world(rng, False, **opt)
    ty = rng.choice(["ClimateDaily", "ClimateDaily", "ClimateMonthly", "YearMonth", "Year", "Month", "MonthOfDate"])
    w.vals["cd"] = list(TYPES[ty])
    w.types["cd"] = ty
    for r in w.rules:
        for i in r["sub"]:
            x = rng.choice([r, i, i["sub"][0]])
            if ty in ("Year", "Month", "MonthOfDate"):
                x = i["sub"][0]
            if not any(p["kw"] == "cd" for y in (r, i, i["sub"][0]) for p in y["preds"]):
                x["preds"].append({"kw": "cd", "kind": "any", "vals": [], "def": ""})
    w.moved = {}
    return w

class Gen:
    def __init__(self, w, rng, length=30, bad=0.1, typed=True):
        self.w, self.rng, self.length, self.bad = w, rng, length, bad
        self.keys, self.v = [], 0
    def types(self, kw, r, i):
        return self.w.typ(kw, i["sub"][0], i, r)
    def key(self):
        rng, w = self.rng, self.w
        if self.keys and rng.random() < 0.4:
            k = dict(rng.choice(self.keys))
            if rng.random() < 0.5:
                x = rng.choice(list(k))
                k[x] = rel(rng.choice(w.vals.get(x, [("x", [])]))[0])
            return k
        r = rng.choice(w.rules)
        i = rng.choice(r["sub"])
        k = {}
        for p in r["preds"] + i["preds"] + i["sub"][0]["preds"]:
            kw = p["kw"]
            if p["kind"] == "hidden" or (p["kind"] == "optional" and rng.random() < 0.5) or kw in k:
                continue
            c = w.vals[kw]
            if p["kind"] == "in" and rng.random() < 0.9:
                c = [x for x in c if x[0] in p["vals"]] or c
            elif p["kind"] == "notin" and rng.random() < 0.9:
                c = [x for x in c if x[0] not in p["vals"]] or c
            k[kw] = rel(rng.choice(c)[0])
        if rng.random() < self.bad:
            x = rng.random()
            kw = rng.choice(list(k))
            if x < 0.35:
                del k[kw]
            elif x < 0.6:
                k[rng.choice(["ku", "kd", "ke", "kz"])] = "x"
            else:
                t = self.types(kw, r, i)
                k[kw] = rng.choice(BADS.get(t, ["none"]))
        self.keys.append(dict(k))
        return k
    def spell(self, kw, v):
        for a, o in self.w.vals.get(kw, []):
            if rel(a) == v:
                return self.rng.choice([v] + o) if o else v
        return v
    def request(self):
        rng = self.rng
        k = rng.choice(self.keys)
        if all(v == k[x] for x, v in k.items()) and self.good and rng.random() < 0.85:
            k = rng.choice(self.good)
        req = {}
        for x, v in k.items():
            vs = [v]
            while rng.random() < 0.2:
                vs.append(rel(rng.choice(self.w.vals.get(x, [("x", [])]))[0]))
            vs = [self.spell(x, y) for y in dict.fromkeys(vs)]
            req[x] = sorted(set(vs))
        if len(req) > 1 and rng.random() < 0.15:
            x = rng.choice(list(req))
            if x not in ("ka", "kb"):
                del req[x]
        if rng.random() < 0.1:
            req[rng.choice(["kd", "ke", "ku"])] = ["x"]
        return self.sane(req)
    def sane(self, req):
        """only spellings the request language knows for every type the keyword has in this schema"""
        w = self.w
        chains = [(r, i) for r in w.rules for i in r["sub"]]
        for x in list(req):
            ts = {self.types(x, r, i) for r, i in chains} | {w.typ(x, i, r) for r, i in chains} | {w.typ(x, r) for r, i in chains}
            out = []
            for v in req[x]:
                if all(self.known(t, v) for t in ts):
                    out.append(v)
            if "Grid" in ts:        # the values of a grid belong together
                out = out[:1]
            if out:
                req[x] = out
            else:
                del req[x]
        return req
    def known(self, ty, v):
        if ty in ("Year", "Month", "MonthOfDate", "Date", "YearMonth") and ty != "Date":
            ty = "Date" if ty != "Date" else ty
            return any(v in [rel(a)] + o for a, o in TYPES["Date"])
        if ty == "ClimateDaily":        # asked for by date
            return v[:1].isdigit() and len(v) >= 8
        if ty in ("Default", "Expver", "First3", "Grid", "Ignore"):
            return True
        return any(v in [rel(a)] + o for a, o in TYPES[ty])
    def events(self):
        rng = self.rng
        out = []
        self.good = []
        while len(out) < self.length:
            x = rng.random()
            if x < 0.45 or not self.keys:
                self.v += 1
                k = self.key()
                o = list(k)
                rng.shuffle(o)
                out.append({"op": "archive", "key": k, "ord": o, "v": self.v})
                self.good.append(k)
            elif x < 0.6:
                out.append({"op": "flush"})
            elif x < 0.8:
                out.append({"op": "retrieve", "req": self.request()})
            elif x < 0.93:
                out.append({"op": "inspect", "req": self.request()})
            elif x < 0.97:
                out.append({"op": "list"})
            else:
                out += [{"op": "flush"}, {"op": "purge"}, {"op": "list"}]
            if out[-1].get("req") == {}:
                out.pop()
        return out + [{"op": "flush"}, {"op": "list"}]

def spellings(rng, ty, n=60):
    """values of a type, spelled in many ways, and values that are none"""
    z = lambda x, k=2: str(x).zfill(k)
    out = []
    for _ in range(n):
        if ty == "Time":
            h, m = rng.randrange(0, 25), rng.choice([0, 0, 1, 15, 30, 59, 60])
            out.append(rng.choice([z(h) + z(m), "%d:%02d" % (h, m), "%02d:%d" % (h, m), z(h) + z(m) + "00", str(h), z(h), str(h) + z(m), "%02d:%02d:00" % (h, m)]))
        elif ty in ("Date", "Year", "Month", "MonthOfDate", "YearMonth", "ClimateDaily"):
            y, m, d = rng.randrange(1950, 2100), rng.randrange(1, 13), rng.randrange(1, 32)
            out.append(rng.choice(["%04d%02d%02d", "%04d-%02d-%02d"]) % (y, m, d))
            if ty == "ClimateDaily":
                out.append("%s-%s" % (MONTHS[m - 1], rng.choice([str(d), z(d)])))
        elif ty == "ClimateMonthly":
            m = rng.randrange(1, 13)
            out.append(rng.choice([str(m), z(m), MONTHS[m - 1], "2020%02d%02d" % (m, rng.randrange(1, 29))]))
        elif ty == "Expver":
            out.append("".join(rng.choice("01aAbZ9") for _ in range(rng.randrange(1, 5))))
        elif ty == "Integer":
            out.append(rng.choice(["", "-", "+", "0", "-0", "00"]) + str(rng.choice([0, 1, 7, 10, 99, 1000, 123456789])))
        elif ty == "Double":
            out.append(rng.choice(["", "-", "0", "-0"]) + rng.choice(["0", "1", "10", "999", "12", ""]) + rng.choice([".", ".0", ".5", ".50", ".25", ".125", ".05", ".100", ".3"]))
        elif ty == "Step":
            def mom(t):
                c = [str(t // 3600) + "h", str(t // 3600), "0" + str(t // 3600)] if t % 3600 == 0 else []
                return rng.choice(c + [str(t // 60) + "m", str(t) + "s"] + ([str(t // 86400) + "d"] if t % 86400 == 0 else []))
            a, b = rng.choice([0, 60, 900, 1800, 3600, 5400, 21600, 43200, 86400, 90000, 172800]), rng.choice([0, 1800, 3600, 21600, 86400])
            out.append(mom(a) if rng.random() < 0.4 else mom(a) + "-" + mom(a + b))
        elif ty in TYPES:
            out.append("".join(rng.choice("abXy1_./") for _ in range(rng.randrange(1, 6))))
    return [x for x in out if x not in ("", "-", ".", "-.", "+")] + BADS.get(ty, []) + [y for x in TYPES[ty] for y in [x[0]] + x[1] if y[:1] != "@"]
MONTHS = ["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"]

class SchemaExec(core.Exec):
    def __init__(self, w, pool=None):
        w.schema = w.text
        w.roots, w.maxdb, w.grib, w.extra_cfg = 1, 64, False, {}
        super().__init__(w, pool)
        self.n = 0
        core.Exec.raw(self, "p1.w", {"op": "open", "cfg": self.cfg, "user": json.dumps(w.user)})
    def reader(self, c):
        self.n += 1
        h = "p2.r%d" % self.n
        r = self.raw(h, {"op": "open", "cfg": self.cfg, "user": json.dumps(self.w.user)})
        if r["ok"]:
            r = self.raw(h, c)
            self.raw(h, {"op": "close"})
        return r
    def day(self):
        t = datetime.date.today()
        return [t.year, t.month, t.day]
    def step(self, e):
        e = dict(e)
        op = e["op"]
        t = self.day()
        if op == "archive":
            r = self.raw("p1.w", {"op": "archive", "key": core.order_key(e, self.w), "v": e["v"], "len": 10})
        elif op == "flush":
            r = self.raw("p1.w", {"op": "flush"})
        elif op == "purge":         # nobody is writing
            r = self.raw("p1.w", {"op": "close"})
            r = self.reader({"op": "purge", "all": True, "doit": True})
            self.raw("p1.w", {"op": "open", "cfg": self.cfg, "user": json.dumps(self.w.user)})
        elif op == "list":
            r = self.reader({"op": "list", "all": True, "mode": "dedup", "level": 3, "data": True})
        elif op == "type":
            r = self.raw("p1.w", {"op": "type", "schema": "k:%s;\n[a [b [k]]]" % e["type"], "keyword": "k", "values": e["values"]})
        else:
            r = self.reader({"op": op, "req": e["req"]})
        e["res"] = "ok" if r["ok"] else r["ex"]
        if not r["ok"]:
            e["what"] = r["what"]
        e["today"] = [t] + ([self.day()] if self.day() != t else [])
        if op in ("list", "inspect"):
            e["obs"] = [{"k": [{a: b for a, b in k.items() if b != ""} for k in x["k"]], "v": x.get("v", -4)} for x in r.get("elems", [])]
        elif op == "retrieve":
            e["vs"] = r.get("vs", [])
        elif op == "type":
            e["out"] = ["!" if x is None else x.lower() for x in r.get("out", [])]
            e["tidy"] = ["!" if x is None else x.lower() for x in r.get("tidy", [])]
        self.ev.append(e)
        return r
    def finish(self):
        if not self.dead:
            self.raw("p1.w", {"op": "close"})
        shutil.rmtree(self.dir, ignore_errors=True)
        return {"schema": {"types": self.w.types, "rules": self.w.rules}, "text": self.w.text(), "ev": self.ev}

def execute(job, pool=None):
    w, evs = job
    x = SchemaExec(w, pool)
    for e in evs:
        if not x.dead:
            x.step(e)
    return x.finish()

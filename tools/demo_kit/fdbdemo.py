"""Helpers of the demonstrations: a driver program compiled against /repo's build, in a scratch directory of its own."""
import atexit, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
B = "/repo/_build"
TMP = tempfile.mkdtemp(prefix="demo.", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp")
_procs = []
def _end():
    for p in _procs:
        if p.p.poll() is None:
            p.p.kill()
    shutil.rmtree(TMP, ignore_errors=True)
atexit.register(_end)

def build():
    if os.path.exists(TMP + "/vdrv"):
        return TMP + "/vdrv"
    c = next(x for x in json.load(open(B + "/compile_commands.json")) if x["file"].endswith("/fdb5/tools/fdb-hide.cc"))
    w = c["command"].split()
    flags = [x for i, x in enumerate(w) if x.startswith(("-I", "-std")) or x == "-isystem" or w[i - 1] == "-isystem"]
    inc = [w[i + 1] for i, x in enumerate(w) if x == "-isystem"]
    site = os.path.dirname(os.path.dirname(next(i for i in inc if i.endswith("/eckitlib/include"))))
    libs = [site + "/" + x + "/lib64" for x in ("eckitlib", "metkitlib", "eccodeslib")]
    wheel = site + "/eckitlib.libs"
    link = [B + "/lib/libfdb5.so", "-ldummy_daos", "-ldummy_daos_tests", "-leckit", "-leckit_option", "-lmetkit", "-leccodes", "-lpthread"]
    dirs = [B + "/lib"] + libs + [wheel]
    cmd = ["g++", "-O0", "-w"] + flags + ["-I/repo/src/dummy_daos", "-I" + HERE, HERE + "/vdrv.cc", HERE + "/vdrv_none.cc", "-o", TMP + "/vdrv"] + \
          ["-L" + d for d in dirs] + ["-Wl,-rpath," + ":".join(dirs), "-Wl,--allow-shlib-undefined"] + link
    subprocess.run(cmd, check=True)
    global LIBPATH
    return TMP + "/vdrv"

def environment(extra=None, res=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("FDB", "ECCODES", "METKIT", "ECKIT"))}
    c = json.load(open(B + "/compile_commands.json"))
    w = next(x for x in c if x["file"].endswith("/fdb5/tools/fdb-hide.cc"))["command"].split()
    site = os.path.dirname(os.path.dirname(next(x for x in w if x.endswith("/eckitlib/include"))))
    e["LD_LIBRARY_PATH"] = ":".join([B + "/lib"] + [site + "/" + x for x in ("eckitlib/lib64", "metkitlib/lib64", "eccodeslib/lib64", "eckitlib.libs")])
    h = tempfile.mkdtemp(dir=TMP)
    os.makedirs(h + "/etc/config")
    open(h + "/etc/config/local", "w").write("".join("%s: %s\n" % kv for kv in (res or {}).items()))
    e["VDRV_HOME"] = h
    e["FDB_HOME"] = h
    e.update(extra or {})
    return e

class Proc:
    """one process"""
    def __init__(self, env=None, res=None, cfg=None):
        build()
        self.cfg = cfg
        self.p = subprocess.Popen([TMP + "/vdrv"], env=environment(env, res), cwd=TMP, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        _procs.append(self)
    def __call__(self, **c):
        self.p.stdin.write((json.dumps(c) + "\n").encode())
        self.p.stdin.flush()
        l = self.p.stdout.readline()
        if not l:
            return {"ok": False, "ex": "died", "what": ""}
        return json.loads(l)
    def open(self, h, sub=False, user=None, cfg=None):
        u = dict(user or {})
        if sub:
            u["useSubToc"] = True
        return ok(self(op="open", h=h, cfg=json.dumps(cfg or self.cfg), user=json.dumps(u)))
    def archive(self, h, key, v, n):
        return ok(self(op="archive", h=h, key=[[a, key[a]] for a in key], v=v, len=n))
    def flush(self, h): return ok(self(op="flush", h=h))
    def close(self, h): return ok(self(op="close", h=h))
    def list(self, h, req=None, mode="full"):
        r = ok(self(op="list", h=h, req=req or {}, all=not req, level=3, mode=mode, data=True))
        return [x["v"] for x in r["elems"]]
    def retrieve(self, h, req): return ok(self(op="retrieve", h=h, req=req))["vs"]
    def kill(self):
        self.p.kill(); self.p.wait()
    def end(self):
        self.p.stdin.close(); self.p.wait()

def ok(r):
    if not r.get("ok"):
        fail("unexpected error %s" % r)
    return r
def fail(m):
    print("DEMO: property broken:", m)
    sys.stdout.flush()
    sys.exit(1)
def expect(got, want, what):
    if got != want:
        fail("%s: got %s, expected %s" % (what, got, want))
def config(schema, name="root", **kw):
    d = TMP + "/" + name
    os.makedirs(d, exist_ok=True)
    open(d + ".schema", "w").write(schema)
    c = {"type": "local", "engine": "toc", "schema": d + ".schema", "spaces": [{"handler": "Default", "roots": [{"path": d}]}]}
    c.update(kw)
    return c

# ---- the changes processes make to files, and what is left after a crash between any two of them (vtrace)
def record(scripts, root, env=None, res=None, mode="free", seed=1, kill=None):
    """scripts: list of lists of commands -> (log, blob, responses)"""
    build()
    wd = tempfile.mkdtemp(dir=TMP)
    subprocess.run(["g++", "-O1", "-w", HERE + "/vtrace.cc", "-o", wd + "/vtrace"], check=True)
    e = environment(env, res)
    if kill:
        e["VTRACE_KILL"] = "%d:%d" % kill
    a = [wd + "/vtrace", wd + "/log", wd + "/blob", root, mode, str(seed), "60"]
    for i, s in enumerate(scripts):
        open("%s/in%d" % (wd, i), "w").write("".join(json.dumps(c) + "\n" for c in s))
        a += ["--", "%s/in%d" % (wd, i), "%s/out%d" % (wd, i), TMP + "/vdrv"]
    subprocess.run(a, env=e, cwd=wd, timeout=120, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    log = [json.loads(l) for l in open(wd + "/log")]
    blob = open(wd + "/blob", "rb").read()
    out = [[json.loads(l) for l in open("%s/out%d" % (wd, i)) if l.strip()] for i in range(len(scripts))]
    return log, blob, out

def materialise(log, blob, n, root, power=False):
    """the directory after the first n entries of the log (power: only what had been forced to storage)"""
    files, dirs, dur = {}, set(), {}
    for e in log[:n]:
        op, f = e["op"], e.get("f")
        if op in ("creat", "trunc"): files[f] = bytearray()
        elif op == "write":
            b = files.setdefault(f, bytearray())
            if len(b) < e["off"]: b.extend(b"\0" * (e["off"] - len(b)))
            b[e["off"]:e["off"] + e["len"]] = blob[e["blob"]:e["blob"] + e["len"]]
        elif op == "sync" and f in files: dur[f] = bytes(files[f])
        elif op == "rename":
            if f in files:
                files[e["to"]] = files.pop(f); dur.pop(e["to"], None)
                if f in dur: dur[e["to"]] = dur.pop(f)
        elif op == "unlink": files.pop(f, None); dur.pop(f, None)
        elif op == "mkdir": dirs.add(f)
        elif op == "rmdir": dirs.discard(f)
        elif op == "ftruncate":
            b = files.setdefault(f, bytearray()); del b[e["len"]:]; b.extend(b"\0" * (e["len"] - len(b)))
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    for d in dirs:
        if d != ".": os.makedirs(root + "/" + d, exist_ok=True)
    for f, b in files.items():
        os.makedirs(os.path.dirname(root + "/" + f), exist_ok=True)
        open(root + "/" + f, "wb").write(dur.get(f, b"") if power else b)
CHANGES = ("creat", "trunc", "write", "sync", "rename", "unlink", "mkdir", "rmdir", "ftruncate")
def cmd_open(h, cfg, sub=False): return {"op": "open", "h": h, "cfg": json.dumps(cfg), "user": json.dumps({"useSubToc": True} if sub else {})}
def cmd_archive(h, key, v, n): return {"op": "archive", "h": h, "key": [[a, key[a]] for a in key], "v": v, "len": n}

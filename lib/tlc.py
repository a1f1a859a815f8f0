"""Running TLC: trace validation (chunks in parallel) and exhaustive model checking."""
import json, os, re, subprocess, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor
from . import build as B
SPEC = os.path.join(B.VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class TLCError(Exception):
    pass

def run(module, cfg=None, env=None, args=(), timeout=600, heap="2g", workers="1", cwd=None):
    """raw TLC run; returns (exit code, output)"""
    work = tempfile.mkdtemp(prefix="tlc.", dir=scratch())
    for f in os.listdir(SPEC):
        if f.endswith((".tla", ".cfg")):
            os.symlink(os.path.join(SPEC, f), os.path.join(work, f))
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC" if workers == "1" else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss1g", "-Djava.io.tmpdir=" + work,
           "-XX:TieredStopAtLevel=4", "-cp", CP, "tlc2.TLC", "-metadir", work + "/meta", "-workers", str(workers), "-noGenerateSpecTE"]
    if cfg:
        cmd += ["-config", cfg if cfg.endswith(".cfg") else cfg + ".cfg"]
    cmd += list(args) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return r.returncode, r.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    finally:
        shutil.rmtree(work, ignore_errors=True)

_scr = None
def scratch():
    """a scratch directory of this process, removed by check.py at the end"""
    global _scr
    if _scr is None:
        base = os.environ.get("VERIF_SCRATCH")
        if not base:
            base = tempfile.mkdtemp(prefix="vfdb.", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp")
            os.environ["VERIF_SCRATCH"] = base
        _scr = base
    return _scr

def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

CAPPED = []      # numbers of traces a specification gave up on (too many interleavings)

def validate(module, traces, cfg=None, chunks=None, timeout=600, heap="3g", env=None):
    """Validate traces (list of dicts, each with list 'ev').  Returns (list of rejects, states, distinct).
    A reject is dict(index, pos (number of accepted events), diff (text))."""
    if not traces:
        return [], 0, 0
    n = min(chunks or 8, len(traces))
    groups = [list(range(i, len(traces), n)) for i in range(n)]
    def one(g):
        fd, path = tempfile.mkstemp(prefix="tr.", suffix=".json", dir=scratch())
        with os.fdopen(fd, "w") as f:
            json.dump([traces[i] for i in g], f)
        e = {"TRACEFILE": path}
        e.update(env or {})
        rc, out = run(module, cfg or module, env=e, timeout=timeout, heap=heap)
        os.unlink(path)
        if rc != 0 or "VALIDATED" not in out:
            if os.environ.get("VERIF_DEBUG"):
                keep = "/tmp/tlcfail.json"
                json.dump([traces[i] for i in g], open(keep, "w"))
            raise TLCError("TLC trace validation failed (%s, rc %d):\n%s" % (module, rc, "\n".join(out[m.start():m.start() + 1200] for m in list(re.finditer("Error:", out))[:3]) + "\n...\n" + out[-1500:]))
        for m in re.finditer(r'"CAPPED", (\d+)', out):
            CAPPED.append(int(m.group(1)))
        rej = []
        diffs = out.split('"DIFF",')[1:]
        for m in re.finditer(r'<<"REJECT", (\d+), (\d+)(?:, (\d+))?>>', out):
            t, p = int(m.group(1)), int(m.group(2))
            b = 0
            if m.group(3) is not None:
                b, p = p, int(m.group(3))
            d = [x for x in diffs if re.match(r"\s*%d,\s*%d,\s*%d," % (t, p + 1, b), x)]
            rej.append({"index": g[t - 1], "pos": p, "br": b, "diff": "\n".join(x[:3000] for x in d[:2])})
        return rej, stats(out)
    rejects, st, ds = [], 0, 0
    with ThreadPoolExecutor(n) as ex:
        for r, (a, b) in ex.map(one, groups):
            rejects += r
            st += a
            ds += b
    return rejects, st, ds

def check(module, cfg, timeout=600, workers="8", heap="8g", args=(), env=None, expect_ok=True):
    """Exhaustive model checking; returns dict(states, distinct, ok, out)."""
    rc, out = run(module, cfg, timeout=timeout, workers=workers, heap=heap, args=args, env=env)
    g, d = stats(out)
    ok = rc == 0 and "No error has been found" in out
    if rc not in (0, 12, 13, 11) and expect_ok:   # not a property violation: an error of the model run
        raise TLCError("TLC %s/%s rc %d:\n%s" % (module, cfg, rc, out[-4000:]))
    return {"states": g, "distinct": d, "ok": ok, "out": out, "rc": rc}

"""Content-synchronised mirror of /repo's working tree and an incremental ninja build of it plus the drivers.
The mirror makes the build depend on file *contents* only (file times in copied sandboxes mean nothing)."""
import os, sys, subprocess, fcntl, filecmp, shutil, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SITE = "/opt/vp/venv/lib/python3.12/site-packages"
WHEEL = [SITE + "/eckitlib/lib64", SITE + "/metkitlib/lib64", SITE + "/eccodeslib/lib64", SITE + "/eckitlib.libs"]
LIBPATH = ":".join([BUILD + "/fdb/lib"] + WHEEL)
BIN = BUILD + "/fdb/bin"

def sync(src, dst, rel):
    """copy files of src/rel whose content differs; delete files that are gone; returns number changed"""
    n = 0
    want = set()
    for root, dirs, files in os.walk(os.path.join(src, rel)):
        dirs[:] = [d for d in dirs if not d.startswith(".") and d != "__pycache__"]
        for f in files:
            s = os.path.join(root, f)
            r = os.path.relpath(s, src)
            want.add(r)
            d = os.path.join(dst, r)
            if os.path.islink(s) and not os.path.exists(s):
                continue
            if os.path.exists(d) and filecmp.cmp(s, d, shallow=False):
                continue
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copyfile(s, d)
            n += 1
    for root, dirs, files in os.walk(os.path.join(dst, rel)):
        for f in files:
            d = os.path.join(root, f)
            if os.path.relpath(d, dst) not in want:
                os.unlink(d)
                n += 1
    return n

def build(log=sys.stderr, targets=()):
    os.makedirs(os.path.join(BUILD, "home"), exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    m = os.path.join(BUILD, "mirror")
    n = 0
    for rel in ("src", "cmake"):
        n += sync(REPO, m, rel)
    for f in ("VERSION",):
        d = os.path.join(m, f)
        if not (os.path.exists(d) and filecmp.cmp(os.path.join(REPO, f), d, shallow=False)):
            shutil.copyfile(os.path.join(REPO, f), d); n += 1
    env = dict(os.environ, CC="gcc", CXX="g++")
    B = os.path.join(BUILD, "fdb")
    out = open(os.path.join(BUILD, "build.log"), "w")
    if not os.path.exists(B + "/build.ninja"):
        r = subprocess.run(["cmake", "-S", VERIF + "/harness", "-B", B, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
             "-DCMAKE_CXX_FLAGS=-O1 -fno-omit-frame-pointer", "-DCMAKE_C_FLAGS=-O1", "-DVP_SITE=" + SITE, "-DFDB_SRC=" + m],
             env=env, stdout=out, stderr=subprocess.STDOUT)
        if r.returncode:
            out.close(); log.write(open(out.name).read()[-4000:]); raise SystemExit(2)
    r = subprocess.run(["ninja", "-C", B] + list(targets), env=env, stdout=out, stderr=subprocess.STDOUT)
    out.close()
    if r.returncode:
        log.write(open(out.name).read()[-6000:])
        raise SystemExit(2)
    fcntl.flock(lock, fcntl.LOCK_UN)
    log.write("build: %d files changed, %.1fs\n" % (n, time.time() - t0))
if __name__ == "__main__":
    build()

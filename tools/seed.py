#!/usr/bin/env python3
"""seed.py ID [--no-tests] [--checks F01,F02]: confirm the planted change /verif/seeded/ID in a private mount namespace
(a scratch copy of /repo bound over /repo): it builds, passes the stable tests, its demo fails with it and passes without.
seed.py --new ID PROP: directory with the demonstration kit."""
import json, os, shutil, subprocess, sys
V = "/verif"
KIT = V + "/tools/demo_kit"
WK = "/tmp/plant"
def kit(sid):
    d = "%s/seeded/%s" % (V, sid)
    os.makedirs(d, exist_ok=True)
    for f in ("fdbdemo.py", "vdrv_none.cc", "demo.sh"):
        shutil.copy(KIT + "/" + f, d + "/" + f)
    os.chmod(d + "/demo.sh", 0o755)
    for f in ("vdrv.cc", "vdrv.h", "vtrace.cc"):
        shutil.copy(V + "/harness/" + f, d + "/" + f)
def sh(c, **kw):
    return subprocess.run(c, shell=True, **kw)
def inside(sid, tests, checks):
    r = {}
    d = "%s/seeded/%s" % (V, sid)
    sh("git -C /repo checkout -q -- . && git -C /repo clean -fdq -e _build >/dev/null", check=True)
    demo = WK + "/demo"
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json", "__pycache__"))
    if os.environ.get("PLANT_BASE", "1") == "1":
        b = sh("bash /opt/vp/build.sh > %s/build.log 2>&1" % WK).returncode
        assert b == 0, "base build"
        r["demo on unchanged"] = sh("cd /repo && timeout 300 bash %s/demo.sh" % demo).returncode
    a = sh("git -C /repo apply %s/patch.diff" % d).returncode
    assert a == 0, "patch does not apply"
    b = sh("bash /opt/vp/build.sh > %s/build.log 2>&1" % WK).returncode
    r["build"] = b
    if b:
        print(open(WK + "/build.log").read()[-3000:])
    else:
        r["demo with change"] = sh("cd /repo && timeout 300 bash %s/demo.sh" % demo).returncode
        if tests and r["demo with change"] != 0:
            sh("bash /opt/vp/test.sh %s/test.json > %s/test.log 2>&1" % (WK, WK))
            base = json.load(open("/opt/vp/BASELINE.json"))
            want = set(base.get("passed") or base.get("stable") or base.get("tests"))
            got = set(json.load(open(WK + "/test.json"))["passed"])
            r["stable tests failing"] = sorted(want - got)[:8]
        for c in checks:
            e = dict(os.environ, VERIF_BUILD="/verif/build", VERIF_SEED="1")
            p = sh("cd %s/chk && timeout 900 python3 check.py %s quick > %s/check-%s.log 2>&1" % (WK, c, WK, c), env=e)
            r["check " + c] = p.returncode
            if p.returncode:
                sh("grep -A12 VIOLATION %s/check-%s.log | cut -c1-300 | head -14" % (WK, c))
    sh("git -C /repo checkout -q -- .")
    print(sid, json.dumps(r), flush=True)
if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--new":
        kit(a[1]); sys.exit()
    if a[0] == "--inside":
        inside(a[1], a[2] == "1", [x for x in a[3].split(",") if x] if len(a) > 3 else [])
        sys.exit()
    tests = "--no-tests" not in a
    checks = next((x[9:] for x in a if x.startswith("--checks=")), "")
    os.makedirs(WK, exist_ok=True)
    if not os.path.exists(WK + "/repo"):
        sh("cp -a /repo %s/repo" % WK, check=True)
    sh("git -C %s/repo fetch -q /repo HEAD && git -C %s/repo checkout -q -f FETCH_HEAD" % (WK, WK), check=True)
    # the checks as they are now, without build products
    if checks:
        shutil.rmtree(WK + "/chk", ignore_errors=True)
        sh("mkdir -p %s/chk && cd %s && cp -r check.py lib spec harness tools *.txt %s/chk/" % (WK, V, WK), check=True)
        if not os.path.exists(WK + "/vbuild"):
            sh("cp -a %s/build %s/vbuild" % (V, WK), check=True)
    for sid in [x for x in a if not x.startswith("--")]:
        # the kit goes with every demonstration
        kit(sid)
        sh("unshare -m -p -f --mount-proc bash -c 'mount --bind %s/repo /repo && { [ ! -d %s/vbuild ] || mount --bind %s/vbuild /verif/build; } && exec python3 %s --inside %s %d %s'" % (WK, WK, WK, os.path.abspath(__file__), sid, tests, checks))

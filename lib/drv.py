"""Python side of the conformance driver (vdrv)."""
import json, os, subprocess, threading, queue, signal, time
from . import build as B

def env(extra=None, home=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("FDB", "ECCODES", "METKIT", "ECKIT"))}
    e["LD_LIBRARY_PATH"] = B.LIBPATH
    e["FDB_HOME"] = home or os.path.join(B.BUILD, "home")
    e["OMP_NUM_THREADS"] = "1"
    e.update(extra or {})
    return e

def reshome(res):
    """a home directory whose configuration sets eckit resources (those without an environment variable)"""
    from . import tlc
    name = "home_" + "_".join("%s-%s" % kv for kv in sorted(res.items()))
    h = os.path.join(tlc.scratch(), name)
    if not os.path.exists(h + "/etc/config/local"):
        os.makedirs(h + "/etc/config", exist_ok=True)
        tmp = "%s/etc/config/t%d" % (h, os.getpid())
        with open(tmp, "w") as f:
            f.write("".join("%s: %s\n" % kv for kv in sorted(res.items())))
        os.rename(tmp, h + "/etc/config/local")
    return h

class Died(Exception):
    pass

class Driver:
    """One driver process. call(cmd) -> result dict; raises Died when the process ends or hangs."""
    def __init__(self, cwd, extra_env=None, args=(), preload=None, errfile=None, timeout=120, res=None):
        e = env(extra_env)
        e["VDRV_HOME"] = reshome(res or {})
        if preload:
            e["LD_PRELOAD"] = preload
        self.err = open(errfile or os.path.join(cwd, "drv.err"), "ab")
        self.timeout = timeout
        self.p = subprocess.Popen([B.BIN + "/vdrv"] + list(args), cwd=cwd, env=e, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err, start_new_session=True)
    def send(self, cmd):
        try:
            self.p.stdin.write((json.dumps(cmd) + "\n").encode()); self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            raise Died("write")
    def recv(self, timeout=None):
        import select
        buf = b""
        fd = self.p.stdout.fileno()
        end = time.time() + (timeout or self.timeout)
        pend = getattr(self, "_pend", b"")
        while True:
            if b"\n" in pend:
                line, pend = pend.split(b"\n", 1)
                self._pend = pend
                return json.loads(line)
            left = end - time.time()
            if left <= 0:
                self.kill(); raise Died("timeout")
            r, _, _ = select.select([fd], [], [], left)
            if r:
                d = os.read(fd, 1 << 20)
                if not d:
                    self.p.wait()
                    raise Died("exit %s" % self.p.returncode)
                pend += d
    def call(self, cmd, timeout=None):
        self.send(cmd)
        return self.recv(timeout)
    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()
    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(20)
        except Exception:
            self.kill()
        self.err.close()
        return self.p.returncode

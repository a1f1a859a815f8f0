"""Executions through fdb-server processes: catalogue and store servers of their own for every execution."""
import ctypes, fcntl, json, os, random, shutil, signal, socket, subprocess, time
from . import build as B, tlc, worlds
from .core import Exec, World, Gen
from .drv import Driver, Died, env

class Ports:
    """Ports nobody else uses: fdb-server shares its port with anyone (SO_REUSEPORT), so they are claimed by locks on a file."""
    file = None
    own = set()
    def __init__(self):
        self.held = []
        if Ports.file is None or Ports.pid != os.getpid():
            Ports.file, Ports.pid, Ports.own = open("/tmp/.vfdbports", "w"), os.getpid(), set()
    def take(self):
        rng = random.Random(os.getpid() * 7919 + time.time_ns())
        while True:
            p = rng.randint(15000, 31000)
            if p in Ports.own:
                continue
            try:
                fcntl.lockf(Ports.file, fcntl.LOCK_EX | fcntl.LOCK_NB, 1, p)
            except OSError:
                continue
            s = socket.socket()
            try:
                s.bind(("0.0.0.0", p))
            except OSError:
                fcntl.lockf(Ports.file, fcntl.LOCK_UN, 1, p)
                continue
            finally:
                s.close()
            Ports.own.add(p)
            self.held.append(p)
            return p
    def free(self):
        for p in self.held:
            Ports.own.discard(p)
            fcntl.lockf(Ports.file, fcntl.LOCK_UN, 1, p)
        self.held = []

def wait_port(port, proc, timeout=60):
    end = time.time() + timeout
    while time.time() < end:
        try:
            socket.create_connection(("127.0.0.1", port), 5).close()
            return True
        except OSError:
            if proc.poll() is not None:
                return False
            time.sleep(.004)
    return False

LIBC = ctypes.CDLL(None)
def _with_parent():
    LIBC.prctl(1, signal.SIGKILL)

class RemoteExec(Exec):
    """Handles of processes p<n> are clients of the servers; those of d<n> open the catalogue's files directly."""
    tc = True
    def __init__(self, world, pool=None):
        super().__init__(world, {})
        o = world.remote
        self.o = o
        self.ports = Ports()
        self.srv = []
        self.log = os.environ.get("VFDB_SRVLOG")
        self.sroots = []
        stores = []
        for i in range(o["stores"]):
            r = self.dir + "/store%d" % i if o["split"] else self.roots[0]
            os.makedirs(r, exist_ok=True)
            self.sroots.append(r)
            p = self.ports.take()
            c = {"type": "store", "serverPort": p, "serverThreaded": o["threaded"], "spaces": [{"handler": "Default", "roots": [{"path": r}]}]}
            c.update(o["srvcfg"])
            stores.append((p, self.server("store%d" % i, c)))
        p = self.ports.take()
        c = {"type": "catalogue", "engine": "toc", "serverPort": p, "serverThreaded": o["threaded"], "schema": self.dir + "/schema",
             "stores": [{"default": "localhost:%d" % q} for q, _ in stores],
             "spaces": [{"handler": "Default", "roots": [{"path": r} for r in self.roots]}]}
        c.update(o["srvcfg"])
        cat = self.server("cat", c)
        self.aux = [r for r in self.sroots if r != self.roots[0]]
        for q, s in stores + [(p, cat)]:
            if not wait_port(q, s):
                rc = s.poll()
                self.stop()
                raise RuntimeError("server did not start (%s)" % rc)
        self.local = self.cfg
        self.cfg = json.dumps(dict({"type": "remote", "engine": "remote", "store": "remote", "host": "localhost", "port": p}, **o["clicfg"]))
        if o["direct"]:       # a client with the catalogue's files at hand, the stores being remote
            l = json.loads(self.local)
            l.update({"store": "remote", "stores": ["localhost:%d" % q for q, _ in stores], "fieldLocationEndpoints": ["localhost:%d" % q for q, _ in stores]})
            self.local = json.dumps(l)
    def server(self, name, cfg):
        f = "%s/%s.json" % (self.dir, name)
        with open(f, "w") as x:
            json.dump(cfg, x)
        os.makedirs(self.dir + "/home/etc/config", exist_ok=True)     # with a table of running tasks of their own: killed servers stay in it
        with open(self.dir + "/home/etc/config/local", "w") as x:
            x.write("".join("%s: %s\n" % kv for kv in self.w.res.items()))
        e = env(self.w.env, home=self.dir + "/home")
        e.update(FDB5_CONFIG_FILE=f, FDB_WIPE_SECRET="secret")
        if self.o["sub"]:
            e["FDB5_SUB_TOCS"] = "1"
        out = open(self.log + "." + name, "ab") if self.log else subprocess.DEVNULL
        p = subprocess.Popen([B.BIN + "/fdb-server"], env=e, stdin=subprocess.DEVNULL, stdout=out, stderr=out, cwd=self.dir, start_new_session=True, preexec_fn=_with_parent)
        self.srv.append(p)
        return p
    def step(self, e):
        e = dict(e)
        if e["op"] == "open":
            e["sub"] = self.o["sub"] and e["h"][0] == "p"
            keep = self.cfg
            if e["h"][0] == "d":
                self.cfg = self.local
            try:
                return super().step(e)
            finally:
                self.cfg = keep
        r = super().step(e)
        if e["op"] == "close" and self.o["sub"] and e["h"][-1] not in "rzc":
            self.settle()
        return r
    def settle(self):
        """a server ends a client's session after the client has gone: wait for every sub-toc to have been cleared"""
        end = time.time() + 30
        while time.time() < end:
            if all(open(d + "/toc", "rb").read().count(f.encode() + b"\t") >= 2
                   for r in self.roots for d in [r + "/" + x for x in os.listdir(r)] for f in os.listdir(d) if f.startswith("toc.")):
                return
            time.sleep(.003)
    def finish(self):
        t = super().finish()
        for d in self.drv.values():
            d.close()
        self.stop()
        return t
    def stop(self):
        for p in self.srv:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        self.ports.free()
        shutil.rmtree(self.dir, ignore_errors=True)

def start(w):
    for i in range(8):
        try:
            return RemoteExec(w)
        except RuntimeError:
            time.sleep(.1)
    return RemoteExec(w)

def execute(job):
    w, events = job
    x = start(w)
    try:
        for e in events:
            x.step(e)
            if x.dead:
                break
    finally:
        t = x.finish()
    return t

def world(rng, sub=None, split=False, kinds="ssvm"):
    sub = rng.random() < .3 if sub is None else sub
    k = rng.choice(kinds)
    w = worlds.small(rng, sub=0) if k == "s" else worlds.varied(rng, sub=0) if k == "v" else worlds.manydb(rng, sub=0)
    if rng.random() < .25:      # reads that wait for one another
        w.env = dict(w.env, FDB_READ_LIMIT=rng.choice(["5000", "6000", "12000"]))
    if sub:
        w.maxdb = 64
        w.res = {k: v for k, v in w.res.items() if k != "fdbMaxNbDBsOpen"}
    w.remote = {"stores": rng.choice([1, 1, 2, 3]), "threaded": rng.random() < .6, "split": split or rng.random() < .7, "sub": sub, "direct": rng.random() < .5,
                "srvcfg": rng.choice([{}, {}, {"supportedConnections": [1]}, {"supportedConnections": [2]}]), "clicfg": {}}
    return w

def gen(w, rng, weights, length=40):
    """behaviours whose administration of controls goes through a local handle: servers do not offer it"""
    sub = w.remote["sub"]
    g = Gen(w, rng, weights, length=length, handles=("p1.a",) if sub else ("p1.a", "p2.b"), readers=("p2.r", "d1.r") if sub else ("p1.r", "p2.r", "d1.r"))
    out = []
    for e in g.events():
        if e["op"] in ("control", "status"):
            e["h"] = "d1.c"
            if e["op"] == "control":       # (archiving through a server does not heed its lock: KF2)
                e["ids"] = [x for x in e["ids"] if x != "archive"] or ["retrieve"]
            out += [{"op": "open", "h": "d1.c"}, e, {"op": "close", "h": "d1.c"}]
        elif e["op"] == "wipe":        # unsafe wipes are refused
            out.append(dict(e, unsafe=False))
        elif e["op"] == "archive" and rng.random() < .05 and "FDB_READ_LIMIT" not in w.env:
            out.append(dict(e, len=rng.choice([70000, 200001, 1 << 20])))
        else:
            out.append(e)
    return out

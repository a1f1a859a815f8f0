"""File-system histories of driver processes: recording (vtrace), decoding, and rebuilding the directory at any point."""
import json, os, re, shutil, struct, subprocess, tempfile
from . import build as B, drv, tlc

def record(scripts, root, wd, mode="free", seed=1, env=None, res=None, timeout=60, cmds=None, kill=None):
    """scripts: list (one per process) of lists of driver commands (or tool command lines in cmds).
    -> (log events with 'data' resolved lazily through blob, responses per process)"""
    e = drv.env(env)
    e["VDRV_HOME"] = drv.reshome(res or {})
    if kill:
        e["VTRACE_KILL"] = "%d:%d" % tuple(kill)
    args = [B.BIN + "/vtrace", wd + "/fslog", wd + "/fsblob", root, mode, str(seed), str(timeout)]
    for i, s in enumerate(scripts):
        with open("%s/in%d" % (wd, i), "w") as f:
            f.write("".join(json.dumps(c) + "\n" for c in s))
        args += ["--", "%s/in%d" % (wd, i), "%s/out%d" % (wd, i)] + ((cmds or {}).get(i) or [B.BIN + "/vdrv"])
    r = subprocess.run(args, env=e, cwd=wd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout + 30)
    log = [json.loads(l) for l in open(wd + "/fslog")]
    blob = open(wd + "/fsblob", "rb").read()
    out = []
    for i in range(len(scripts)):
        t = open("%s/out%d" % (wd, i), errors="replace").read().split("\n")
        rs = []
        for l in t:
            if l:
                try:
                    rs.append(json.loads(l))
                except ValueError:
                    rs.append({"ok": False, "ex": "garbled", "what": l[:200]})
        out.append(rs)
    return log, blob, out, r.returncode

class Shadow:
    """In-memory file tree below the root, advanced by log operations."""
    def __init__(self):
        self.dirs, self.files = set(), {}      # path -> bytearray
        self.durable = {}                      # path -> bytes as of the last sync (absent: never synced)
    def clone(self):
        s = Shadow()
        s.dirs = set(self.dirs)
        s.files = {k: bytearray(v) for k, v in self.files.items()}
        s.durable = dict(self.durable)
        return s
    def apply(self, e, blob):
        op, f = e["op"], e.get("f")
        if op in ("creat", "trunc"):
            self.files[f] = bytearray()
        elif op == "write":
            b = self.files.setdefault(f, bytearray())
            if len(b) < e["off"]:
                b.extend(b"\0" * (e["off"] - len(b)))
            b[e["off"]:e["off"] + e["len"]] = blob[e["blob"]:e["blob"] + e["len"]]
        elif op == "sync":
            if f in self.files:
                self.durable[f] = bytes(self.files[f])
        elif op == "rename":
            if f in self.files:
                self.files[e["to"]] = self.files.pop(f)
                self.durable.pop(e["to"], None)
                if f in self.durable:
                    self.durable[e["to"]] = self.durable.pop(f)
            else:
                n = len(f)
                self.dirs = {e["to"] + d[n:] if d == f or d.startswith(f + "/") else d for d in self.dirs}
                self.files = {e["to"] + p[n:] if p.startswith(f + "/") else p: v for p, v in self.files.items()}
                self.durable = {e["to"] + p[n:] if p.startswith(f + "/") else p: v for p, v in self.durable.items()}
        elif op == "unlink":
            self.files.pop(f, None)
            self.durable.pop(f, None)
        elif op == "mkdir":
            self.dirs.add(f)
        elif op == "rmdir":
            self.dirs.discard(f)
        elif op == "ftruncate":
            b = self.files.setdefault(f, bytearray())
            n = e["len"]
            del b[n:]
            b.extend(b"\0" * (n - len(b)))
        elif op in ("link", "symlink", "unsupported", "range"):
            raise NotImplementedError(op)
    def write(self, root, power=False, keep=()):
        """materialise below root; power: files hold only what was synced (except those in keep)"""
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        for d in sorted(self.dirs):
            if d != ".":
                os.makedirs(os.path.join(root, d), exist_ok=True)
        for f, b in self.files.items():
            os.makedirs(os.path.dirname(os.path.join(root, f)), exist_ok=True)
            c = b if not power or f in keep else self.durable.get(f, b"")
            with open(os.path.join(root, f), "wb") as o:
                o.write(c)

HDR = 112

def _str(p, i):
    """string at position i of an eckit stream (tag 0x0f, 4-byte big-endian length) -> (string, next position)"""
    if i + 5 > len(p) or p[i] != 0x0f:
        return None, i
    n = struct.unpack_from(">I", p, i + 1)[0]
    if i + 5 + n > len(p):
        return None, i
    return p[i + 5:i + 5 + n].decode("latin1"), i + 5 + n

def records(data, ixkeys=()):
    """decode whole table-of-contents records -> list of dict(t, name, off, data, ik)"""
    out, p = [], 0
    while p + HDR <= len(data):
        tag = chr(data[p])
        size = struct.unpack_from("<Q", data, p + 104)[0]
        if tag not in "tics" or size < HDR or p + size > len(data):
            return out + [{"t": "TORN"}]
        pay = bytes(data[p + HDR:p + size])
        r = {"t": {"t": "INIT", "i": "IDX", "c": "CLR", "s": "SUB"}[tag]}
        if tag in "ics":
            name, i = _str(pay, 0)
            r["name"] = os.path.basename(name)
            r["off"] = struct.unpack_from(">I", pay, i + 1)[0] if i + 5 <= len(pay) and pay[i] == 0x09 else 0
        if tag == "i":
            r["data"] = sorted({os.path.basename(x.decode()) for x in re.findall(rb"[\w.:/+-]+\.data", pay)})
            r["ik"] = {}
            for k in ixkeys:
                e = b"\x0f" + struct.pack(">I", len(k)) + k.encode()
                i = pay.find(e)
                while i >= 0:
                    v, _ = _str(pay, i + len(e))
                    if v is not None:
                        r["ik"][k] = v
                        break
                    i = pay.find(e, i + 1)
        out.append(r)
        p += size
    return out + ([{"t": "TORN"}] if p != len(data) else [])

"""Driving the simulator executable: runs, results, replay files."""
import hashlib, json, os, shutil, struct, subprocess, tempfile, base64
from concurrent.futures import ThreadPoolExecutor

ALLOC, ALLOC_STICKY, FS, FS_STICKY, TORN, CON, CRASH, CRASH_TORN, CRASH_ALLOC, DISKFULL = range(1, 11)
KINDS = {0: "none", 1: "alloc_fail", 2: "alloc_fail_sticky", 3: "io_error", 4: "io_error_sticky", 5: "torn_write", 6: "console_error",
         7: "crash", 8: "crash_torn_write", 9: "crash_at_alloc", 10: "disk_full", 11: "spare"}
EINTR, EIO, ENOSPC, EACCES, EROFS, EMFILE, ENOENT, EDQUOT, ENOTDIR = 4, 5, 28, 13, 30, 24, 2, 122, 20
C_CRASH, C_STEPS, C_HEAP, C_SIMERR, C_HARNESS = 240, 241, 242, 243, 244
OPK = {1: "openr", 2: "openw", 3: "read", 4: "write", 5: "close", 6: "mkdir", 7: "opendir", 8: "stat", 9: "unlink", 10: "rename", 11: "fsync", 12: "trunc", 13: "rmdir"}


class SimError(Exception):
    """The simulator itself failed: no verdict."""


class Step:
    __slots__ = ("argv", "faults", "sheap")

    def __init__(self, argv, faults=(), sheap=None):
        self.argv, self.faults, self.sheap = list(argv), [tuple(f) for f in faults], sheap

    def js(self):
        return {"argv": self.argv, "faults": self.faults, "sheap": self.sheap}


class Run:
    def __init__(self, steps, sets=None, files=None, rofiles=None, dirs=None, dec=None, meta=None):
        self.steps, self.sets = steps, dict(sets or {})
        self.files, self.rofiles, self.dirs = dict(files or {}), dict(rofiles or {}), list(dirs or [])
        self.dec, self.meta = dec, meta or {}

    def copy(self, **kw):
        r = Run([Step(s.argv, s.faults, s.sheap) for s in self.steps], self.sets, self.files, self.rofiles, self.dirs, self.dec, dict(self.meta))
        for k, v in kw.items():
            setattr(r, k, v)
        return r

    def plan(self, rid):
        o = [b"RUN %s\n" % str(rid).encode()]
        for k, v in self.sets.items():
            o.append(b"SET %s %d\n" % (k.encode(), v))
        if self.dec is not None:
            o.append(b"DEC " + " ".join(map(str, self.dec)).encode() + b"\n")
        for d in self.dirs:
            o.append(b"DIR %s\n" % d.encode())
        for cmd, fs in ((b"FILE", self.files), (b"ROFILE", self.rofiles)):
            for p, c in fs.items():
                o.append(b"%s %d %s\n" % (cmd, len(c), p.encode()))
                o.append(c + b"\n")
        for s in self.steps:
            o.append(b"STEP " + " ".join(a or "%empty" for a in s.argv).encode() + b"\n")
            if s.sheap is not None:
                o.append(b"SHEAP %d\n" % s.sheap)
            for f in s.faults:
                o.append(b"FAULT %d %d %d\n" % f)
        o.append(b"GO\n")
        return b"".join(o)

    def js(self):
        enc = lambda fs: {p: base64.b64encode(c).decode() for p, c in fs.items()}
        return {"steps": [s.js() for s in self.steps], "sets": self.sets, "files": enc(self.files), "rofiles": enc(self.rofiles),
                "dirs": self.dirs, "dec": self.dec, "meta": self.meta}

    @staticmethod
    def from_js(j):
        dec = lambda fs: {p: base64.b64decode(c) for p, c in fs.items()}
        return Run([Step(s["argv"], s["faults"], s["sheap"]) for s in j["steps"]], j["sets"], dec(j["files"]), dec(j["rofiles"]), j["dirs"], j["dec"], j["meta"])


class VF:
    __slots__ = ("isdir", "touched", "size", "hash", "data")


class StepRes:
    def __init__(self):
        self.vfs, self.blobs = {}, {}

    @property
    def out(self):
        return self.blobs.get("out", b"")

    @property
    def err(self):
        return self.blobs.get("err", b"")

    @property
    def trace(self):
        return self.blobs.get("trace", b"").decode("latin1").split("\n")[:-1]

    def arr(self, tag):
        b = self.blobs.get(tag, b"")
        return struct.unpack("<%dI" % (len(b) // 4), b)

    def sig(self):
        if self.code == -24:  # stopped in a loop: how far it got is a matter of time
            return "no progress"
        h = hashlib.sha256()
        h.update(repr((self.code, self.alloc, self.fs, self.con, self.ops, self.events, self.ndec, self.simerr, self.fired)).encode())
        for t in ("out", "err", "trace", "dec"):
            h.update(self.blobs.get(t, b"") + b"\0")
        for p in sorted(self.vfs):
            v = self.vfs[p]
            h.update(repr((p, v.isdir, v.touched, v.size, v.hash)).encode())
        return h.hexdigest()


def parse(buf):
    pos, n = 0, len(buf)
    results, cur, st, last = {}, None, None, None
    while pos < n:
        e = buf.index(b"\n", pos)
        line = buf[pos:e].decode("latin1")
        pos = e + 1
        w = line.split(" ")
        t = w[0]
        if t == "BLOB":
            ln = int(w[2])
            data = buf[pos:pos + ln]
            pos += ln + 1
            if w[1] == "file":
                last.data = data
            else:
                st.blobs[w[1]] = data
        elif t == "VF":
            last = VF()
            last.isdir, last.touched, last.size, last.hash, last.data = int(w[1]), int(w[2]), int(w[3]), w[4], None
            st.vfs[" ".join(w[5:])] = last
        elif t == "RES":
            cur = []
            results[w[1]] = cur
        elif t == "STEPRES":
            st = StepRes()
            for kv in w[1:]:
                k, v = kv.split("=")
                setattr(st, k, int(v))
            cur.append(st)
        elif t == "FIRED":
            st.fired = {i: int(v) for i, v in enumerate(w[1:]) if int(v)}
        elif t == "DONE":
            return results
    raise SimError("simulator output truncated")


SCRATCH = None


def scratch():
    global SCRATCH
    if SCRATCH is None:
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        SCRATCH = tempfile.mkdtemp(prefix="dst-%d-" % os.getpid(), dir=base)
    return SCRATCH


def cleanup():
    global SCRATCH
    if SCRATCH:
        shutil.rmtree(SCRATCH, ignore_errors=True)
        SCRATCH = None


def exec_plan(exe, runs, timeout=600):
    """runs: list of Run; returns list of [StepRes]"""
    d = tempfile.mkdtemp(dir=scratch())
    try:
        with open(d + "/plan", "wb") as f:
            for i, r in enumerate(runs):
                f.write(r.plan(i))
        os.mkdir(d + "/cwd")
        try:
            p = subprocess.run([exe, d + "/plan", d + "/out"], cwd=d + "/cwd", env={}, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise SimError("simulator batch exceeded %d s" % timeout)
        if p.returncode != 0:
            raise SimError("simulator exit %d: %s" % (p.returncode, p.stderr[-400:]))
        if os.listdir(d + "/cwd"):
            raise SimError("code under test wrote outside the simulated disk: %s" % os.listdir(d + "/cwd")[:5])
        with open(d + "/out", "rb") as f:
            res = parse(f.read())
        return [res[str(i)] for i in range(len(runs))]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_batch(exe, runs, workers=8, chunk=None):
    if not runs:
        return []
    if chunk is None:
        chunk = max(1, min(64, (len(runs) + workers - 1) // workers))
    parts = [runs[i:i + chunk] for i in range(0, len(runs), chunk)]
    with ThreadPoolExecutor(workers) as ex:
        out = []
        for r in ex.map(lambda p: exec_plan(exe, p), parts):
            out.extend(r)
    return out

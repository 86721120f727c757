"""Builds the simulated executables from /repo's current working tree."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")
BUILD = os.environ.get("DST_BUILD", os.path.join(VERIF, "build"))
CC = "/usr/bin/gcc"
ENV = {"PATH": "/usr/local/bin:/usr/bin:/bin", "LC_ALL": "C", "HOME": "/tmp"}
CFLAGS = ["-O2", "-g1", "-DNDEBUG", "-w", "-fno-omit-frame-pointer", "-fno-optimize-sibling-calls", "-fno-pie"]
COV = ["-fsanitize-coverage=trace-pc"] if os.environ.get("DST_COV") else []
if COV:
    CFLAGS = [f for f in CFLAGS if f != "-O2"] + ["-O0"]
# inlining makes stack use depend on the optimiser; nothing here reads it
LDFLAGS = ["-no-pie", "-Wl,--wrap=fdopen", "-Wl,--wrap=fileno", "-Wl,--wrap=regcomp", "-Wl,--wrap=regexec", "-lm"]
NCPU = os.cpu_count() or 4


class BuildError(Exception):
    pass


def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode("utf8", "replace")[-6000:]))
    return p.stdout


def cmake_sources():
    """The list cocogen's CMakeLists.txt builds: literal files plus its globs."""
    txt = open(REPO + "/cocogen/CMakeLists.txt").read()
    m = re.search(r"add_executable\(cocogen(.*?)\)", txt, re.S)
    srcs = [w for w in m.group(1).split() if w.endswith(".c")]
    out = [os.path.join(REPO, "cocogen", s) for s in srcs]
    out += sorted(glob.glob(REPO + "/cocogen/ccngen/*.c"))
    out += copra_sources()
    return out


def copra_sources():
    return sorted(glob.glob(REPO + "/copra/src/*.c"))


def palm_sources():
    txt = open(REPO + "/palm/src/CMakeLists.txt").read()
    return [os.path.join(REPO, "palm/src", w) for w in re.findall(r"[\w./-]+\.c\b", txt)]


def tree_hash(dirs, exts=(".c", ".h", ".y", ".l", ".txt", ".ccn")):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ("tests", "_build", ".git", "__pycache__"))
            for f in sorted(fs):
                if f.endswith(exts):
                    p = os.path.join(root, f)
                    h.update(p.encode() + b"\0")
                    h.update(open(p, "rb").read())
                    h.update(b"\0")
    return h.hexdigest()[:24]


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def compile_many(jobs):
    """jobs: list of (cmd list)"""
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(run, jobs))


def base_objects():
    """palm + copra + simulator objects, compiled once; returns (dir, objs)"""
    key = "base-" + tree_hash([REPO + "/palm", REPO + "/copra", VERIF + "/sim"]) + hashlib.sha256(repr(CFLAGS).encode()).hexdigest()[:6]
    d = os.path.join(BUILD, key)
    with Lock("base"):
        if not os.path.exists(d + "/ok"):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            jobs = []
            for s in palm_sources():
                jobs.append([CC, *CFLAGS, *COV, "-I" + REPO + "/palm/include", "-c", s, "-o", "%s/palm_%s.o" % (d, os.path.basename(s)[:-2])])
            jobs.append([CC, *CFLAGS, "-fno-stack-protector", "-U_FORTIFY_SOURCE", "-fno-builtin-malloc", "-fno-builtin-calloc", *(["-DSIM_COV"] if COV else []), "-c", VERIF + "/sim/sim.c", "-o", d + "/sim.o"])
            compile_many(jobs)
            open(d + "/ok", "w").close()
    palm = sorted(glob.glob(d + "/palm_*.o"))
    return d, palm, d + "/sim.o"


def generator(name="gen", main="gen_main.c"):
    """The real generator linked against the simulator."""
    key = name + "-" + tree_hash([REPO + "/cocogen", REPO + "/palm", REPO + "/copra", VERIF + "/sim"]) + hashlib.sha256(repr(CFLAGS).encode()).hexdigest()[:6]
    d = os.path.join(BUILD, key)
    with Lock("gen"):
        if not os.path.exists(d + "/ok"):
            prune()
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            sp = REPO + "/cocogen/frontend/scanAndParse/"
            run(["/usr/bin/bison", "-d", "-o", d + "/dsl-parser.c", sp + "dsl-parser.y"])
            run(["/usr/bin/flex", "-o", d + "/dsl-tokens.c", "--header-file=" + d + "/dsl-lexer.h", sp + "dsl-lexer.l"])
            inc = ["-I" + d, "-I" + REPO + "/cocogen/ccngen", "-I" + REPO + "/cocogen", "-I" + REPO + "/copra", "-I" + REPO + "/palm/include", "-I" + VERIF + "/sim"]
            jobs, objs = [], []
            for i, s in enumerate(cmake_sources() + [d + "/dsl-parser.c", d + "/dsl-tokens.c", VERIF + "/sim/" + main]):
                o = "%s/%03d_%s.o" % (d, i, os.path.basename(s)[:-2])
                extra = ["-Dmain=cocogen_main"] if s == REPO + "/cocogen/main.c" else []
                jobs.append([CC, *CFLAGS, *COV, *extra, *inc, "-c", s, "-o", o])
                objs.append(o)
            compile_many(jobs)
            _, palm, sim = base_objects()
            run([CC, "-o", d + "/exe", *objs, *palm, sim, *LDFLAGS])
            check_imports(d + "/exe")
            for o in objs:
                os.unlink(o)
            open(d + "/ok", "w").close()
    return d + "/exe"


def harness(name, *mains):
    """a workload that calls palm only"""
    base, palm, sim = base_objects()
    exe = os.path.join(base, name)
    with Lock("harness"):
        if not os.path.exists(exe):
            run([CC, *CFLAGS, "-I" + REPO + "/palm/include", "-I" + VERIF + "/sim", "-o", exe + ".tmp", *[VERIF + "/sim/" + m for m in mains], *palm, sim, *LDFLAGS])
            check_imports(exe + ".tmp")
            os.rename(exe + ".tmp", exe)
    return exe


# libc functions that reach the outside world without passing the simulator
DENY = set("""vfork clone execve execl execlp execle posix_spawn posix_spawnp socket connect bind listen accept sendto
 pthread_create tempnam mktemp futimens mmap64 shm_open kill alarm setitimer timer_create select poll epoll_wait sendfile
 mknod mkfifo chown chroot setuid symlinkat statx scandir nftw ftw glob wordexp dup dup2 dup3 pipe ioctl""".split())


def check_imports(exe):
    syms = run(["/usr/bin/nm", "-D", "--undefined-only", exe]).decode()
    names = {l.split()[-1].split("@")[0] for l in syms.splitlines() if l.strip()}
    bad = (names & DENY)
    if bad:
        raise BuildError("code under test imports functions the simulator does not control: " + " ".join(sorted(bad)))


def prune(limit=1500 << 20):
    """keep the cache bounded"""
    try:
        ents = [(os.path.getmtime(p), p) for p in glob.glob(BUILD + "/*-*") if os.path.isdir(p)]
    except OSError:
        return
    ents.sort()
    def size(p):
        t = 0
        for r, _, fs in os.walk(p):
            for f in fs:
                try:
                    t += os.path.getsize(os.path.join(r, f))
                except OSError:
                    pass
        return t
    sizes = [(p, size(p)) for _, p in ents]
    total = sum(s for _, s in sizes)
    for p, s in sizes:
        if total <= limit:
            break
        shutil.rmtree(p, ignore_errors=True)
        total -= s


if __name__ == "__main__":
    print(generator())

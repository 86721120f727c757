"""The generator built in other ways: with its assertions, and from the sources it generates of its own specification (main.ccn).

All builds are linked into one simulated executable (argv[0] selects one), so that a case can compare them under one plan."""
import glob, hashlib, os, shutil
import build, core, genk, simrun
from build import REPO, VERIF, CC, CFLAGS, COV, LDFLAGS, BUILD, run

DEBUG = [f for f in CFLAGS if f not in ("-DNDEBUG", "-O2")] + ["-O1", "-fsanitize=undefined", "-fno-sanitize=alignment", "-fsanitize-undefined-trap-on-error"]
FLAVOURS = ["cocogen", "debug", "self", "selfdebug"]
MAIN = """#include <string.h>
#include "sim.h"
int cocogen_main_cocogen(int, char **); int cocogen_main_debug(int, char **); int cocogen_main_self(int, char **); int cocogen_main_selfdebug(int, char **);
int sim_target_main(int argc, char **argv) {
    static char name[] = "cocogen";
    char *as = argv[0];
    argv[0] = name;
    if (!strcmp(as, "debug")) return cocogen_main_debug(argc, argv);
    if (!strcmp(as, "self")) return cocogen_main_self(argc, argv);
    if (!strcmp(as, "selfdebug")) return cocogen_main_selfdebug(argc, argv);
    return cocogen_main_cocogen(argc, argv);
}
"""


def own_sources(d):
    """what the generator makes of its own specification; None or the reason why nothing"""
    gen = build.generator()
    t = open(REPO + "/cocogen/main.ccn", "rb").read()
    r = simrun.exec_plan(gen, [simrun.Run([simrun.Step(["cocogen", "--gen-dir", "g/", "main.ccn"])], {"seed": 1, "heap_seed": 1, "heap_fill": 257, "dumpfiles": 1}, {"main.ccn": t})])[0][-1]
    if r.code != 0:
        return "the generator exits %d on its own specification: %s" % (r.code, r.err.decode("latin1")[-200:])
    for p, v in r.vfs.items():
        if v.isdir or not p.startswith("g/") or "/user/" in p or not p.endswith((".c", ".h")):
            continue
        q = os.path.join(d, p[2:])
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, "wb") as f:
            f.write(v.data)
    return None


def twin():
    """the executable, or core.NoExe"""
    key = "twin-" + build.tree_hash([REPO + "/cocogen", REPO + "/palm", REPO + "/copra", VERIF + "/sim"]) + hashlib.sha256((repr(DEBUG) + repr(CFLAGS) + open(os.path.abspath(__file__)).read()).encode()).hexdigest()[:6]
    d = os.path.join(BUILD, key)
    with build.Lock("twin"):
        if os.path.exists(d + "/failed"):
            return core.NoExe(*open(d + "/failed").read().split("\n", 1))
        if os.path.exists(d + "/ok"):
            return d + "/exe"
        build.prune()
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        sp = REPO + "/cocogen/frontend/scanAndParse/"
        run(["/usr/bin/bison", "-d", "-o", d + "/dsl-parser.c", sp + "dsl-parser.y"])
        run(["/usr/bin/flex", "-o", d + "/dsl-tokens.c", "--header-file=" + d + "/dsl-lexer.h", sp + "dsl-lexer.l"])
        _, _, sim = build.base_objects()
        bad = own_sources(d + "/own")
        if bad:
            return failed(d, "selfhost", bad)
        hand = [s for s in build.cmake_sources() if not s.startswith((REPO + "/cocogen/ccngen/"))] + [d + "/dsl-parser.c", d + "/dsl-tokens.c"] + build.palm_sources()
        for self in (False, True):
            ccn = d + "/own" if self else REPO + "/cocogen/ccngen"
            srcs = hand + sorted(glob.glob(ccn + "/*.c"))
            inc = ["-I" + d, "-I" + ccn, "-I" + REPO + "/cocogen", "-I" + REPO + "/copra", "-I" + REPO + "/palm/include"]
            for debug in (False, True):
                name = ("self" if self else "") + ("debug" if debug else "") or "cocogen"
                jobs, objs = [], []
                for i, s in enumerate(srcs):
                    o = "%s/%s_%03d.o" % (d, name, i)
                    extra = ["-Dmain=cocogen_main_" + name] if s == REPO + "/cocogen/main.c" else []
                    jobs.append([CC, *(DEBUG if debug else CFLAGS), *COV, *extra, *inc, "-c", s, "-o", o])
                    objs.append(o)
                try:
                    build.compile_many(jobs)
                    run(["/usr/bin/ld", "-r", "-o", "%s/%s.o" % (d, name), *objs])
                    run(["/usr/bin/objcopy", "--keep-global-symbol=cocogen_main_" + name, "%s/%s.o" % (d, name)])
                except build.BuildError as e:
                    if not self:
                        raise
                    import re
                    m = str(e).splitlines()
                    return failed(d, "selfhost", "the generator does not build from the sources it generates of its own specification: " + re.sub(r"\S*/own/", "", "; ".join([l for l in m if "error" in l][:2]) or m[-1][-200:]))
                for o in objs:
                    os.unlink(o)
        with open(d + "/main.c", "w") as f:
            f.write(MAIN)
        run([CC, *CFLAGS, "-I" + VERIF + "/sim", "-c", d + "/main.c", "-o", d + "/main.o"])
        try:
            run([CC, "-o", d + "/exe", d + "/main.o", *["%s/%s.o" % (d, n) for n in FLAVOURS], sim, *LDFLAGS])
        except build.BuildError as e:
            und = [l for l in str(e).splitlines() if "undefined" in l]
            if not any("self" in l for l in und):
                raise
            return failed(d, "selfhost", "the generator does not link with the sources it generates of its own specification: " + "; ".join(l.split(": ", 1)[-1] for l in und[:2]))
        build.check_imports(d + "/exe")
        for n in FLAVOURS:
            os.unlink("%s/%s.o" % (d, n))
        open(d + "/ok", "w").close()
        return d + "/exe"


def failed(d, rule, why):
    with open(d + "/failed", "w") as f:
        f.write(rule + "\n" + why)
    return core.NoExe(rule, why)


@core.kind
class Twin(genk.Gen):
    name = "twin"

    def exe(self, case):
        return twin()

    def runs(self, case):
        out = []
        for v in case["variants"]:
            for name in ("cocogen", v["as"]):
                r = self.mk(case, v)
                r.sets["dumpfiles"] = 1
                for s in r.steps:
                    s.argv = [name] + s.argv[1:]
                out.append(r)
        return out

    def judge(self, case, res):
        if isinstance(res, core.NoExe):
            return [(res.rule, res.detail)]
        for k, v in enumerate(case["variants"]):
            for i, (a, b) in enumerate(zip(res[2 * k], res[2 * k + 1])):
                fs = v["steps"][i].get("faults", [])
                what = "%s build%s" % (v["as"], " under [%s]" % genk.fault_text(fs) if fs else "")
                if genk.bad_end(a, ""):
                    break  # P02, P03, P19
                bad = genk.bad_end(b, what)
                if bad:
                    return bad
                if any(f[0] in genk.ALLOCS for f in fs):
                    # the builds may allocate differently
                    bad = genk.no_message(b, what)
                    if bad:
                        return bad
                    break
                con = any(f[0] == simrun.CON for f in fs)
                d = self.differ(a, b, "debug" in v["as"], con)
                if d:
                    return [("build_dependent", "%s: %s" % (what, d))]
        return []

    def differ(self, a, b, debug, con):
        if debug and con and a.code != b.code:
            return None  # a debug build says more, so another of its messages meets the error
        if a.code != b.code:
            return "exit %d instead of %d: %s" % (b.code, a.code, b.err[-200:].decode("latin1"))
        for what, x, y in (("diagnostics", a.err, b.err), ("output", a.out, b.out)):
            if debug:
                # a debug build may say more; what a crash left unflushed differs then
                bad = None if con or a.code == simrun.C_CRASH else missing(x, y)
                if bad is not None:
                    return "the %s lacks %r" % (what, bad)
            elif x != y:
                return "the %s differs: %s" % (what, first_diff(x, y))
        for p in sorted(set(a.vfs) | set(b.vfs)):
            if p not in a.vfs or p not in b.vfs:
                return "%s %s" % (p, "is missing" if p in a.vfs else "is an extra file")
            if not genk.is_dot(p) and a.vfs[p].data != b.vfs[p].data:
                return "%s differs: %s" % (p, first_diff(a.vfs[p].data or b"", b.vfs[p].data or b""))
        return None

    def shrinks(self, case, execute):
        vs = case["variants"]
        if len(vs) > 1:
            for v in vs:
                yield {**case, "variants": [v]}
            return
        v = vs[0]
        if "files" in v or "dirs" in v:
            yield {**case, "variants": [{k: x for k, x in v.items() if k not in ("files", "dirs")}]}
        for i, s in enumerate(v["steps"]):
            if s.get("faults"):
                yield {**case, "variants": [{**v, "steps": v["steps"][:i] + [{**s, "faults": []}] + v["steps"][i + 1:]}]}
        if len(v["steps"]) > 1:
            yield {**case, "variants": [{**v, "steps": v["steps"][-1:]}]}
        simple = {"heap_mode": 0, "heap_reuse": 0, "heap_fill": 257}
        if any(case["sets"].get(k) != x for k, x in simple.items()):
            yield {**case, "sets": {**{a: b for a, b in case["sets"].items() if a not in ("readchunk", "shortwrite")}, **simple}}
        for t in genk.shrink_text(case["spec"]):
            yield {**case, "spec": t}


def missing(x, y):
    """the first line of x that is not in y, in order, or None"""
    it = iter(y.split(b"\n"))
    for l in x.split(b"\n"):
        if l.strip() and not any(l == m or m.endswith(l) for m in it):
            return l[:90]
    return None


def first_diff(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    j = a.rfind(b"\n", 0, i) + 1
    return "%r instead of %r" % (b[j:j + 90], a[j:j + 90])


def campaign(ctx, n, nvar):
    import invalid, specgen
    rng = ctx.rng("twin")
    names = genk.phases_of_cocogen()
    fx = genk.fixture_texts()
    B = 48
    for b in range(0, n, B):
        cases = []
        for i in range(b, min(n, b + B)):
            s = rng.randrange(1 << 40)
            ctx.seeds.append(s)
            o = genk.spec_opts(ctx.rng("o", s))
            r = rng.random()
            op = "valid"
            if i < len(fx):
                t, op = fx[-1 - i], "own"
            elif r < 0.6:
                t = specgen.gen_spec(s, **o).text()
            elif r < 0.9:
                g = invalid.gen(s, None, o)
                if not g:
                    continue
                op, t = "invalid", g[1]
            else:
                op, t = "damaged", genk.mangle(rng, specgen.gen_spec(s, **o).text())
            ctx.stats["input_" + op] += 1
            cases.append({"kind": "twin", "mode": "P28", "spec": t, "sets": genk.rand_sets(rng), "seed": s, "variants": []})
        profs = genk.profile(ctx, [c["spec"] for c in cases], [c["sets"] for c in cases])
        for c, st in zip(cases, profs):
            for k in range(nvar):
                v = {"as": FLAVOURS[1 + k % 3], "sets": genk.rand_sets(rng), "steps": [{"argv": rng.choice([genk.SHOW, genk.SHOW, genk.ARGV, genk.VERB])}]}
                r = rng.random()
                if r < 0.25 and st.fs:
                    v["steps"][0]["faults"] = [genk.io_fault(rng, st, rng.randrange(1, st.fs + 1))]
                elif r < 0.3:
                    v["steps"][0]["faults"] = [[simrun.CON, 1, simrun.EIO]]
                elif r < 0.36 and st.alloc:
                    v["steps"][0]["faults"] = [[rng.choice([simrun.ALLOC, simrun.ALLOC_STICKY]), rng.randrange(1, st.alloc + 1), 0]]
                elif r < 0.5 and st.code == 0:
                    f = genk.crash_fault(rng, st)
                    if f[0] not in genk.ALLOCS:
                        v["steps"] = [{"faults": [f]}] + v["steps"]
                elif r < 0.6:
                    v["files"], v["dirs"] = genk.dirty_dir(rng, c["spec"])
                elif r < 0.75:
                    v["steps"] = [{"argv": genk.cli(rng, names)}]
                    v["dirs"] = ["d"]
                ctx.seen("environments", (genk.hash_t(c["spec"]), repr(v)))
                ctx.stats["as_" + v["as"]] += 1
                c["variants"].append(v)
            genk.sample(ctx, c["spec"], c["variants"])
        ctx.run(cases)
        if ctx.done() or ctx.out_of_time():
            break

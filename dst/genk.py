"""The generator under simulation: cases, fault placement, oracles (P01-P07)."""
import os, random, re
import build, cmdline, core, describe, simrun, specgen
from simrun import *

ALLOCS = (ALLOC, ALLOC_STICKY, CRASH_ALLOC)
ARGV = ["cocogen", "--gen-dir", "g/", "m.ccn"]
SHOW = ["cocogen", "--show-ast", "--gen-dir", "g/", "m.ccn"]
WR_ERRNO = {"openw": [EACCES, EMFILE, ENOSPC, EROFS, EIO], "openr": [EACCES, EMFILE, EIO], "write": [ENOSPC, EIO, EDQUOT], "close": [EIO, ENOSPC],
            "mkdir": [EACCES, ENOSPC, EROFS], "read": [EIO], "opendir": [EACCES, EMFILE], "stat": [EACCES, EIO], "unlink": [EACCES], "rename": [EACCES, ENOSPC, EIO],
            "fsync": [EIO, ENOSPC], "trunc": [EIO], "rmdir": [EACCES]}
HEAPS = [dict(heap_mode=0, heap_reuse=0, heap_fill=257), dict(heap_mode=0, heap_reuse=90, heap_fill=0xAA), dict(heap_mode=2, heap_reuse=50, heap_fill=256),
         dict(heap_mode=1, heap_reuse=0, heap_fill=0xFF), dict(heap_mode=2, heap_reuse=0, heap_fill=0xDD), dict(heap_mode=1, heap_reuse=70, heap_fill=256)]


def rand_sets(rng, io=True):
    s = {"seed": rng.randrange(1 << 40), "heap_seed": rng.randrange(1 << 40), **rng.choice(HEAPS)}
    if io and rng.random() < 0.4:
        s["readchunk"] = rng.choice([1, 3, 17, 64, 511])
    if io and rng.random() < 0.4:
        s["shortwrite"] = rng.choice([1, 7, 100, 1000])
    return s


def is_dot(p):
    return "/ag_dot/" in p or p.startswith("ag_dot/")


def out_files(st, pfx="g/"):
    return {p: v for p, v in st.vfs.items() if not v.isdir and p.startswith(pfx)}


def diff_output(base, got):
    """first difference between two directories of generated files, or None"""
    for p, v in base.items():
        w = got.get(p)
        if w is None:
            return "%s is missing" % p
        if v.size != w.size:
            return "%s has %d bytes instead of %d" % (p, w.size, v.size)
        if v.hash != w.hash and not is_dot(p):
            return "%s has different contents" % p
    return None


ALWAYS = ["g/" + f for f in "action_handling.c ag.c ast.c ccn_check.c ccn_copy.c ccn_free.c trav.c trav_data.c visit.c vtables.c user/passes.c ccngen/action_handling.h ccngen/actions.h ccngen/ag.h ccngen/ast.h ccngen/ccn_defs.h ccngen/enum.h ccngen/equation.h ccngen/gate.h ccngen/trav.h ccngen/trav_data.h ccngen/visit.h".split()]
TOKEN = re.compile(r'/\*.*?\*/|//[^\n]*|"(?:[^"\\\n]|\\.)*"|\'(?:[^\'\\\n]|\\.)*\'', re.S)
PAIR = {")": "(", "}": "{", "]": "["}


def cut_off(fs):
    """a generated source that is missing or ends before its end, or None"""
    for p in ALWAYS:
        if p not in fs:
            return "%s is missing" % p
    for p, v in sorted(fs.items()):
        if not p.endswith((".c", ".h")) or v.data is None:
            continue
        t = TOKEN.sub("", v.data.decode("latin1"))
        st = []
        for ch in re.sub(r"[^(){}\[\]]", "", t):
            if ch in "({[":
                st.append(ch)
            elif not st or st.pop() != PAIR[ch]:
                return "%s has an unmatched %s" % (p, ch)
        if st or "/*" in t or t.count('"') % 2:
            return "%s ends within a construct" % p
        if t and not t.endswith("\n"):
            return "%s does not end with a complete line" % p
        if len(re.findall(r"^#if", t, re.M)) != len(re.findall(r"^#endif", t, re.M)):
            return "%s has an open #if" % p
        for i in re.findall(r'^#include "(ccngen/[^"]*)"', v.data.decode("latin1"), re.M):
            if "g/" + i not in fs:
                return "%s includes %s, which is missing" % (p, i)
    return None


def bad_end(st, what):
    """violations of an orderly end: no signal, no hang, no memory misuse"""
    c = st.code
    if c == C_HEAP:
        msg = next((l for l in reversed(st.trace) if l.startswith("SIMFAIL")), "heap misuse")
        return [("memory", "%s: %s" % (what, re.sub(r"seq=\d+", "seq", msg)))]
    if c == C_STEPS or c == -24:
        return [("hang", "%s: no progress within the step bound" % what)]
    if c < 0:
        return [("signal", "%s: killed by signal %d" % (what, -c))]
    return []


def no_message(st, what):
    if st.code > 0 and st.code not in (C_CRASH,) and not st.err.strip():
        return [("silent", "%s: exit %d without any message on stderr" % (what, st.code))]
    return []


def fault_text(fs):
    return ", ".join("%s@%d%s" % (KINDS[k], i, (" errno %d" % a) if a and k in (FS, FS_STICKY, TORN, CON) else "") for k, i, a in fs) or "no fault"


@core.kind
class Gen(core.Kind):
    name = "gen"

    def exe(self, case):
        return build.generator()

    def mk(self, case, v):
        sets = {**case["sets"], **v.get("sets", {})}
        if case["mode"] in ("P26", "P27"):
            sets["dumpfiles"] = 1
        files = {"m.ccn": case["spec"].encode("latin1")}
        for p, t in v.get("files", {}).items():
            files[p] = t.encode("latin1")
        ro = {p: t.encode("latin1") for p, t in v.get("ro", {}).items()}
        if v.get("nospec"):
            del files["m.ccn"]
        steps = [Step(s.get("argv", case.get("argv", ARGV)), [tuple(f) for f in s.get("faults", [])], s.get("sheap")) for s in v.get("steps", [{}])]
        return Run(steps, sets, files, ro, v.get("dirs", []))

    def runs(self, case):
        base = self.mk(case, {})
        if case["mode"] == "P01":
            base.sets["dumpfiles"] = 1
        return [base] + [self.mk(case, v) for v in case["variants"]]

    def judge(self, case, res):
        base = res[0][0]
        mode = case["mode"]
        out = []
        if mode in ("P06",):
            for v, r in zip(case["variants"], res[1:]):
                out += self.judge_invalid(case, v, r)
            return out
        if mode == "P26":
            sp = rtgen_spec(case)
            for v, r in zip([{}] + case["variants"], res):
                for s, st in zip(v.get("steps", [{}]), r):
                    out = out or self.j_P26(sp, s.get("argv", ARGV), st)
            return out
        if mode == "P19":
            for v, r in zip([{}] + case["variants"], res):
                out += self.j_P19(case, v, r, None, None)
            return out
        if base.code != 0:
            return []  # P19 reports it
        exp = out_files(base)
        if mode == "P01":
            c = cut_off(exp)
            if c:
                return [("success_incomplete", "exit 0 without any fault but %s" % c)]
        for v, r in zip(case["variants"], res[1:]):
            out += getattr(self, "j_" + mode)(case, v, r, base, exp)
        return out

    # success means complete output
    def j_P01(self, case, v, r, base, exp):
        st = r[-1]
        if st.code == 0:
            d = diff_output(exp, out_files(st))
            if d:
                return [("success_incomplete", "exit 0 under [%s] but %s" % (fault_text(v["steps"][-1].get("faults", [])), d))]
        return []

    # failure is orderly
    def j_P02(self, case, v, r, base, exp):
        st = r[-1]
        w = "under [%s]" % fault_text(v["steps"][-1].get("faults", []))
        return bad_end(st, w) or no_message(st, w)

    def j_P03(self, case, v, r, base, exp):
        return self.j_P02(case, v, r, base, exp) or self.j_P01(case, v, r, base, exp)

    # crash, then run again
    def j_P04(self, case, v, r, base, exp):
        for st in r[:-1]:
            if st.code != C_CRASH and st.code != 0:
                b = bad_end(st, "before the crash")
                if b:
                    return b
        st = r[-1]
        w = "rerun after [%s]" % "; ".join(fault_text(s.get("faults", [])) for s in v["steps"][:-1])
        if st.code != 0:
            return bad_end(st, w) or [("no_heal", "%s: exit %d: %s" % (w, st.code, st.err[:200].decode("latin1")))]
        d = diff_output(exp, out_files(st))
        return [("no_heal", "%s: %s" % (w, d))] if d else []

    # same input, different environment
    def j_P05(self, case, v, r, base, exp):
        st = r[-1]
        if st.code != 0:
            return bad_end(st, "in another environment") or [("env_dependent", "exit %d instead of 0: %s" % (st.code, st.err[:200].decode("latin1")))]
        got = out_files(st)
        d = diff_output(exp, got)
        if not d and not v.get("files"):
            extra = sorted(set(got) - set(exp))
            if extra:
                d = "extra file %s" % extra[0]
        if d:
            return [("env_dependent", d)]
        if st.err != base.err:
            return [("env_dependent", "diagnostics differ: %r instead of %r" % (st.err[:120], base.err[:120]))]
        return []

    # nothing outside the output directory, and everything in it
    def j_P07(self, case, v, r, base, exp):
        pre = self.mk(case, v).files
        out = v.get("out", "g")
        made = {p[2:] for p in base.vfs if p.startswith("g/")}

        def inside(p):
            if out == ".":
                return p in made
            return p == out or p.startswith(out + "/")
        for si, st in enumerate(r):
            for p, f in st.vfs.items():
                if f.touched and not inside(p):
                    return [("outside", "%s changed under [%s]" % (p, fault_text(v["steps"][si].get("faults", []))))]
            for p in pre:
                if p not in st.vfs and not inside(p):
                    return [("outside", "%s removed" % p)]
            for l in st.trace:
                if l.startswith("REMOVE ") and not inside(l[7:]):
                    return [("outside", l)]
        st = r[-1]
        if not v["steps"][-1].get("faults"):
            if st.code != 0:
                return bad_end(st, "output directory %s" % out) or [("outside", "output directory %s: exit %d: %s" % (out, st.code, st.err[:200].decode("latin1")))]
            pfx = "" if out == "." else out + "/"
            d = diff_output(exp, {"g/" + p[len(pfx):]: x for p, x in out_files(st, pfx).items()})
            if d:
                return [("outside", "output directory %s: %s" % (out, d))]
        return []

    def judge_reject(self, case, base):
        return [("rejected", "valid specification: exit %d: %s" % (base.code, base.err[:300].decode("latin1")))]

    # invalid input
    def judge_invalid(self, case, v, r):
        st = r[-1]
        w = "%s under [%s]" % (case.get("op", "?"), fault_text(v["steps"][-1].get("faults", [])))
        out = []
        if st.code == 0:
            out.append(("accepted", "%s: exit 0" % w))
        out += bad_end(st, w) or no_message(st, w)
        pre = {**v.get("files", {}), **v.get("ro", {})}
        for p, f in st.vfs.items():
            if f.isdir or not f.touched:
                continue
            if p.startswith("g/") and not p.startswith(("g/log/", "g/ag_dot/")):
                out.append(("wrote", "%s: %s was %s" % (w, p, "changed" if p in pre else "created")))
                break
            if not p.startswith("g/"):
                out.append(("outside", "%s: %s changed" % (w, p)))
                break
        return out[:1]

    def j_P19(self, case, v, r, base, exp):
        out = []
        for st in r:
            out = out or (self.j_cli(v, st) if v.get("cli") else self.j_any(case, st))
        return out

    def j_P26(self, sp, argv, st):
        if st.code != 0:
            return []
        f = st.vfs.get("g/ast.dot")
        if f is None or f.data is None:
            return [("described", "the diagram of the tree is missing")]
        w = describe.diagram(sp, f.data.decode("latin1"))
        if not w and not st.fired and "--show-ast" in argv:
            o = st.out.decode("latin1")
            w = describe.listing(sp, o)
            if not w and specgen.aligned(sp):
                w = describe.visits(sp, o)
                w = w and "listing: " + w
        if not w:
            f = st.vfs.get("g/ag_dot/partitioned.dot")
            w = "the graph of the partitions is missing" if f is None or f.data is None else describe.graph(sp, f.data.decode("latin1"))
        return [("described", w)] if w else []

    # the command line
    def j_P27(self, case, v, r, base, exp):
        a = v["steps"][-1]["argv"][1:]
        st, w = r[-1], "arguments " + " ".join(repr(x) for x in a)
        if st.fired:
            w += " under [%s]" % fault_text(v["steps"][-1].get("faults", []))
        bad = lambda t: [("command_line", "%s: %s" % (w, t))]
        what, o = cmdline.parse(a)
        b = bad_end(st, w)
        if b:
            return b
        if st.fired and st.code:
            return [] if st.err.strip() or st.out.strip() else [("silent", "%s: exit %d without any message" % (w, st.code))]
        touched = [p for p, f in st.vfs.items() if f.touched]
        text = st.out.decode("latin1")
        if what != "run":
            if st.code != (what in ("usage", "value")):
                return bad("exit %d" % st.code)
            if touched:
                return bad("%s is touched" % touched[0])
            mark = {"usage": "Usage:", "help": "Usage:", "version": "cocogen ", "value": "CLI: "}.get(what, "")
            if not st.fired and mark not in text:
                return bad("nothing is said about it")
            if what == "structure" and not st.fired:
                have = [l.split(": ")[1] for l in text.split("\n") if ": " in l]
                for l in cmdline.announced(base.err.decode("latin1"))[1:]:
                    if not l.startswith("<< ") and l.split(" ")[-1] not in have:
                        return bad("%s is not shown" % l.split(" ")[-1])
            return []
        pfx = os.path.normpath(o.get("gen-dir", "ccngen/")) + "/"
        for p in touched:
            if p != pfx[:-1] and not p.startswith(pfx):
                return bad("%s is touched" % p)
        if o["input"] not in ("m.ccn", "./m.ccn"):
            if st.code == 0:
                return bad("exit 0 without input")
            c = [p for p in touched if p.endswith((".c", ".h"))]
            return bad("%s is generated without input" % c[0]) if c else []
        got = {"g/" + p[len(pfx):]: x for p, x in out_files(st, pfx).items()}
        few = o.get("ag-scheduler-max-iter") is not None and not 1000 <= int(re.match(r"\s*([+-]?\d+)", o["ag-scheduler-max-iter"]).group(1)) < 1 << 63
        if few and st.code:
            c = [p for p in got if p.endswith((".c", ".h"))]
            return no_message(st, w) or (bad("refused, but %s is generated" % c[0]) if c else [])
        if st.code:
            return bad("exit %d: %s" % (st.code, st.err[-200:].decode("latin1")))
        if o.get("backend") in ("static", "typed"):
            return []
        says, all_ = cmdline.announced(st.err.decode("latin1")), cmdline.announced(base.err.decode("latin1"))
        n = cmdline.stop(all_, o.get("breakpoint"))
        want = all_ if n is None else all_[:n]
        if st.fired.get(CON):
            says = want if "verbose" in o else []
            text = None
        if says != (want if "verbose" in o else []):
            d = [i for i, (x, y) in enumerate(zip(says + [""], want + [""])) if x != y]
            return bad("actions are not announced" if "verbose" in o and not says else "actions are announced" if "verbose" not in o else "announces %r after %d actions instead of %r" % ((says + ["the end"])[d[0]], d[0], (want + ["the end"])[d[0]]))
        if text is not None and (re.search("^Phase ", text, re.M) is not None) != ("show-ast" in o):
            return bad("the listing is %s" % ("missing" if "show-ast" in o else "shown"))
        if n is None:
            d = diff_output(exp, got)
            return bad(d) if d else []
        # stopped at a breakpoint: what is there is what the full run writes
        early = "  *** genDot" in all_ and not any(l.startswith("  *** ") for l in want[want.index(">> dynamicBackend"):]) if ">> dynamicBackend" in want else True
        for p, f in got.items():
            if not f.touched:
                continue
            e = exp.get(p)
            if e is None:
                return bad("%s is generated" % p)
            if early and p.endswith((".c", ".h")):
                return bad("%s is generated before the breakpoint" % p)
            if not is_dot(p) and f.data is not None and e.data is not None and not e.data.startswith(f.data):
                return bad("%s has other contents" % p)
        if n >= len(all_) - 1:
            d = diff_output(exp, got)
            if d:
                return bad(d)
        return []

    def j_cli(self, v, st):
        """an arbitrary command line: an orderly end, and never a silent failure"""
        w = "arguments " + " ".join(repr(a) for a in v["steps"][0]["argv"][1:])
        b = bad_end(st, w)
        if b:
            return b
        if st.code not in (0, 1, 2):
            return [("exit_code", "%s: exit %d" % (w, st.code))]
        if st.code and not st.err.strip() and not st.out.strip():
            return [("silent", "%s: exit %d without any message" % (w, st.code))]
        return []

    def j_any(self, case, st):
        b = bad_end(st, case.get("op", "valid specification")) or no_message(st, case.get("op", "valid specification"))
        if b:
            return b
        if st.code not in (0, 1):
            return [("exit_code", "%s: exit %d: %s" % (case.get("op", "valid specification"), st.code, st.err[-200:].decode("latin1")))]
        if case.get("valid") == "must" and st.code != 0:
            return self.judge_reject(case, st)
        # an attribute grammar may be refused, but only as circular
        if case.get("valid") == "ag" and st.code != 0 and b"oop" not in st.err:
            return self.judge_reject(case, st)
        return []

    def cover(self, ctx, case, res):
        for r in res:
            for s in r:
                ctx.stats["exit_%s" % ("ok" if s.code == 0 else "crash" if s.code == C_CRASH else "fail" if 0 < s.code < 240 else "bad")] += 1

    # -- minimisation
    def shrinks(self, case, execute):
        vs = case["variants"]
        if len(vs) > 1:
            for v in vs:
                yield {**case, "variants": [v]}
            return
        if case["mode"] == "P26" and vs and not vs[0].get("simple"):
            yield {**case, "variants": []}
            yield {**case, "variants": [{"steps": [{"argv": SHOW}], "simple": 1}]}
        if case.get("valid") and (case["mode"] != "P26" or not vs or vs[0].get("simple")):
            # what is refused has to stay a valid specification: edit the model, not the text
            if "gen" in case:
                for e in specgen.edits(rtgen_spec(case)):
                    c = {**case, "edits": case.get("edits", []) + [e]}
                    sp = rtgen_spec(c)
                    if case["valid"] == "must" or specgen.aligned(sp):
                        yield {**c, "spec": sp.text()}
            return
        if not vs:
            yield from ({**case, "spec": t} for t in shrink_text(case["spec"]))
            return
        v = vs[0]
        for i, s in enumerate(v.get("steps", [])):
            fs = s.get("faults", [])
            for j in range(len(fs)):
                if len(fs) > 1:
                    yield {**case, "variants": [{**v, "steps": v["steps"][:i] + [{**s, "faults": fs[:j] + fs[j + 1:]}] + v["steps"][i + 1:]}]}
        if len(v.get("steps", [])) > 2:
            for i in range(len(v["steps"]) - 1):
                yield {**case, "variants": [{**v, "steps": v["steps"][:i] + v["steps"][i + 1:]}]}
        for k in ("readchunk", "shortwrite", "powerloss"):
            if v.get("sets", {}).get(k):
                yield {**case, "variants": [{**v, "sets": {a: b for a, b in v["sets"].items() if a != k}}]}
            if case["sets"].get(k):
                yield {**case, "sets": {a: b for a, b in case["sets"].items() if a != k}}
        simple = {"heap_mode": 0, "heap_reuse": 0, "heap_fill": 257}
        if any(case["sets"].get(k) != x for k, x in simple.items()) and "heap_mode" not in v.get("sets", {}):
            yield {**case, "sets": {**case["sets"], **simple}}
        if v.get("files"):
            for p in v["files"]:
                yield {**case, "variants": [{**v, "files": {a: b for a, b in v["files"].items() if a != p}}]}
        # a smaller specification, with every fault moved to an operation issued by the same code
        exe = self.exe(case)
        faulty = [(i, j, f) for i, s in enumerate(v.get("steps", [])) for j, f in enumerate(s.get("faults", []))]
        if not faulty:
            for t in shrink_text(case["spec"]):
                yield {**case, "spec": t}
            return
        if len(faulty) > 1:
            return
        i, j, f = faulty[0]
        prof = lambda t: simrun.exec_plan(exe, [self.mk({**case, "spec": t, "sets": {**case["sets"], "profile": 1}}, {"steps": v["steps"][:i] + [{}]})])[0][-1]
        st = prof(case["spec"])
        arr = st.arr("prof_a") if f[0] in (ALLOC, ALLOC_STICKY, CRASH_ALLOC) else st.arr("prof_f")
        if f[0] in (DISKFULL, CON) or f[1] > len(arr):
            return
        site = arr[f[1] - 1]
        for t in shrink_text(case["spec"]):
            st = prof(t)
            if st.code != 0 and case["mode"] != "P06":
                continue
            arr = st.arr("prof_a") if f[0] in (ALLOC, ALLOC_STICKY, CRASH_ALLOC) else st.arr("prof_f")
            at = [k + 1 for k, x in enumerate(arr) if x == site]
            for k in at[:2] + at[-1:]:
                steps = [dict(s) for s in v["steps"]]
                fs = list(steps[i]["faults"])
                fs[j] = [f[0], k, f[2]]
                steps[i]["faults"] = fs
                yield {**case, "spec": t, "variants": [{**v, "steps": steps}]}


def rtgen_spec(case):
    g = dict(case["gen"])
    sp = specgen.gen_spec(g.pop("seed"), **{k: tuple(v) if isinstance(v, list) else v for k, v in g.items()})
    for e in case.get("edits", []):
        specgen.edit(sp, e)
    return sp


def shrink_text(t):
    """candidate specifications with one item removed, larger items first"""
    items = []
    stack = [0]
    depth = 0
    starts = [0]
    for i, ch in enumerate(t):
        if ch in "{(":
            depth += 1
            starts.append(i + 1)
        elif ch in "})":
            if len(starts) > 1:
                s = starts.pop()
                if i > s:
                    items.append((s, i))
            depth -= 1
        elif ch in ",;":
            if t[starts[-1]:i].strip():
                items.append((starts[-1], i + 1))
            starts[-1] = i + 1
    items.sort(key=lambda x: x[0] - x[1])
    for a, b in items[:80]:
        yield t[:a] + t[b:]
        # an item at the end of a comma list: remove the comma before it as well
        m = re.search(r",\s*$", t[:a])
        if m:
            yield t[:m.start()] + t[b:]


# ---------------------------------------------------------------------------
# workload
# ---------------------------------------------------------------------------
def spec_opts(rng):
    """swarm: each specification switches features on and off"""
    o = dict(nodes=rng.choice([(1, 2), (2, 5), (4, 9)]), ag=rng.random() < 0.4, lifetimes=rng.choice([0, 0.2, 0.5]), cycles=rng.random() < 0.6,
             gates=rng.random() < 0.6, user=rng.random() < 0.5, travs=rng.choice([(0, 1), (1, 4), (3, 7)]), infos=rng.random() < 0.5)
    return o


def spec_texts(ctx, n, tag="spec", ag=None, big=False):
    out = []
    for i in range(n):
        rng = ctx.rng(tag, i)
        o = spec_opts(rng)
        if ag is not None:
            o["ag"] = ag
        s = rng.randrange(1 << 40)
        ctx.seeds.append(s)
        out.append((s, specgen.gen_spec(s, **o)))
    return out


def profile(ctx, texts, sets, again=()):
    """the operations of one run each; of a second run in the same place where again says so"""
    exe = build.generator()
    rs = [Run([Step(ARGV)] * (2 if i in again else 1), {**sets[i], "profile": 1}, {"m.ccn": t.encode("latin1")}) for i, t in enumerate(texts)]
    rr = simrun.run_batch(exe, rs)
    core.check_simerr(rr)
    ctx.runs_n += len(rs)
    return [r[-1] for r in rr]


def some(rng, n):
    """in some places the generator has run before"""
    return {i for i in range(n) if rng.random() < 0.3}


def second(vs):
    for v in vs:
        v["steps"] = [{}] + v["steps"]
    return vs


def pick_sites(ctx, rng, arr, n, measure, kinds=None):
    """n op indexes (1-based), preferring code locations no run has hit yet"""
    sites = {}
    for k, s in enumerate(arr):
        sites.setdefault(s, []).append(k + 1)
    fresh = [s for s in sites if s not in ctx.distinct.setdefault(measure, set())]
    old = [s for s in sites if s in ctx.distinct[measure]]
    rng.shuffle(fresh)
    rng.shuffle(old)
    out = []
    for s in (fresh + old)[:n]:
        ctx.distinct[measure].add(s)
        out.append(rng.choice([sites[s][0], sites[s][-1], rng.choice(sites[s])]))
    while len(out) < n and len(arr):
        out.append(rng.randrange(1, len(arr) + 1))
    return out


def io_fault(rng, st, idx):
    op = OPK[st.blobs["prof_k"][idx - 1]]
    e = rng.choice(WR_ERRNO.get(op, [EIO]))
    r = rng.random()
    if op == "write" and r < 0.25:
        return [TORN, idx, e]
    if r < 0.45:
        return [FS_STICKY, idx, e]
    return [FS, idx, e]


def io_variants(ctx, rng, st, n):
    vs = []
    for idx in pick_sites(ctx, rng, st.arr("prof_f"), n, "io_fault_sites"):
        vs.append({"steps": [{"faults": [io_fault(rng, st, idx)]}]})
    for _ in range(max(1, n // 6)):
        total = sum(v.size for v in out_files(st).values())
        vs.append({"steps": [{"faults": [[DISKFULL, 0, rng.choice([0, rng.randrange(1, 200), rng.randrange(total + 1), max(0, total - 1)])]]}]})
    if st.fs:
        for _ in range(max(1, n // 8)):  # several independent faults
            fs = [io_fault(rng, st, rng.randrange(1, st.fs + 1)) for _ in range(rng.randint(2, 3))]
            vs.append({"steps": [{"faults": fs}]})
        vs.append({"steps": [{"faults": [[CON, 1, rng.choice([EIO, ENOSPC])]]}]})
        vs.append({"steps": [{"faults": [[CON, 1, EIO], io_fault(rng, st, rng.randrange(1, st.fs + 1))]}]})
        # the very last operations are where an unnoticed loss hides
        for k in range(max(1, st.fs - 1), st.fs + 1):
            vs.append({"steps": [{"faults": [io_fault(rng, st, k)]}]})
    for v in vs:
        if rng.random() < 0.3:
            v["sets"] = {"shortwrite": rng.choice([1, 5, 50])}
    return vs


def fixture_texts():
    """the project's own specifications, when they are there"""
    import glob
    out = []
    for p in sorted(glob.glob(build.REPO + "/cocogen/tests/pass/*.ccn")) + [build.REPO + "/cocogen/main.ccn"]:
        try:
            out.append(open(p, encoding="latin1").read())
        except OSError:
            pass
    return out


def pool(ctx, n):
    texts = [s.text() for _, s in spec_texts(ctx, n)]
    fx = fixture_texts()
    return texts[:max(0, n - len(fx))] + fx if len(texts) > len(fx) else texts


def campaign_io(ctx, mode, nspec, nvar):
    texts = pool(ctx, nspec)
    rng = ctx.rng("faults")
    B = 32
    for b in range(0, len(texts), B):
        part = texts[b:b + B]
        sets = [rand_sets(rng, io=False) for _ in part]
        again = some(rng, len(part))
        profs = profile(ctx, part, sets, again)
        cases = []
        for i, (t, s, st) in enumerate(zip(part, sets, profs)):
            if st.code != 0:
                ctx.stats["unusable_spec"] += 1
                continue
            vs = io_variants(ctx, rng, st, nvar)
            if i in again:
                vs = second(vs)
            sample(ctx, t, vs)
            for v in vs:
                for f in v["steps"][-1]["faults"]:
                    ctx.seen("fault_points", (hash_t(t), tuple(f)))
            cases.append({"kind": "gen", "mode": mode, "spec": t, "sets": s, "variants": vs, "seed": s["seed"]})
        ctx.run(cases)


def hash_t(t):
    import hashlib
    return hashlib.sha256(t.encode("latin1")).hexdigest()[:12]


def sample(ctx, t, vs):
    if len(ctx.samples) < 4 and vs:
        ctx.samples.append({"specification": t[:400], "plan": vs[0]})


def campaign_alloc(ctx, nspec, nvar):
    texts = pool(ctx, nspec)
    rng = ctx.rng("faults")
    B = 32
    for b in range(0, len(texts), B):
        part = texts[b:b + B]
        sets = [rand_sets(rng, io=False) for _ in part]
        again = some(rng, len(part))
        profs = profile(ctx, part, sets, again)
        cases = []
        for i, (t, s, st) in enumerate(zip(part, sets, profs)):
            if st.code != 0:
                ctx.stats["unusable_spec"] += 1
                continue
            vs = []
            for idx in pick_sites(ctx, rng, st.arr("prof_a"), nvar, "alloc_fault_sites"):
                f = [[rng.choice([ALLOC, ALLOC, ALLOC_STICKY]), idx, 0]]
                if rng.random() < 0.15:
                    f.append(io_fault(rng, st, rng.randrange(1, st.fs + 1)))
                vs.append({"steps": [{"faults": f}]})
            if i in again:
                vs = second(vs)
            sample(ctx, t, vs)
            for v in vs:
                ctx.seen("fault_points", (hash_t(t), tuple(v["steps"][-1]["faults"][0])))
            cases.append({"kind": "gen", "mode": "P03", "spec": t, "sets": s, "variants": vs, "seed": s["seed"]})
        ctx.run(cases)


def crash_fault(rng, st):
    r = rng.random()
    if r < 0.15:
        return [CRASH_ALLOC, rng.randrange(1, st.alloc + 1), 0]
    idx = rng.randrange(1, st.fs + 1)
    if r < 0.3:
        idx = rng.randrange(max(1, st.fs - 5), st.fs + 1)
    return [rng.choice([CRASH, CRASH_TORN]), idx, rng.randrange(64)]


def campaign_crash(ctx, nspec, nvar):
    texts = pool(ctx, nspec)
    rng = ctx.rng("faults")
    B = 32
    for b in range(0, len(texts), B):
        part = texts[b:b + B]
        sets = [rand_sets(rng, io=False) for _ in part]
        profs = profile(ctx, part, sets)
        cases = []
        for q, (t, s, st) in enumerate(zip(part, sets, profs)):
            if st.code != 0:
                ctx.stats["unusable_spec"] += 1
                continue
            vs = []
            for _ in range(nvar):
                r = rng.random()
                steps = []
                if r < 0.2:
                    steps.append({})  # a complete earlier generation
                for _ in range(rng.choice([1, 1, 1, 2, 3])):
                    steps.append({"faults": [crash_fault(rng, st)], "sheap": rng.randrange(1 << 30)})
                if rng.random() < 0.15:
                    steps.append({"faults": [io_fault(rng, st, rng.randrange(1, st.fs + 1))]})
                v = {"sets": {"powerloss": 1 if rng.random() < 0.6 else 0, "seed": rng.randrange(1 << 40)}, "steps": steps}
                if rng.random() < 0.3:
                    other = part[rng.randrange(len(part))]
                    if other != t:
                        v["files"] = {"old.ccn": other}
                        v["steps"] = [{"argv": ["cocogen", "--gen-dir", "g/", "old.ccn"]}] + steps[:4]
                        if rng.random() < 0.5:
                            v["steps"][0]["faults"] = [crash_fault(rng, st)]
                v["steps"] = v["steps"][:5] + [{}]
                vs.append(v)
                ctx.seen("crash_schedules", (hash_t(t), repr(v["steps"])))
            sample(ctx, t, vs)
            cases.append({"kind": "gen", "mode": "P04", "spec": t, "sets": s, "variants": vs, "seed": s["seed"]})
        ctx.run(cases)


def dirty_dir(rng, t):
    """an output directory with things in it already"""
    files = {}
    names = ["g/ast.c", "g/ccngen/ast.h", "g/trav.c", "g/ccn_free.c", "g/ccngen/enum.h", "g/visit.c", "g/user/x.c", "g/log/ag_schedule.log", "g/zz/other.c", "g/ag_dot/partitioned.dot"]
    for p in rng.sample(names, rng.randint(1, 6)):
        files[p] = "".join(rng.choice("abc{};\n#\x00\xff") for _ in range(97))[:rng.choice([10, 97])] * rng.choice([0, 1, 31, 600])
    dirs = set()
    for p in files:
        q = p.split("/")[:-1]
        for i in range(1, len(q) + 1):
            dirs.add("/".join(q[:i]))
    return files, sorted(dirs, key=len)


def campaign_env(ctx, nspec, nvar):
    texts = pool(ctx, nspec)
    rng = ctx.rng("env")
    B = 48
    for b in range(0, len(texts), B):
        part = texts[b:b + B]
        cases = []
        for t in part:
            vs = []
            for _ in range(nvar):
                v = {"sets": rand_sets(rng), "steps": [{}]}
                if rng.random() < 0.3:
                    v["files"], v["dirs"] = dirty_dir(rng, t)
                elif rng.random() < 0.2:
                    v["steps"] = [{"sheap": rng.randrange(1 << 30)}, {}]
                vs.append(v)
                ctx.seen("environments", (hash_t(t), repr(v["sets"])))
            sample(ctx, t, vs)
            cases.append({"kind": "gen", "mode": "P05", "spec": t, "sets": rand_sets(rng), "variants": vs, "seed": 0})
        ctx.run(cases)


def campaign_contain(ctx, nspec, nvar):
    texts = pool(ctx, nspec)
    rng = ctx.rng("contain")
    B = 32
    neigh = {"g.c": "x", "ast.c": "user file", "ccngen/ast.h": "user header", "gg/ast.c": "y", "user/f.c": "mine", "log/ag_schedule.log": "log", "ast.dot": "dot"}
    dirs = ["ccngen", "gg", "user", "log"]
    for b in range(0, len(texts), B):
        part = texts[b:b + B]
        sets = [rand_sets(rng) for _ in part]
        profs = profile(ctx, part, sets)
        cases = []
        for t, s, st in zip(part, sets, profs):
            if st.code != 0:
                continue
            vs = []
            for _ in range(nvar):
                steps = [{}]
                r = rng.random()
                if r < 0.3:
                    steps = [{"faults": [crash_fault(rng, st)]}]
                elif r < 0.6:
                    steps = [{"faults": [io_fault(rng, st, rng.randrange(1, st.fs + 1))]}]
                elif r < 0.75:
                    steps = [{"faults": [[rng.choice([ALLOC, ALLOC_STICKY]), rng.randrange(1, st.alloc + 1), 0]]}]
                gd, out = rng.choice([("g/", "g"), ("g", "g"), ("./g", "g"), ("g//", "g"), ("x/../g/", "g"), (None, "ccngen"), ("", "."), (".", "."), ("x/../", "."), ("x/y", "x/y"), ("/w/out", "/w/out"), ("gg", "gg"), ("log/", "log"), ("g.d", "g.d")])
                inp = rng.choice(["m.ccn", "m.ccn", "./m.ccn", "x/../m.ccn"])
                argv = ["cocogen"] + rng.sample(["--show-ast", "-v", "--debug", "--consistency-checks"], rng.choice([0, 0, 1, 2])) + ([] if gd is None else ["--gen-dir", gd] if rng.random() < 0.7 else ["--gen-dir=" + gd]) + [inp]
                steps[0]["argv"] = argv
                if rng.random() < 0.3:
                    steps = steps + [{"argv": argv}]
                v = {"sets": {"seed": rng.randrange(1 << 40)}, "steps": steps, "files": dict(neigh), "dirs": list(dirs) + ["x", "/w"], "out": out}
                if rng.random() < 0.5:
                    v["ro"] = {"g2.ccn": "read only"}
                vs.append(v)
                ctx.seen("scenarios", (hash_t(t), repr(v["steps"])))
            sample(ctx, t, vs)
            cases.append({"kind": "gen", "mode": "P07", "spec": t, "sets": s, "variants": vs, "seed": s["seed"]})
        ctx.run(cases)


def campaign_invalid(ctx, n, nvar):
    """specifications with one rule of the language broken, under faults"""
    import invalid
    rng = ctx.rng("invalid")
    names = sorted(invalid.OPS) + sorted(invalid.TEXT_OPS)
    B = 96
    for b in range(0, n, B):
        part = []
        for i in range(b, min(n, b + B)):
            for _ in range(20):
                s = rng.randrange(1 << 40)
                g = invalid.gen(s, names[i % len(names)], spec_opts(ctx.rng("o", s)))
                if g:
                    break
            else:
                continue
            ctx.seeds.append(s)
            ctx.seen("rules_broken", g[0])
            part.append(g)
        sets = [rand_sets(rng, io=False) for _ in part]
        profs = profile(ctx, [t for _, t in part], sets)
        cases = []
        for (name, t), s, st in zip(part, sets, profs):
            vs = [{"steps": [{}]}]
            for _ in range(nvar):
                v = {"sets": {}, "steps": [{}]}
                r = rng.random()
                if r < 0.3 and st.fs:
                    v["steps"] = [{"faults": [io_fault(rng, st, rng.randrange(1, st.fs + 1))]}]
                elif r < 0.7 and st.alloc:
                    k = pick_sites(ctx, rng, st.arr("prof_a"), 1, "alloc_fault_sites")[0] if rng.random() < 0.7 else max(1, st.alloc - rng.randrange(60))
                    v["steps"] = [{"faults": [[rng.choice([ALLOC, ALLOC, ALLOC_STICKY]), k, 0]]}]
                elif r < 0.75:
                    v["steps"] = [{"faults": [[CON, 1, EIO]]}]
                else:
                    v["sets"] = rand_sets(rng)
                if rng.random() < 0.4:
                    v["files"], v["dirs"] = dirty_dir(rng, t)
                vs.append(v)
                ctx.seen("scenarios", (hash_t(t), repr(v)))
            sample(ctx, t, vs[1:])
            cases.append({"kind": "gen", "mode": "P06", "op": name, "spec": t, "sets": s, "variants": vs, "seed": s["seed"]})
        ctx.run(cases)


def mangle(rng, t):
    """byte-level damage: what a lost or torn write leaves of a specification"""
    b = list(t)
    for _ in range(rng.randint(1, 3)):
        r = rng.random()
        i = rng.randrange(len(b) + 1)
        j = min(len(b), i + rng.randint(1, 40))
        if r < 0.2:
            b = b[:i]
        elif r < 0.4:
            del b[i:j]
        elif r < 0.55:
            b[i:i] = b[rng.randrange(len(b) + 1):][:rng.randint(1, 60)]
        elif r < 0.7:
            b[i:j] = [chr(0)] * (j - i)
        elif r < 0.85 and i < len(b):
            b[i] = chr(rng.randrange(256))
        else:
            b[i:i] = list(rng.choice(["{", "}", "\"", "/*", "//", ";;", ".", "->", "[", ")", "user ", "root ", "a" * 300, "9" * 40, "= {}"]))
        if not b:
            b = [" "]
    return "".join(b)


def phases_of_cocogen():
    """names a breakpoint of the generator itself can stop at"""
    try:
        t = open(build.REPO + "/cocogen/main.ccn", encoding="latin1").read()
    except OSError:
        t = ""
    return sorted(set(re.findall(r"(?:pass|phase|traversal)\s+(\w+)", t))) or ["scanparse"]


def cli(rng, names):
    o = rng.choice([["--breakpoint", rng.choice(names)], ["--breakpoint", ".".join(rng.sample(names, 2))], ["--breakpoint=" + rng.choice(names), "--show-ast"], ["--show-ast"], ["--show-structure"], ["--help"], ["--version"],
                    ["--ag-scheduler-max-iter", rng.choice(["0", "1", "2", "-1", "x", "", "99999999999999999999"])], ["--backend", rng.choice(["typed", "dynamic", "", "zz"])],
                    ["--dot", "x"], ["--serialise", "--profiling", "--breakpoints", "--inspectpoints", "--consistency-checks"], ["--debug", "--show-ast"], ["-v"], ["-b", "x"], ["-vvv", "--verbose"], ["--nosuch"], ["--breakpoint"], ["--"], ["--gen-dir", ""], ["--show-ast", "--gen-dir"]])
    inp = rng.choice([["m.ccn"]] * 8 + [[], ["m.ccn", "m.ccn"], ["nosuch.ccn"], ["d"], [""], ["m.ccn/x"], ["d/"], ["-"], ["./d/../m.ccn"]])
    a = ["--gen-dir", rng.choice(["g/"] * 6 + ["", "d", "m.ccn", "nosuch/deep/er", "d/" * 40])] if rng.random() < 0.8 else []
    return ["cocogen"] + (a + o + inp if rng.random() < 0.6 else o + a + inp)


def campaign_robust(ctx, n, nvar):
    """any input, any memory layout: an orderly end; valid input: success"""
    import invalid
    rng = ctx.rng("robust")
    names = phases_of_cocogen()
    B = 96
    for b in range(0, n, B):
        cases = []
        for i in range(b, min(n, b + B)):
            s = rng.randrange(1 << 40)
            ctx.seeds.append(s)
            r = rng.random()
            o = spec_opts(ctx.rng("o", s))
            case = {"kind": "gen", "mode": "P19", "sets": rand_sets(rng), "seed": s}
            if r < 0.35:
                o["ag"] = False
                case.update(spec=specgen.gen_spec(s, **o).text(), valid="must", gen={"seed": s, **o})
            elif r < 0.6:
                o["ag"] = True
                case.update(spec=specgen.gen_spec(s, **o).text(), valid="ag", gen={"seed": s, **o})
            elif r < 0.8:
                g = invalid.gen(s, None, o)
                if not g:
                    continue
                case.update(spec=g[1], op=g[0])
            else:
                case.update(spec=mangle(rng, specgen.gen_spec(s, **o).text()), op="damaged text")
            case["variants"] = [{"sets": rand_sets(rng), "steps": [{}]} for _ in range(nvar)]
            if rng.random() < 0.3:
                case["variants"][0]["steps"] = [{"argv": ["cocogen"] + rng.sample(["--show-ast", "-v", "--debug", "--consistency-checks", "--show-structure"], rng.randint(1, 3)) + ARGV[1:]}]
            if rng.random() < 0.4:
                case["variants"][-1].update(cli=1, dirs=["d"], steps=[{"argv": cli(rng, names)}])
                ctx.stats["command_lines"] += 1
            for v in case["variants"]:
                ctx.seen("environments", (hash_t(case["spec"]), repr(v["sets"])))
            ctx.stats["input_" + case.get("valid", "invalid")] += 1
            sample(ctx, case["spec"], case["variants"])
            cases.append(case)
        ctx.run(cases)


def campaign_describe(ctx, n, nvar):
    """what the generator shows of a specification, in every environment, after crashes and under faults it survives"""
    rng = ctx.rng("describe")
    B = 48
    for b in range(0, n, B):
        cases = []
        for i in range(b, min(n, b + B)):
            s = rng.randrange(1 << 40)
            ctx.seeds.append(s)
            o = spec_opts(ctx.rng("o", s))
            sp = specgen.gen_spec(s, **o)
            cases.append({"kind": "gen", "mode": "P26", "spec": sp.text(), "valid": "ag" if o["ag"] else "must", "gen": {"seed": s, **o}, "sets": rand_sets(rng), "seed": s, "variants": []})
        profs = profile(ctx, [c["spec"] for c in cases], [c["sets"] for c in cases])
        for c, st in zip(cases, profs):
            for k in range(nvar):
                v = {"sets": rand_sets(rng), "steps": [{"argv": rng.choice([SHOW, SHOW, ARGV])}]}
                r = rng.random()
                if r < 0.35 and st.fs:
                    v["steps"][0]["faults"] = [io_fault(rng, st, rng.randrange(1, st.fs + 1))]
                elif r < 0.6 and st.code == 0:
                    v["steps"] = [{"faults": [crash_fault(rng, st)]}] + v["steps"]
                elif r < 0.75:
                    v["files"], v["dirs"] = dirty_dir(rng, c["spec"])
                ctx.seen("environments", (hash_t(c["spec"]), repr(v)))
                c["variants"].append(v)
            sample(ctx, c["spec"], c["variants"])
        ctx.run(cases)


VERB = ["cocogen", "-v", "--gen-dir", "g/", "m.ccn"]


def command_line(rng, bps):
    """a command line: mostly one the generator accepts, in some spelling and order"""
    def long(n, v=None):
        if rng.random() < 0.2:
            n = n[:rng.randint(1, len(n))]
        return ["--" + n] if v is None else ["--%s=%s" % (n, v)] if rng.random() < 0.4 else ["--" + n, v]

    def bp():
        b = rng.choice(bps)
        if rng.random() < 0.2:
            b = "".join(c.upper() if rng.random() < 0.5 else c.lower() for c in b)
        if rng.random() < 0.1:
            b = rng.choice([b + "x", b[:-1] or "q", "nosuch", b + ".nosuch", "nosuch." + b])
        return rng.choice([["-b", b], ["-b" + b], long("breakpoint", b), long("breakpoint", b)])
    kinds = [lambda: rng.choice([["-v"], ["-v"], ["-vv"], long("verbose")]), bp, bp, lambda: long("show-ast"), lambda: long("gen-dir", rng.choice(["g", "g/", "h/", "a/b", "./g/", "a/../g"])),
             lambda: long("ag-scheduler-max-iter", rng.choice(["1000", "5000", "100000", "+2000", "3", "0", "1"])), lambda: long("backend", rng.choice(["dynamic", "Dynamic", "DYNAMIC"])),
             lambda: long(rng.choice(["profiling", "breakpoints", "consistency-checks", "serialise", "inspectpoints", "debug"])), lambda: long("dot", "x")]
    odd = [lambda: long("help"), lambda: long("version"), lambda: long("show-structure"), lambda: ["--nosuch"], lambda: ["-x"], lambda: ["--verbose=1"], lambda: long("backend", rng.choice(["dynamicx", "dyn", "c", "Static"])),
           lambda: long("ag-scheduler-max-iter", rng.choice(["x", "-", "+", "x1"])), lambda: ["--"], lambda: ["m.ccn"], lambda: ["-vq"]]
    parts = [rng.choice(kinds)() for _ in range(rng.randint(0, 4))]
    if rng.random() < 0.3:
        parts.append(rng.choice(odd)())
    if rng.random() < 0.7:
        parts.append(long("gen-dir", "g/"))
    if rng.random() < 0.97:
        parts.append([rng.choice(["m.ccn"] * 8 + ["./m.ccn", "nosuch.ccn"])])
    rng.shuffle(parts)
    a = [x for p in parts for x in p]
    if rng.random() < 0.04:
        a.append(rng.choice(["--gen-dir", "-b", "--breakpoint", "--backend"]))
    return a


def campaign_cmdline(ctx, n, nvar):
    """the generator under arbitrary command lines, stopped at any of its own actions"""
    rng = ctx.rng("cmdline")
    B = 48
    bps = None
    for b in range(0, n, B):
        cases = []
        for i in range(b, min(n, b + B)):
            s = rng.randrange(1 << 40)
            ctx.seeds.append(s)
            t = specgen.gen_spec(s, **spec_opts(ctx.rng("o", s))).text()
            cases.append({"kind": "gen", "mode": "P27", "argv": VERB, "spec": t, "sets": rand_sets(rng), "seed": s, "variants": []})
        if bps is None:
            (_, r), = ctx.execute(cases[:1])
            bps = cmdline.spellings(cmdline.announced(r[0][0].err.decode("latin1"))) or ["nosuch"]
        profs = profile(ctx, [c["spec"] for c in cases], [c["sets"] for c in cases])
        for c, st in zip(cases, profs):
            for k in range(nvar):
                v = {"sets": rand_sets(rng), "dirs": ["a"], "steps": [{"argv": ["cocogen"] + command_line(rng, bps)}]}
                if rng.random() < 0.15 and st.alloc:
                    v["steps"][0]["faults"] = [[rng.choice([ALLOC, ALLOC_STICKY]), rng.randrange(1, st.alloc + 1), 0]]
                ctx.seen("command_lines", (hash_t(c["spec"]), repr(v)))
                c["variants"].append(v)
            sample(ctx, c["spec"], c["variants"])
        ctx.run(cases)

"""Generated compilers under simulation: cases, campaigns, verdicts."""
import json, random, re
import core, rtgen, rtmodel, simrun, specgen
from simrun import *
from genk import HEAPS, bad_end

class RTKind(core.Kind):
    name = "rt"

    def prepare(self, cases):
        rtgen.build_all(cases)

    def exe(self, case):
        return rtgen.exe_of(case)

    def runs(self, case):
        argv = [case["scen"]] + ["%s=%s" % kv for kv in sorted(case["opts"].items())]
        out = [Run([Step(["rt"] + argv)], {"max_ops": 3000000, **case["sets"]})]
        for fs in case.get("faulty", []):
            out.append(Run([Step(["rt"] + argv, [tuple(f) for f in fs])], {"max_ops": 3000000, **case["sets"]}))
        return out

    def judge(self, case, res):
        if isinstance(res, rtgen.Failed):
            if res.rule == "refused":
                return [("generate", "a valid attribute grammar is refused: %s" % res.detail)] if "generate" in case["rules"] else []
            return [(res.rule, res.detail)] if res.rule in case["rules"] else []
        sp = rtgen.spec_of(case)
        vs, self.last = verdict(sp, case, res)
        return [x for x in vs if x[0] in case["rules"]]

    def cover(self, ctx, case, res):
        if isinstance(res, rtgen.Failed):
            ctx.stats["spec_" + res.rule] += 1
            return
        ctx.seen("specifications", rtgen.key_of(case))
        for r in res:
            for s in r:
                if s.code == 0:
                    ctx.stats["end_normal"] += 1
                elif s.code == 1:
                    ctx.stats["end_aborted"] += 1
                else:
                    ctx.stats["end_other"] += 1
        # an interleaving is the sequence of callbacks and operations, without values
        t = res[0][0].trace
        import hashlib
        h = hashlib.sha256()
        for e in t:
            w = e.split(" ")
            h.update((w[0] + (w[1] if w[0] in ("P", "T", "I", "F", "G") and len(w) > 1 else "")).encode())
        ctx.seen("histories", (rtgen.key_of(case), h.digest()[:8]))

    def judged(self, ctx, case):
        last, self.last = getattr(self, "last", {}), {}
        for k, n in last.items():
            ctx.stats["m_" + k] += n

    def shrinks(self, case, execute):
        # fewer decisions first: smaller budgets and trees, then fewer features, then a smaller specification
        o = case["opts"]
        for fs in case.get("faulty", []):
            if len(case["faulty"]) > 1:
                yield {**case, "faulty": [fs]}
        for k, lo in (("runs", 1), ("budget", 0), ("tree", 1), ("cb", 1), ("ops", 1)):
            if k in o and int(o[k]) > lo:
                for v in sorted({lo, int(o[k]) // 2, int(o[k]) - 1}):
                    if v < int(o[k]):
                        yield {**case, "opts": {**o, k: v}}
        f = o.get("feat", "")
        for i in range(0, len(f), 2):
            yield {**case, "opts": {**o, "feat": f[:i] + f[i + 2:]}}
        for k in ("bp", "bpid", "verb", "show", "wrong"):
            if k in o and str(o[k]) not in ("0", ""):
                yield {**case, "opts": {a: b for a, b in o.items() if a != k}}
        simple = {"heap_mode": 0, "heap_reuse": 0, "heap_fill": 257}
        if any(case["sets"].get(k) != x for k, x in simple.items()):
            yield {**case, "sets": {**case["sets"], **simple}}
        if not case.get("faulty") and "fixed" not in case["gen"]:
            sp = rtgen.spec_of(case)
            n = 0
            for e in specgen.edits(sp):
                if case["scen"] == "ag":
                    # stay within the grammars the scheduler supports
                    s2 = rtgen.spec_of({**case, "edits": case.get("edits", []) + [e]})
                    if not specgen.aligned(s2):
                        continue
                n += 1
                if n > 40:
                    break
                yield {**case, "edits": case.get("edits", []) + [e]}


core.REG["rt"] = RTKind()


def verdict(sp, case, res):
    """violations of all rules, model counters"""
    st = res[0][0]
    out = []
    if case["scen"] == "ag":
        import rtag
        m = rtag.AG(sp, case.get("ack"))
        m.run(st)
    else:
        m = rtmodel.Model(sp, case["opts"], case.get("ack"))
        m.run(case["scen"], st)
    out += m.viol
    if not (m.m if case["scen"] == "ag" else m).refusal:
        out += bad_end(st, "run")
    for fs, r in zip(case.get("faulty", []), res[1:]):
        out += oom(case, fs, st, r[0])
    # one line per distinct deviation
    seen, o2 = set(), []
    for x in out:
        if x not in seen:
            seen.add(x)
            o2.append(x)
    return o2, m.stat


def oom(case, fs, base, st):
    """a failing allocation ends the run orderly, and everything before it is as without the failure"""
    w = "failing allocation %s" % ",".join(str(f[1]) for f in fs)
    b = bad_end(st, w)
    if b:
        return [("oom", b[0][1])]
    if not st.fired:
        return [] if st.trace == base.trace and st.code == base.code else [("oom", "%s: not reached, but the run differs" % w)]
    if st.code != 1:
        return [("oom", "%s: exit status %d instead of 1" % (w, st.code))]
    if b"ut of memory" not in st.err:
        return [("oom", "%s: no out-of-memory message" % w)]
    a, t = base.trace, [l for l in st.trace]
    if t != a[:len(t)]:
        i = next((i for i, (x, y) in enumerate(zip(t, a)) if x != y), min(len(t), len(a)))
        return [("oom", "%s: after event %d the history goes on differently: %s" % (w, i, t[i][:120] if i < len(t) else "-"))]
    return []


# ---- campaigns ----
FEAT = {"all": "c6k2o2n1m2b1y1N1I1w2r1d1t1z1"}
COMMON = ["memory", "signal", "hang", "generate", "compile"]


def sets_of(r):
    return {"seed": r.randrange(1 << 40), "heap_seed": r.randrange(1 << 40), **r.choice(HEAPS)}


def campaign(ctx, n, per, rules, mk, chunk=40):
    """n specifications, per histories each; mk(rng, i, j, spec_rng) -> case without kind, rules and sets"""
    ctx.seeds.append("%s/%s" % (ctx.prop, ctx.seed))
    for lo in range(0, n, chunk):
        if ctx.out_of_time() or ctx.done():
            return
        cs = []
        for i in range(lo, min(n, lo + chunk)):
            sr = ctx.rng("spec", i)
            base = mk(sr)
            for j in range(per):
                r = ctx.rng("run", i, j)
                c = {"kind": "rt", **{k: v for k, v in base.items() if k != "hist"}, "sets": sets_of(r), "rules": list(rules) + COMMON}
                c.update(base["hist"](r))
                cs.append(c)
        pairs = ctx.run(cs)
        yield pairs


def drain(g):
    for _ in g:
        pass


def note_sample(ctx, pairs):
    for c, res in pairs[:1]:
        if not isinstance(res, rtgen.Failed) and len(ctx.samples) < 6:
            t = res[0][0].trace
            ctx.samples.append({"specification": rtgen.spec_of(c).text()[:1500], "case": {k: v for k, v in c.items() if k != "rules"}, "history_head": [x[:160] for x in t[:12]], "events": len(t)})


def sampled(ctx, g):
    for pairs in g:
        note_sample(ctx, pairs)


def common(sr, **gen):
    return {"gen": {"seed": sr.randrange(1 << 40), **gen}, "edits": [], "ack": sr.randrange(2), "ndebug": int(sr.random() < 0.3)}


def drive_opts(r, feat, **kw):
    return {"feat": feat, "runs": r.randint(1, 3), "budget": r.choice([10, 40, 120]), "tree": r.choice([3, 8, 20]), "check": 0, "verb": r.randrange(4), "cycles": r.choice([1, 2, 3, 5]), "gate": r.choice([20, 50, 80]), "gops": int(r.random() < 0.4), "warm": 1, **kw}


def paths(sp):
    """every dotted spelling of an action that a breakpoint may name, with plain names too"""
    out = []

    def walk(p, pre):
        for a in p.acts:
            out.append(a.name)
            out.append(pre + a.name)
            if isinstance(a, specgen.Phase):
                walk(a, pre + a.name + ".")
    out.append(sp.root_phase.name)
    walk(sp.root_phase, sp.root_phase.name + ".")
    return out


def c_order(ctx):
    def mk(sr):
        b = common(sr, ag=False, lifetimes=0, actions=[2, 14], nodes=[1, 5])
        b["hist"] = lambda r: {"scen": "drive", "opts": drive_opts(r, "c4o1n1N1y1r1" + r.choice(["", "b1", "t1z1", "p1Q2"]), show=r.randrange(2), budget=r.choice([0, 10, 60]), cycles=r.choice([1, 2, 3, -1]))}
        return b
    sampled(ctx, campaign(ctx, ctx.scale(280, 2400), ctx.scale(24, 60), ["order", "id", "announce"], mk))


def c_cycle(ctx):
    def mk(sr):
        b = common(sr, ag=False, lifetimes=0, actions=[2, 10], nodes=[1, 3], travs=[0, 2])
        b["hist"] = lambda r: {"scen": "drive", "opts": drive_opts(r, "c2N%d" % r.choice([1, 2, 5]) + r.choice(["", "S1", "r1", "n1", "S1m3", "m9"]), budget=r.choice([10, 40, 120, 400]), cycles=r.choice([1, 2, 3, 4, 7, -1]), cb=r.choice([1, 1, 3]))}
        return b
    sampled(ctx, campaign(ctx, ctx.scale(280, 2400), ctx.scale(30, 80), ["cycle", "id", "order"], mk))


def c_error(ctx):
    def mk(sr):
        b = common(sr, ag=False, lifetimes=0, actions=[2, 10], nodes=[1, 4], travs=[0, 3])
        b["hist"] = lambda r: {"scen": "drive", "opts": drive_opts(r, r.choice(["c4m9d5E1", "c4m9d5P1", "c4m6E1P1", "c4N4m6d4P1", "c4n2N2m6E1", "c4m9N2I1P1I2"]), budget=r.choice([10, 40, 120]), cb=r.choice([1, 2]))}
        return b
    sampled(ctx, campaign(ctx, ctx.scale(280, 2400), ctx.scale(30, 80), ["error", "order", "cycle"], mk))


def c_break(ctx):
    def mk(sr):
        b = common(sr, ag=False, lifetimes=0, actions=[2, 12], nodes=[1, 4], travs=[0, 3])
        sp = rtgen.spec_of(b)
        ps, num = paths(sp), sp.numbering()
        names = sorted({q for q in ps if "." not in q})
        dotted = [q for q in ps if "." in q]

        def stray(r):
            """a dotted name: a real prefix, then a name from somewhere else in the specification"""
            pre = r.choice(dotted).split(".")
            pre = pre[:r.randint(1, len(pre))]
            return ".".join(pre + [r.choice(names) for _ in range(r.choice([1, 1, 2]))])

        def hist(r):
            o = drive_opts(r, "c4N2m2" + r.choice(["", "r1", "E1", "P1", "n1"]), runs=r.randint(1, 2))
            x = r.random()
            if x < 0.65:
                p = r.choice(ps) if x < 0.4 or not dotted else stray(r)
                if r.random() < 0.3:
                    p = "".join(c.upper() if r.random() < 0.5 else c.lower() for c in p)
                o["bp"] = p
            elif x < 0.88:
                o["bpid"] = r.choice(sorted(num)) if r.random() < 0.9 else max(num) + r.randint(1, 3)
            elif x < 0.95:
                o["bp"] = r.choice(ps) + r.choice(["x", ".x", ""])
                o["bpid"] = r.choice(sorted(num))
            else:
                o["bp"] = r.choice(["nosuch", r.choice(ps)[:-1] or "q", r.choice(ps) + "x", r.choice(ps) + ".nosuch"])
            return {"scen": "drive", "opts": o}
        b["hist"] = hist
        return b
    sampled(ctx, campaign(ctx, ctx.scale(280, 2400), ctx.scale(30, 80), ["break", "order"], mk))


def c_check(ctx):
    def mk(sr):
        b = common(sr, ag=False, lifetimes=sr.choice([0.05, 0.1, 0.2, 0.4]), actions=[2, 10], nodes=[1, 6], travs=[0, 3])

        def hist(r):
            o = drive_opts(r, r.choice(["c2k1", "c2b1m1", "c3b2m2r1N1", "c2x1b1", "c2m4n1", "c3b1g1m1"]), runs=r.randint(1, 2), budget=r.choice([0, 5, 20, 60]), check=r.choice([1, 1, 1, 2]), verb=0, cycles=r.choice([1, 2, 3]))
            if r.random() < 0.15:
                o["wrong"] = r.choice([5, 20])
            return {"scen": "drive", "opts": o}
        b["hist"] = hist
        return b
    sampled(ctx, campaign(ctx, ctx.scale(300, 2800), ctx.scale(30, 80), ["check"], mk))


def c_dispatch(ctx):
    def mk(sr):
        b = common(sr, ag=False, lifetimes=0, actions=[1, 4], **sr.choice([{"nodes": [2, 7], "travs": [1, 6]}, {"nodes": [4, 9], "travs": [3, 8], "sparse": 1}]))
        b["hist"] = lambda r: {"scen": r.choice(["drive", "tree", "tree"]), "opts": drive_opts(r, "c%dk2o2n1" % r.choice([3, 6]) + r.choice(["", "r1d1", "b1m1d1", "t2y1", "p3", "p2Q2r1"]), runs=1, verb=0, ops=r.choice([10, 25]), budget=r.choice([20, 60]))}
        return b
    sampled(ctx, campaign(ctx, ctx.scale(280, 2400), ctx.scale(24, 60), ["dispatch", "tree"], mk))


def c_data(ctx):
    def mk(sr):
        b = common(sr, ag=False, lifetimes=0, actions=[2, 5], nodes=[1, 4], travs=[2, 6])
        b["hist"] = lambda r: {"scen": r.choice(["drive", "tree"]), "opts": drive_opts(r, "c4k1n4w6" + r.choice(["", "r1", "t3y1", "m1b1", "p5", "p4Q2"]), runs=r.randint(1, 2), verb=0, ops=r.choice([10, 25]), budget=r.choice([20, 60, 120]))}
        return b
    sampled(ctx, campaign(ctx, ctx.scale(280, 2400), ctx.scale(24, 60), ["data"], mk))


def c_copy(ctx):
    def mk(sr):
        b = common(sr, ag=False, lifetimes=sr.choice([0, 0.2]), nodes=[1, 7], actions=[1, 5])
        b["hist"] = lambda r: {"scen": r.choice(["drive", "tree", "tree"]), "opts": drive_opts(r, "c3y3m2b1z1d2t1" + r.choice(["", "r1", "n1"]), runs=1, verb=0, ops=r.choice([20, 50]), budget=r.choice([10, 40]))}
        return b
    sampled(ctx, campaign(ctx, ctx.scale(280, 2400), ctx.scale(24, 60), ["copy", "tree"], mk))


def c_free(ctx):
    def mk(sr):
        b = common(sr, ag=False, lifetimes=0, nodes=[1, 7], actions=[1, 5])
        b["hist"] = lambda r: {"scen": r.choice(["drive", "tree"]), "opts": drive_opts(r, "c3y2m2b2z2r2" + r.choice(["", "t2n1", "w3n2", "p3w3Q1"]), runs=r.randint(1, 3), verb=0, ops=r.choice([20, 50]), budget=r.choice([10, 40]))}
        return b
    sampled(ctx, campaign(ctx, ctx.scale(280, 2400), ctx.scale(24, 60), ["free", "leak"], mk))


def c_init(ctx):
    def mk(sr):
        b = common(sr, nodes=[1, 7], actions=[1, 6], **sr.choice([{"ag": False}, {"ag": None}]))
        b["stubs"] = int(sr.random() < 0.4)
        b["hist"] = lambda r: {"scen": "tree", "opts": {"feat": "", "tree": r.choice([3, 8, 20]), "ops": r.choice([10, 20])}}
        return b
    sampled(ctx, campaign(ctx, ctx.scale(520, 5000), ctx.scale(6, 10), ["init"], mk))


def c_ag(ctx):
    def mk(sr):
        b = common(sr, ag=True, lifetimes=0, nodes=[1, 7])
        b["hist"] = lambda r: {"scen": "ag", "opts": {"runs": r.randint(1, 3), "tree": r.choice([3, 10, 30]), "mand": 1}}
        return b
    sampled(ctx, campaign(ctx, ctx.scale(360, 3500), ctx.scale(12, 30), ["ag", "copy", "init"], mk))


def c_access(ctx):
    """reads and writes through every accessor, ending in an access that must be refused"""
    def mk(sr):
        ag = sr.random() < 0.3
        b = common(sr, ag=ag, lifetimes=0, nodes=[1, 6], actions=[1, 4])
        stop = not b["ndebug"]

        def hist(r):
            if ag:
                return {"scen": "ag", "opts": {"runs": r.randint(1, 2), "tree": r.choice([3, 10]), "mand": 1, "accs": 1, "early": int(stop and r.random() < 0.4)}}
            if r.random() < 0.3:
                return {"scen": "drive", "opts": drive_opts(r, "c3A4m1b1" + r.choice(["", "r1", "n1y1"]) + ("X1" if stop else ""), runs=1, verb=0, budget=r.choice([10, 40]))}
            return {"scen": "tree", "opts": drive_opts(r, "c1A2m1", runs=1, verb=0, ops=r.choice([10, 30]), budget=10, accs=r.choice([3, 6, 8]), early=int(stop and r.random() < 0.7))}
        b["hist"] = hist
        return b
    sampled(ctx, campaign(ctx, ctx.scale(300, 2800), ctx.scale(24, 60), ["access", "tree"], mk))


def c_oom(ctx):
    """allocations fail at seeded points of otherwise ordinary histories"""
    def mk(sr):
        ag = sr.random() < 0.2
        b = common(sr, ag=ag, lifetimes=0, nodes=[1, 5], actions=[1, 6])

        def hist(r):
            if ag:
                return {"scen": "ag", "opts": {"runs": 1, "tree": r.choice([3, 10]), "mand": 1}}
            return {"scen": r.choice(["drive", "tree"]), "opts": drive_opts(r, "c3y2m2b1n2w2I1N1t1r1", runs=r.randint(1, 2), check=0, ops=r.choice([8, 20]), budget=r.choice([10, 30]), warm=r.randrange(2))}
        b["hist"] = hist
        return b
    n, per, k = ctx.scale(160, 1400), ctx.scale(6, 12), ctx.scale(12, 40)
    ctx.seeds.append("%s/%s" % (ctx.prop, ctx.seed))
    for lo in range(0, n, 30):
        if ctx.out_of_time() or ctx.done():
            return
        cs = []
        for i in range(lo, min(n, lo + 30)):
            base = mk(ctx.rng("spec", i))
            for j in range(per):
                r = ctx.rng("run", i, j)
                c = {"kind": "rt", **{a: v for a, v in base.items() if a != "hist"}, "sets": sets_of(r), "rules": ["oom"]}
                c.update(base["hist"](r))
                cs.append(c)
        # how many allocations does each history make?
        pairs = ctx.execute(cs)
        for c, res in pairs:
            if isinstance(res, rtgen.Failed):
                continue
            core.check_simerr(res)
            r = random.Random(json.dumps(c["sets"]))
            m = res[0][0].alloc
            if m:
                c["faulty"] = [[[r.choice([ALLOC, ALLOC, ALLOC_STICKY]), r.randrange(1, m + 1), 0]] for _ in range(k)]
        note_sample(ctx, ctx.run(cs))

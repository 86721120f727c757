"""Campaign machinery shared by all checks: case kinds, execution, the
reproducibility gate, minimisation, replay files, known findings, evidence."""
import collections, hashlib, json, os, random, re, sys, time, traceback
import build, simrun
from simrun import SimError, KINDS as FKINDS

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known_findings.json")
REPLAYS = os.path.join(VERIF, "replays")


class Kind:
    """One sort of case.  A case is a JSON-able dict; everything a verdict needs is in it."""
    name = None

    def exe(self, case):
        raise NotImplementedError

    def runs(self, case):
        """the simulated runs a verdict on this case needs"""
        raise NotImplementedError

    def judge(self, case, res):
        """[(rule, detail)] violated; res: list (per run) of [StepRes]"""
        raise NotImplementedError

    def shrinks(self, case, execute):
        """smaller candidate cases, most aggressive first"""
        return []

    def cover(self, ctx, case, res):
        pass


REG = {}


def kind(cls):
    REG[cls.name] = cls()
    return cls


class Violation(Exception):
    pass


class NoExe:
    """stands for the results of a case whose executable could not be built: the reason is part of the verdict"""

    def __init__(self, rule, detail):
        self.rule, self.detail = rule, detail


def res_sig(res):
    if isinstance(res, NoExe):
        return "no-exe " + hashlib.sha256((res.rule + res.detail).encode()).hexdigest()[:24]
    h = hashlib.sha256()
    for r in res:
        for s in r:
            h.update(s.sig().encode())
    return h.hexdigest()[:32]


def check_simerr(res):
    if isinstance(res, NoExe):
        return
    for r in res:
        for s in r:
            if s.simerr or s.code in (simrun.C_SIMERR, simrun.C_HARNESS):
                raise SimError("simulator limit %d (code %d): %s" % (s.simerr, s.code, (s.trace[-3:], s.err[-300:])))


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.cap = 600 if tier == "quick" else 5400
        self.stats = collections.Counter()
        self.faults = collections.Counter()
        self.distinct = {}
        self.viol = []
        self.known_hit = {}
        self.samples = []
        self.sim_us = 0
        self.runs_n = 0
        self.steps_n = 0
        self.simclock = 0
        self.assumptions = []
        self.real, self.stub = [], []
        self.seeds = []
        self.notes = []
        self.max_viol = 3

    def rng(self, *tag):
        return random.Random("%s/%s/%s" % (self.prop, self.seed, "/".join(map(str, tag))))

    def quick(self):
        return self.tier == "quick"

    min_left = 90.0  # seconds for minimising, all violations together

    def scale(self, q, t):
        return q if self.quick() else t

    def out_of_time(self):
        return time.time() - self.t0 > self.cap

    def seen(self, measure, item):
        s = self.distinct.setdefault(measure, set())
        n = len(s)
        s.add(item)
        return len(s) > n

    # -- execution
    def execute(self, cases):
        """cases of any kinds; returns [(case, res)]"""
        for name in sorted({c["kind"] for c in cases}):
            if hasattr(REG[name], "prepare"):
                REG[name].prepare([c for c in cases if c["kind"] == name])
        groups = collections.OrderedDict()
        out = [None] * len(cases)
        for i, c in enumerate(cases):
            x = REG[c["kind"]].exe(c)
            if isinstance(x, NoExe):
                out[i] = x
            else:
                groups.setdefault(x, []).append(i)
        jobs = []
        for exe, idx in groups.items():
            for i in idx:
                rs = REG[cases[i]["kind"]].runs(cases[i])
                jobs.append((exe, i, rs))
        # chunk by executable
        from concurrent.futures import ThreadPoolExecutor
        work = []
        by = collections.OrderedDict()
        for exe, i, rs in jobs:
            by.setdefault(exe, []).append((i, rs))
        total = sum(len(rs) for _, _, rs in jobs)
        target = max(1, min(96, total // 16 + 1))
        for exe, lst in by.items():
            cur, n = [], 0
            for i, rs in lst:
                cur.append((i, rs))
                n += len(rs)
                if n >= target:
                    work.append((exe, cur))
                    cur, n = [], 0
            if cur:
                work.append((exe, cur))

        def do(w):
            exe, lst = w
            flat = [r for _, rs in lst for r in rs]
            rr = simrun.exec_plan(exe, flat)
            o, p = [], 0
            for i, rs in lst:
                o.append((i, rr[p:p + len(rs)]))
                p += len(rs)
            return o
        with ThreadPoolExecutor(8) as ex:
            for o in ex.map(do, work):
                for i, res in o:
                    out[i] = res
        return list(zip(cases, out))

    def run(self, cases):
        """execute, judge, account; returns results"""
        if self.out_of_time() or self.done():
            return []
        pairs = self.execute(cases)
        for c, res in pairs:
            check_simerr(res)
            k = REG[c["kind"]]
            for r in [] if isinstance(res, NoExe) else res:
                self.runs_n += 1
                for s in r:
                    self.steps_n += 1
                    self.sim_us += s.us
                    self.stats["sim_ops"] += s.ops
                    self.stats["sim_events"] += s.events
                    for f, n in s.fired.items():
                        self.faults[FKINDS[f]] += 1
            k.cover(self, c, res)
            vs = k.judge(c, res)
            if hasattr(k, "judged"):
                k.judged(self, c)
            if vs:
                self.violation(c, res, vs)
                if self.done():
                    break
            else:
                self.stats["held"] += 1
        return pairs

    # -- violations
    def done(self):
        return len(self.viol) >= self.max_viol or (self.viol and (self.min_left <= 0 or time.time() - self.t_viol > 120))

    def known(self, rule, detail):
        for e in load_known():
            if e.get("status") == "known" and e["property"] == self.prop and e["rule"] == rule and re.search(e["match"], detail):
                return e
        return None

    def violation(self, case, res, vs):
        rule, detail = vs[0]
        e = None
        for r, d in vs:
            e = self.known(r, d)
            if not e:
                rule, detail = r, d
                break
        if e:
            self.known_hit[e["id"]] = e
            self.stats["known_findings_seen"] += 1
            return
        sig = res_sig(res)
        for _ in range(2):
            (_, r2), = self.execute([case])
            if res_sig(r2) != sig:
                raise SimError("nondeterministic execution for a violating case (%s: %s)" % (rule, detail))
        t0 = time.time()
        case2, res2, vs2 = self.minimise(case, rule, max(5.0, min(60.0, self.min_left)))
        self.min_left -= time.time() - t0
        detail2 = next(d for r, d in vs2 if r == rule)
        key = (rule, re.sub(r"\d+", "N", detail2)[:160])
        if key in [v["key"] for v in self.viol]:
            self.stats["duplicate_violations"] += 1
            return
        os.makedirs(REPLAYS, exist_ok=True)
        body = {"property": self.prop, "tier": self.tier, "seed": self.seed, "rule": rule, "detail": detail2, "case": case2,
                "signature": res_sig(res2), "original_case_seed": case.get("seed"), "log": [] if isinstance(res2, NoExe) else [s.trace[-60:] for r in res2 for s in r][:6]}
        path = os.path.join(REPLAYS, "%s-%s.json" % (self.prop, hashlib.sha256(json.dumps(case2, sort_keys=True).encode()).hexdigest()[:12]))
        with open(path, "w") as f:
            json.dump(body, f, indent=1)
        # a fresh process must reach the same verdict from the file alone
        import subprocess
        p = subprocess.run([sys.executable, os.path.join(VERIF, "dst", "check.py"), "--property", self.prop, "--replay", path],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 1:
            raise SimError("replay of %s did not reproduce: rc=%d %s" % (path, p.returncode, p.stdout.decode()[-800:]))
        if not self.viol:
            self.t_viol = time.time()
        self.viol.append({"key": key, "rule": rule, "detail": detail2, "replay": path})
        print("  rule %s: %s" % (rule, detail2[:600]))
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        sys.stdout.flush()

    def minimise(self, case, rule, budget=60.0, tries=400):
        k = REG[case["kind"]]
        t0 = time.time()
        (c, res), = self.execute([case])
        vs = k.judge(c, res)
        n = 0
        progress = True
        while progress and time.time() - t0 < budget and n < tries:
            progress = False
            for cand in k.shrinks(case, self.execute):
                n += 1
                if time.time() - t0 > budget or n > tries:
                    break
                try:
                    (_, r2), = self.execute([cand])
                    check_simerr(r2)
                    v2 = k.judge(cand, r2)
                except (SimError, build.BuildError):
                    continue
                if any(r == rule for r, _ in v2) and not all(self.known(r, d) for r, d in v2):
                    case, res, vs = cand, r2, v2
                    progress = True
                    break
        return case, res, vs

    # -- results
    def evidence(self, nontrivial_key, rule):
        wall = time.time() - self.t0
        dist = {k: len(v) for k, v in self.distinct.items()}
        cov = {
            "evaluations": self.runs_n,
            "distinct_nontrivial": dist.get(nontrivial_key, 0),
            "rule": rule,
            "samples": self.samples[:8],
            "runs_per_hour": int(self.runs_n / max(wall, 0.01) * 3600),
            "seeds": self.seeds[:50],
            "seeds_used": len(self.seeds),
            "simulated_steps": self.stats["sim_ops"],
            "simulated_process_runs": self.steps_n,
            "faults_injected": dict(self.faults),
            "distinct_measures": {k: v for k, v in dist.items() if k != nontrivial_key},
            "distinct_nontrivial_measure": nontrivial_key,
            "counters": {k: v for k, v in self.stats.items() if k != "sim_ops"},
            "components_real": self.real,
            "components_stubbed": self.stub,
            "simulated_time": "the code under test has no timers; progress is counted in simulated operations (simulated_steps)",
            "notes": self.notes,
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": LEVEL, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(wall, 2), "violations": len(self.viol)}
        cov["violations_found"] = [{"rule": v["rule"], "detail": v["detail"][:500], "replay": v["replay"]} for v in self.viol]
        return ev


LEVEL = "exploration"


def load_known():
    if os.path.exists(KNOWN):
        return json.load(open(KNOWN))["findings"]
    return []

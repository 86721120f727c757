#!/usr/bin/env python3
"""check.py --property ID [--tier quick|thorough] [--replay FILE]

exit 0: the property held on everything explored; exit 1 with a VIOLATION line:
it is broken; any other exit: no verdict (error of the machinery)."""
import argparse, json, os, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import build, core, simrun
import props


def replay(prop, path):
    body = json.load(open(path))
    case = body["case"]
    k = core.REG[case["kind"]]
    ctx = core.Ctx(prop, "quick", 1)
    (_, res), = ctx.execute([case])
    core.check_simerr(res)
    vs = k.judge(case, res)
    sig = core.res_sig(res)
    for r in [] if isinstance(res, core.NoExe) else res[:8]:
        for s in r:
            print("exit %d, %d fs ops, %d allocations, faults fired %s" % (s.code, s.fs, s.alloc, s.fired))
    for rule, d in vs:
        print("rule %s: %s" % (rule, d))
    print("signature %s (recorded %s)" % (sig, body["signature"]))
    if any(r == body["rule"] for r, _ in vs):
        if sig != body["signature"]:
            print("same rule violated, but the execution is not the recorded one (different tree?)")
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("the replay file does not violate %s on this tree" % prop)
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    if a.replay:
        return replay(a.property, a.replay)
    global CTX
    CTX = ctx = core.Ctx(a.property, a.tier, a.seed)
    p = props.PROPS[a.property]
    p.setup(ctx)
    p.campaign(ctx)
    p.known(ctx)
    ev = ctx.evidence(p.measure, p.rule)
    os.makedirs(os.path.join(build.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(build.VERIF, "evidence", a.property + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for e in ctx.known_hit.values():
        print("KNOWN-FINDING: property=%s %s" % (a.property, e["text"]))
    print("%s %s seed=%d: %d simulated runs, %d faults fired, %d violations, %.1f s, %s" % (
        a.property, a.tier, a.seed, ctx.runs_n, sum(ctx.faults.values()), len(ctx.viol), time.time() - ctx.t0, {k: len(v) for k, v in ctx.distinct.items()}))
    if ctx.viol:
        return 1
    if ctx.runs_n == 0 or not ctx.distinct.get(p.measure):
        print("error: nothing was explored")
        return 3
    return 0


CTX = None

if __name__ == "__main__":
    rc = 4
    try:
        rc = main()
    except build.BuildError as e:
        print("build error: %s" % e)
        rc = 2
    except simrun.SimError as e:
        print("simulator error: %s" % e)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 4
    finally:
        if CTX is not None and CTX.viol:
            rc = 1
        simrun.cleanup()
    sys.stdout.flush()
    sys.exit(rc)

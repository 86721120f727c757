"""palm's hash tables and diagnostics under simulation, against reference models."""
import hashlib, json, posixpath, random, re
import build, core
from simrun import *
from genk import HEAPS, bad_end
from rtk import oom, sets_of


def harness():
    return build.harness("palm", "palm_main.c", "palm_dbg.c", "palm_dbg_off.c")


class Bad(Exception):
    pass


def unesc(s):
    return re.sub(r"\\(.)", lambda m: "\n" if m.group(1) == "n" else m.group(1), s)


def map_model(ev, stat):
    """raises Bad(detail); ev: events of one history"""
    tabs, kinds = {}, {}
    p = 0

    def nxt(what):
        nonlocal p
        if p >= len(ev):
            raise Bad("the history ends during %s" % what)
        p += 1
        return ev[p - 1].split(" ")

    def eq(what, got, exp):
        if int(got) != exp:
            raise Bad("%s yields %s instead of %d" % (what, got, exp))
    KD = ["a string", "a pointer", "an integer", "a colliding"]
    while p < len(ev):
        w = nxt("")
        op = w[0]
        stat["op_" + op] = stat.get("op_" + op, 0) + 1
        if op == "END":
            d = dict(x.split("=") for x in w[1:])
            if int(d["live"]):
                raise Bad("%s blocks are left after every table was deleted" % d["live"])
            return
        if op == "new":
            tabs[w[1]], kinds[w[1]] = {}, int(w[2])
            continue
        t = tabs[w[1]]
        name = "%s table of %d entries" % (KD[kinds[w[1]]], len(t))
        if op == "ins":
            eq("insertion into %s" % name, w[4], 1)
            t[int(w[2])] = int(w[3])
            stat["max_entries"] = max(stat.get("max_entries", 0), len(t))
        elif op == "get":
            eq("lookup of %s key in %s" % ("a present" if int(w[2]) in t else "an absent", name), w[3], t.get(int(w[2]), 0))
        elif op == "rem":
            eq("removal of %s key from %s" % ("a present" if int(w[2]) in t else "an absent", name), w[3], t.pop(int(w[2]), 0))
        elif op == "clr":
            t.clear()
        elif op == "del":
            del tabs[w[1]]
        elif op == "cnt":
            eq("element count of %s" % name, w[2], len(t))
        elif op == "cpy":
            tabs[w[2]], kinds[w[2]] = dict(t), kinds[w[1]]
        elif op == "dcp":
            ks, vs = [], []
            while True:
                x = nxt("a deep copy")
                if x[0] == "/dcp":
                    break
                if x[0] == "ck":
                    ks.append(int(x[1]))
                elif x[0] == "cv":
                    vs.append(int(x[1]))
                else:
                    raise Bad("unexpected %s during a deep copy" % x)
            if sorted(ks) != sorted(t) or sorted(vs) != sorted(t.values()):
                raise Bad("deep copy of %s copies %d keys and %d values" % (name, len(ks), len(vs)))
            tabs[w[2]], kinds[w[2]] = {k: v + int(w[3]) for k, v in t.items()}, kinds[w[1]]
        elif op == "map":
            seen = []
            add, fold = int(w[3]), w[2] == "3"
            while True:
                x = nxt("a map")
                if x[0] == "/map":
                    break
                if x[0] != "c" or len(x) > 3:
                    raise Bad("map over %s: unexpected %s" % (name, " ".join(x)))
                seen.append((x[1], int(x[2])))
            what = ["HTmap", "HTmapWithKey", "HTmapWithDataAndKey", "HTfold"][int(w[2])]
            exp = sorted((str(k) if w[2] in "12" else "-", v) for k, v in t.items())
            if sorted(seen) != exp:
                raise Bad("%s over %s visits %s instead of %s" % (what, name, sorted(seen)[:6], exp[:6]))
            if not fold:
                for k in t:
                    t[k] += add
        elif op == "it":
            seen, cancelled = [], False
            while True:
                x = nxt("an iteration")
                if x[0] == "/it":
                    break
                if x[0] == "e":
                    k = int(x[1])
                    if k not in t or k in seen:
                        raise Bad("iteration over %s visits %s key" % (name, "an absent" if k not in t else "the same"))
                    eq("the iterator of %s" % name, x[2], t[k])
                    seen.append(k)
                elif x[0] == "s":
                    t[seen[-1]] = int(x[1])
                    eq("the iterator after setting a value of %s" % name, x[2], int(x[1]))
                elif x[0] == "x":
                    cancelled = True
                else:
                    raise Bad("unexpected %s during an iteration" % x)
            if not cancelled and len(seen) != len(t):
                raise Bad("iteration over %s visits %d entries" % (name, len(seen)))
        else:
            raise Bad("unexpected event %s" % w)
    raise Bad("the history ends early")


def hexs(ev, p, tag):
    """the string at ev[p] (over several events when long), and the next position"""
    out = b""
    first = True
    while p < len(ev) and ev[p].startswith(("" if first else "+") + tag + " "):
        h = ev[p].split(" ")[1]
        if h == "NULL":
            return None, p + 1
        out += bytes.fromhex(h)
        first = False
        p += 1
    return out, p


LOW = bytes(c + 32 if 65 <= c <= 90 else c for c in range(256))
UPP = bytes(c - 32 if 97 <= c <= 122 else c for c in range(256))


def str_model(ev, stat):
    pool = {str(i): None for i in range(10)}
    tok = None      # what is left to tokenize
    args, op = [], None
    p = 0

    def show(x):
        return "NULL" if x is None else repr(x)[1:][:70]

    def call():
        return "%s(%s)" % (" ".join(op), ", ".join(show(a) for a in args))

    def wrong(got, exp):
        raise Bad("%s yields %s instead of %s" % (call(), show(got) if not isinstance(got, int) else got, show(exp) if not isinstance(exp, (bool, int)) else int(exp)))
    while p < len(ev):
        w = ev[p].split(" ")
        if w[0] == "a":
            x, p = hexs(ev, p, "a")
            args.append(x)
            continue
        p += 1
        if w[0] == "op":
            op = w[1:]
            stat["op_" + op[0]] = stat.get("op_" + op[0], 0) + 1
            if op[0] == "onnull":
                if op[3] != ("str" if pool[op[2]] is not None else "alt"):
                    raise Bad("STRonNull yields neither its string nor the alternative")
                args, op = [], None
        elif w[0] in ("f", "flip"):
            if w[0] == "f":
                pool[w[1]] = None
        elif w[0] == "=":
            a = args
            n, v = op[0], int(w[1])
            x, y = a[0], a[-1]
            if n == "eq":
                exp = x == y
            elif n == "eqci":
                exp = x == y if x is None or y is None else x.translate(LOW) == y.translate(LOW)
            elif n == "eqn":
                k = int(op[1])
                exp = (k == 0 or x == y) if x is None or y is None else x[:k] == y[:k]
            elif n == "len":
                exp = len(x or b"")
            elif n == "prefix":
                exp = y is None or x is not None and x.startswith(y)
            elif n == "suffix":
                exp = x.endswith(y)
            elif n == "sub":
                exp = y is None or x is not None and y in x
            else:
                raise Bad("unexpected event %s" % w)
            if v != exp:
                wrong(v, exp)
            args, op = [], None
        elif w[0] == "r":
            got, p = hexs(ev, p, "v")
            n = op[0]
            x = args[0] if args else None
            either = False
            if n == "cpy" or n == "memcopy":
                exp = x
            elif n == "ncpy":
                exp = None if x is None else x[:int(op[1])]
            elif n == "cat":
                exp = None if args == [None, None] else b"".join(a or b"" for a in args)
            elif n == "catn":
                exp = b"".join(a or b"" for a in args)
                either = not exp
            elif n == "fmt":
                exp = args[0] + b"<%d>" % int(op[1]) + args[1][:3].rjust(5) + b"|%"
            elif n == "itoa":
                exp = b"%d" % int(op[1])
            elif n in ("lower", "upper"):
                exp = None if x is None else x.translate(LOW if n == "lower" else UPP)
            elif n in ("tolower", "toupper"):
                x = pool[w[1]]
                exp = None if x is None else x.translate(LOW if n == "tolower" else UPP)
            elif n in ("tok0", "tok"):
                sep = args[-1] or b""
                if n == "tok0":
                    tok = args[0]
                if tok is None:
                    exp = None
                else:
                    k = next((i for i, c in enumerate(tok) if c in sep), None)
                    exp, tok = (tok, None) if k is None else (tok[:k], tok[k + 1:])
            elif n == "substr":
                k, l = int(op[1]), int(op[2])
                if l < 0:
                    l += len(x)
                exp = x[k:k + max(l, 0)]
            elif n == "subst":
                exp = None if x is None else x.replace(args[-2], args[-1])
            elif n == "null":
                exp = b""
            elif n == "realloc":
                exp = pool[w[1]][:int(op[2]) - 1]
            else:
                raise Bad("unexpected event %s" % w)
            if got != exp and not (either and got is None):
                wrong(got, exp)
            pool[w[1]] = got
            args, op = [], None
        elif w[0] == "s":
            got, p = hexs(ev, p, "v")
            if got != pool[w[1]]:
                raise Bad("a string changes from %s to %s while other strings are worked on" % (show(pool[w[1]]), show(got)))
        elif w[0] == "BAD":
            raise Bad("the result of %s is memory of another live string" % call() if w[1] == "shared" else "MEMfree does not yield NULL")
        elif w[0] == "END":
            d = dict(x.split("=") for x in w[1:])
            if int(d["live"]):
                raise Bad("%s blocks are left after every string was released" % d["live"])
            return
        else:
            raise Bad("unexpected event %s" % w)
    raise Bad("the history ends early")


WIDTH = 116     # of a line of a message
HEAD = {0: "", 1: "note:", 2: "warning:", 3: "error:"}


def location(f, l, c, ll, lc, src):
    """how a place is written, the words of its source line, and the mark below it"""
    if c <= 0:
        return "%s:%d" % (f, l), None, None
    one = ll <= 0 or ll == l
    under = " " * (c - 1) + "^"
    src = src.split() if src is not None else None
    if lc <= 0 or one and c == lc:
        return "%s:%d:%d" % (f, l, c), src, under
    if one:
        return "%s:%d.%d-%d" % (f, l, c, lc), src, under + "~" * max(0, lc - c) + "\n"
    return "%s:%d.%d-%d.%d" % (f, l, c, ll, lc), src, under


def cti_model(ev, st, stat, console_ok):
    exp = []   # expected tokens of the console: str or ("loc", file, line, source words or None)
    err = warn = 0
    p = 0
    end = None

    def cont(tag):
        nonlocal p
        s = []
        while p < len(ev) and (ev[p].startswith(tag + " ") and not s or ev[p].startswith("+" + tag + " ") and s):
            s.append(ev[p].split(" ", 1)[1])
            p += 1
        return unesc("".join(s))
    while p < len(ev):
        w = ev[p].split(" ")
        p += 1
        stat["op_" + w[0]] = stat.get("op_" + w[0], 0) + 1
        if w[0] == "M":
            k = int(w[1])
            txt = cont("t")
            err += k == 3
            warn += k == 2
            words = HEAD[k].split() + txt.split()
            # the lines of the text stay lines
            first = {0}
            n = len(HEAD[k].split())
            for j, para in enumerate(txt.split("\n")):
                if j and para.split() and n != len(HEAD[k].split()):
                    first.add(n)
                n += len(para.split())
            # a message of words that all fit in a line is wrapped to the line length
            if words and all(len(x) < WIDTH - 20 for x in words):
                exp.append(("fit", len(words)))
            exp += [("first", x) if j in first else x for j, x in enumerate(words)]
            if p < len(ev) and ev[p].startswith("O "):
                o = ev[p].split(" ")
                p += 1
                src = cont("l") if p < len(ev) and ev[p].startswith("l ") else None
                exp.append(("loc",) + location(o[1], *map(int, o[2:6]), src))
            exp.append(("nl", int(w[2])))
        elif w[0] == "Q":
            if (int(w[1]), int(w[2])) != (err, warn):
                raise Bad("%s errors and %s warnings are counted instead of %d and %d" % (w[1], w[2], err, warn))
        elif w[0] in ("A", "AC"):
            if w[0] == "AC" or err:
                end = w[0]
                if p < len(ev):
                    raise Bad("the compilation is not aborted %s" % ("on an error" if w[0] == "A" else "on request"))
            else:
                if p >= len(ev):
                    raise Bad("CTIabortOnError ends the compilation without an error")
                p += 1
        elif w[0] == "AM":
            end = "AM"
            err += 1
            exp += ("abort: Out of memory: abort: %s bytes requested" % w[1]).split()
            if p < len(ev):
                raise Bad("the compilation is not aborted when out of memory")
        elif w[0] == "SIG":
            end = w[0] + w[1]
            if p < len(ev):
                raise Bad("the run goes on after a signal")
        elif w[0] == "END":
            break
    if end == "SIG2":
        pass    # interrupted by the user: ends, whatever the status
    elif end in ("SIG0", "SIG1"):
        if st.code != 1:
            raise Bad("a crash of the compiler exits with %d" % st.code)
        exp += "OOOPS your program crashed the compiler 8-((".split()
    elif end:
        if st.code != 1:
            raise Bad("aborting the compilation exits with %d" % st.code)
        exp += ("*** Compilation failed *** *** %d Error(s), %d Warning(s)" % (err, warn)).split()
    elif st.code != 0:
        raise Bad("exit status %d" % st.code)
    if not console_ok:
        return
    raw = st.err.decode("latin1")
    lines = [l.split() for l in raw.split("\n")]
    got = [x for l in lines for x in l]
    at = [(n, j) for n, l in enumerate(lines) for j in range(len(l))]
    i = 0
    rawl = raw.split("\n")
    for ie, e in enumerate(exp):
        if isinstance(e, tuple) and e[0] == "nl":
            # an empty line follows the message if it was asked for (judged when another one follows)
            if ie + 1 < len(exp) and isinstance(exp[ie + 1], tuple) and i:
                n = at[i - 1][0] + 1
                while n < len(rawl) and rawl[n] and not rawl[n].strip():
                    n += 1
                blank = n < len(rawl) and not rawl[n]
                if blank != bool(e[1]):
                    raise Bad("a message is%s followed by an empty line" % ("" if blank else " not"))
            continue
        if isinstance(e, tuple) and e[0] == "fit":
            stat["wrapped"] = stat.get("wrapped", 0) + 1
            for n in sorted(set(a for a, _ in at[i:i + e[1]])):
                if len(rawl[n]) > WIDTH:
                    raise Bad("a message is not wrapped to the length of a line: %r" % rawl[n][:160])
            continue
        if isinstance(e, tuple) and e[0] == "first":
            e = e[1]
            if got[i:i + 1] == [e] and at[i][1]:
                raise Bad("%r does not begin a line of its message" % e[:80])
        stat["words"] = stat.get("words", 0) + 1
        if isinstance(e, tuple):
            _, loc, src, under = e
            if got[i:i + 2] != ["-->", loc]:
                raise Bad("location %s of a message is reported as %s" % (loc, got[i:i + 2]))
            i += 2
            if src is not None:
                if ("\n    " + under) not in raw:
                    raise Bad("the place %s in a source line is not marked: %r" % (loc, under))
                if got[i:i + 1] != ["|>"] or got[i + 1:i + 1 + len(src)] != src or not re.match(r"^\^~*$", "".join(got[i + 1 + len(src):i + 2 + len(src)])):
                    raise Bad("the source line of a message is reported as %s" % got[i:i + 4])
                i += 2 + len(src)
            continue
        if got[i:i + 1] != [e]:
            raise Bad("the text of a message is reported as %r where %r is expected" % (" ".join(got[i:i + 3])[:80], e[:80]))
        i += 1
    if i != len(got):
        raise Bad("unexpected output %r" % " ".join(got[i:i + 4])[:100])


def dbg_model(ev, st, stat, console_ok):
    """debug output appears until it is turned off, failing assertions end the run; directories are made, or the run ends"""
    out, err, on, p = "", "", True, 0
    dirs, files = {"."}, set()
    ev = [e for e in ev if not e.startswith(("IOFAULT", "REMOVE"))]

    def norm(q):
        return posixpath.normpath(q)
    while p < len(ev):
        w = ev[p].split(" ")
        p += 1
        stat["op_" + w[0]] = stat.get("op_" + w[0], 0) + 1
        if w[0] == "D":
            op, mod, off, x = map(int, w[1:])
            s = []
            while p < len(ev) and (ev[p].startswith("t ") and not s or ev[p].startswith("+t ")):
                s.append(ev[p].split(" ", 1)[1])
                p += 1
            b = unesc("".join(s))
            if op == 4 and not x & 1:
                if p >= len(ev) or ev[p] != "else":
                    raise Bad("a conditional assertion takes the other branch with it")
                p += 1
            elif op == 6:
                at = ev[p].split(" ")
                p += 1
                if not off:
                    if p < len(ev):
                        raise Bad("the run goes on after a failed assertion")
                    if st.code != -6:
                        raise Bad("a failed assertion ends the run with %d" % st.code)
                    if console_ok:
                        said = st.err.decode("latin1")
                        if not said.startswith(err):
                            raise Bad("debug output %r is lost" % err[-80:])
                        for y in [at[1].split("/")[-1], at[2], at[3], "%s %d" % (b, x)]:
                            if y not in said[len(err):]:
                                raise Bad("the report of a failed assertion lacks %r: %r" % (y, said[len(err):][:200]))
                        if st.out.decode("latin1") != out:
                            raise Bad("debug output before a failed assertion is %r instead of %r" % (st.out[-80:].decode("latin1"), out[-80:]))
                    return
            if p >= len(ev):
                raise Bad("the run ends in debug output, or in an assertion that holds")
            if not off:
                said = {0: b, 1: "%s %d: z\n" % (b, x), 2: "all of 100%\n"}.get(op)
                if said is not None and on:
                    out += ("[mo%d of] " if mod else "") + said
                if op == 3 and on:
                    err += "[he%%d] %s %d\n" % (b, x)
            n = 0 if off else 1 if op == 5 or op == 4 and x & 1 else 0
            e = ev[p].split(" ")
            p += 1
            if e[0] != "/D" or int(e[1]) != n:
                raise Bad("the condition of an assertion is evaluated %s times instead of %d%s" % (e[1], n, " in a build without assertions" if off else ""))
        elif w[0] == "O":
            on = False
        elif w[0] == "F":
            q = norm(w[1])
            par = posixpath.dirname(q) or "."
            ok = q in dirs or q not in files and par in dirs
            if p >= len(ev):
                if ok and not (st.fired.get(FS) or st.fired.get(FS_STICKY)):
                    raise Bad("a directory that %s ends the run" % ("exists" if q in dirs else "can be made"))
                if st.code != 1:
                    raise Bad("a directory that can not be made ends the run with %d" % st.code)
                if console_ok and w[1] not in st.err.decode("latin1"):
                    raise Bad("the message lacks the directory that can not be made: %r" % st.err[-120:].decode("latin1"))
                break
            p += 1
            if not ok:
                raise Bad("a directory that can not be made goes unnoticed")
            dirs.add(q)
        elif w[0] == "W":
            if int(w[2]):
                files.add(norm(w[1]))
        elif w[0] == "R":
            if int(w[2]):
                dirs.discard(norm(w[1]))
        elif w[0] == "U":
            if int(w[2]):
                files.discard(norm(w[1]))
        elif w[0] == "END":
            if st.code != 0:
                raise Bad("exit status %d" % st.code)
    have = {q for q, v in st.vfs.items() if v.isdir}, {q for q, v in st.vfs.items() if not v.isdir}
    if have[0] != dirs - {"."} or have[1] != files:
        raise Bad("the directories are %s and the files %s instead of %s and %s" % (sorted(have[0]), sorted(have[1]), sorted(dirs), sorted(files)))
    if not console_ok:
        return
    if st.out.decode("latin1") != out:
        raise Bad("debug output is %r instead of %r" % first_diff(st.out.decode("latin1"), out))
    if not st.err.decode("latin1").startswith(err):
        raise Bad("debug output is %r instead of %r" % first_diff(st.err.decode("latin1"), err))


def first_diff(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    i = max(0, i - 20)
    return a[i:i + 80], b[i:i + 80]


@core.kind
class Palm(core.Kind):
    name = "palm"

    def exe(self, case):
        return harness()

    def runs(self, case):
        argv = ["palm", case["scen"]] + ["%s=%s" % kv for kv in sorted(case["opts"].items())]
        s = {"max_ops": 2000000, **case["sets"]}
        if case["scen"] == "dbg":
            s["dumpfiles"] = 1
        return [Run([Step(argv)], s)] + [Run([Step(argv, [tuple(f) for f in fs])], s) for fs in case.get("faulty", [])]

    def one(self, case, st, console_ok):
        b = bad_end(st, "run")
        if b and not (case["scen"] == "dbg" and st.code == -6):
            return b
        try:
            if case["scen"] in ("map", "str"):
                (map_model if case["scen"] == "map" else str_model)(st.trace, self.last)
                if st.code != 0:
                    return [(case["scen"], "exit status %d" % st.code)]
            elif case["scen"] == "dbg":
                dbg_model(st.trace, st, self.last, console_ok)
            else:
                cti_model(st.trace, st, self.last, console_ok)
        except Bad as x:
            return [(case["scen"], str(x))]
        except (IndexError, KeyError, ValueError) as x:
            return [(case["scen"], "inconsistent history (%s %s)" % (type(x).__name__, x))]
        return []

    def judge(self, case, res):
        self.last = {}
        base = res[0][0]
        out = self.one(case, base, True)
        for fs, r in zip(case.get("faulty", []), res[1:]):
            if fs[0][0] == CON:
                out += self.one(case, r[0], False)
                if not out and [e for e in r[0].trace] != base.trace:
                    out.append((case["scen"], "a failing console changes the history"))
            elif case["scen"] == "dbg":
                out += self.one(case, r[0], True)
            else:
                out += oom(case, fs, base, r[0])
        return out

    def cover(self, ctx, case, res):
        h = hashlib.sha256()
        for e in res[0][0].trace:
            w = e.split(" ")
            h.update((w[0] + (w[1] if len(w) > 1 and w[0] in ("ins", "rem", "M", "it", "map", "op") else "") + (w[2] if w[0] in ("ins", "rem") else "")).encode())
        ctx.seen("histories", h.digest()[:8])
        ctx.stats["end_%d" % res[0][0].code] += 1

    def judged(self, ctx, case):
        for k, n in self.last.items():
            if k == "max_entries":
                ctx.stats[k] = max(ctx.stats[k], n)
            else:
                ctx.stats["m_" + k] += n

    def shrinks(self, case, execute):
        o = case["opts"]
        fs = case.get("faulty", [])
        for f in fs:
            if len(fs) > 1:
                yield {**case, "faulty": [f]}
        if fs:
            yield {**case, "faulty": []}
        n = int(o["ops"])
        for v in sorted({1, n // 4, n // 2, n - n // 4, n - 1}):
            if 0 < v < n:
                yield {**case, "opts": {**o, "ops": v}}
        if int(o.get("keys", 0)) > 1:
            yield {**case, "opts": {**o, "keys": int(o["keys"]) // 2}}
        simple = {"heap_mode": 0, "heap_reuse": 0, "heap_fill": 257}
        if any(case["sets"].get(k) != x for k, x in simple.items()):
            yield {**case, "sets": {**case["sets"], **simple}}


def campaign(ctx, scen, n, k):
    ctx.seeds.append("%s/%s" % (ctx.prop, ctx.seed))
    for lo in range(0, n, 400):
        if ctx.out_of_time() or ctx.done():
            return
        cs = []
        for i in range(lo, min(n, lo + 400)):
            r = ctx.rng("run", i)
            o = {"ops": r.choice([10, 40, 150, 500])}
            if scen == "map":
                o.update(keys=r.choice([2, 6, 16, 40]), spread=r.randrange(4))
            elif scen == "dbg":
                o["ops"] = r.choice([5, 15, 40, 120])
            else:
                o["ops"] = r.choice([3, 10, 40])
            c = {"kind": "palm", "scen": scen, "opts": o, "sets": sets_of(r)}
            cs.append(c)
        for i, (c, res) in enumerate(ctx.execute(cs)):
            core.check_simerr(res)
            r = ctx.rng("fault", lo + i)
            m = res[0][0].alloc if scen != "dbg" else 0
            f = [[[r.choice([ALLOC, ALLOC_STICKY]), r.randrange(1, m + 1), 0]] for _ in range(r.randrange(k + 1))] if m else []
            if scen == "dbg" and res[0][0].fs:
                for _ in range(r.randrange(k + 1)):
                    f.append([[r.choice([FS, FS, FS_STICKY]), r.randrange(1, res[0][0].fs + 1), r.choice([EACCES, EIO, ENOSPC, EROFS, EMFILE])]])
            if scen in ("cti", "dbg") and r.random() < 0.3:
                f.append([[CON, 1, r.choice([EIO, ENOSPC])]])
            if f:
                c["faulty"] = f
        pairs = ctx.run(cs)
        for c, res in pairs[:2]:
            if len(ctx.samples) < 6:
                ctx.samples.append({"case": c, "history_head": [x[:160] for x in res[0][0].trace[:14]], "events": len(res[0][0].trace)})

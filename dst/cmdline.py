"""What the generator's command line asks for, and where a breakpoint stops its own phases."""
LONG = {"verbose": 0, "help": 0, "dot": 1, "version": 0, "profiling": 0, "breakpoints": 0, "consistency-checks": 0, "serialise": 0, "inspectpoints": 0, "backend": 1,
        "gen-dir": 1, "show-ast": 0, "breakpoint": 1, "show-structure": 0, "debug": 0, "ag-scheduler-max-iter": 1}
SHORT = {"v": 0, "b": 1}
NAME = {"v": "verbose", "b": "breakpoint"}


def parse(args):
    """(outcome, {option: value}); outcomes run, usage (refused), help, version, structure, value (refused option value)"""
    opts, pos, i = [], [], 0
    while i < len(args):
        a = args[i]
        i += 1
        if a == "--":
            pos += args[i:]
            break
        if a.startswith("--"):
            n, eq, v = a[2:].partition("=")
            hit = [n] if n in LONG else [x for x in LONG if x.startswith(n)]
            if len(hit) != 1:
                opts.append(("?", None))
                continue
            n = hit[0]
            if LONG[n]:
                if not eq:
                    if i == len(args):
                        opts.append(("?", None))
                        continue
                    v = args[i]
                    i += 1
                opts.append((n, v))
            else:
                opts.append(("?", None) if eq else (n, None))
        elif a.startswith("-") and len(a) > 1:
            j = 1
            while j < len(a):
                c = a[j]
                j += 1
                if c not in SHORT:
                    opts.append(("?", None))
                elif not SHORT[c]:
                    opts.append((NAME[c], None))
                elif j < len(a):
                    opts.append((NAME[c], a[j:]))
                    j = len(a)
                elif i < len(args):
                    opts.append((NAME[c], args[i]))
                    i += 1
                else:
                    opts.append(("?", None))
        else:
            pos.append(a)
    o = {}
    for n, v in opts:
        if n == "?":
            return "usage", o
        if n in ("help", "version"):
            return n, o
        if n == "show-structure":
            return "structure", o
        if n == "ag-scheduler-max-iter":
            t = v.lstrip(" \t\n")
            t = t[1:] if t[:1] in ("+", "-") else t
            if not t[:1].isdigit():
                return "value", o
        if n == "backend" and v.lower() != "dynamic" and v not in ("static", "typed"):
            return "value", o
        o[n] = v
    if len(pos) != 1:
        return "usage", o
    o["input"] = pos[0]
    return "run", o


def announced(err):
    """the announcements of actions among the lines on standard error"""
    return [l for l in err.split("\n") if l.startswith((">> ", "<< ", "  *** "))]


def stop(lines, bp):
    """how many of the announcements of a run come before it stops at a breakpoint, or None"""
    if not bp:
        return None
    bp, stack = bp.lower(), []
    for i, l in enumerate(lines):
        if l.startswith(">> "):
            stack.append(bp)
            pre = l[3:].lower() + "."
            if bp.startswith(pre) and len(bp) > len(pre):
                bp = bp[len(pre):]
        elif l.startswith("<< "):
            bp = stack.pop()
            if bp == l[3:].lower():
                return i
        elif bp == l[6:].lower():
            return i + 1
    return None


def spellings(lines):
    """every action that is performed, by its name and by every path that ends in it"""
    out, stack = [], []
    for l in lines:
        if l.startswith(">> "):
            stack.append(l[3:])
            n = stack[:]
        elif l.startswith("<< "):
            stack.pop()
            continue
        else:
            n = stack + [l[6:]]
        out += [".".join(n[k:]) for k in range(len(n))]
    return sorted(set(out))

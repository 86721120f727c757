"""Reference semantics of attribute grammars: every attribute instance of a
tree has the value its equation gives, and is evaluated exactly once."""
import collections, re
import rtgen, rtmodel
from rtmodel import Exit, MNode, Model, Stop, parse_node

M64 = (1 << 64) - 1


def fnv(fn, vals):
    h = 1469598103934665603
    for c in fn.encode():
        h = ((h ^ c) * 1099511628211) & M64
    for v in vals:
        h = ((h ^ v) * 1099511628211) & M64
        h ^= h >> 29
    h ^= h >> 32
    return h


BITS = {"int": 32, "int8": 8, "int16": 16, "int32": 32, "int64": 64, "uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64}


def from_hash(sp, t, h):
    for e in sp.enums:
        if e.name == t:
            return h % (len(e.values) + 1)
    if t not in BITS and t not in ("float", "double", "bool"):
        return "NULL"
    if t in ("float", "double"):
        v = (h % 4096)
        return v / 8
    if t == "bool":
        return h & 1
    b = BITS[t]
    v = h & ((1 << b) - 1)
    if not t.startswith("u") and v >> (b - 1):
        v -= 1 << b
    return v


def agrees(t, exp, v):
    """Whether the printed value v is the value exp of type t."""
    if exp == "NULL" or v == "NULL":
        return exp == v
    try:
        return float(v) == exp if t in ("float", "double") else int(v) == exp
    except ValueError:
        return False


def to_arg(t, v):
    if t in ("float", "double"):
        return int(float(v) * 8) & M64
    return int(v) & M64


class AG:
    def __init__(self, sp, ack):
        self.sp = sp
        self.m = Model(sp, {}, ack)
        self.viol = []
        self.stat = self.m.stat
        self.eqs = {}
        self.variants = {}
        for n in sp.nodes:
            for q in n.eqs:
                self.eqs[(n.name,) + q.target] = q
                self.variants[(n.name,) + q.target] = {frozenset(gone): (fn, deps) for fn, deps, gone in rtgen.eq_variants(sp, n, q)}
        self.idx = [None] + [{a.name.lower(): k for k, a in enumerate(sp.node_attrs(n))} for n in sp.nodes]

    # expected values
    def evaluate(self, root):
        m = self.m
        parent = {}
        todo = []
        for n in m.subtree(root):
            t = m.types[n.type]
            for c, s in zip(t.children, n.ch):
                if s:
                    parent[s] = (n, c.name)
            for k, a in enumerate(m.at[n.type]):
                if a.kind:
                    todo.append((n.seq, k))
        val, calls, extra = {}, collections.Counter(), collections.Counter()

        def work(s, k):
            """one instance: (function, dependencies as (seq, attr index))"""
            n = m.nodes[s]
            a = m.at[n.type][k]
            if a.kind == "synthesized":
                return equation(n, "this", a.name)
            return equation(parent[s][0], parent[s][1], a.name)

        def equation(own, who, name):
            key = (m.types[own.type].name, who, name)
            ot = m.types[own.type]
            ch = {c.name: x for c, x in zip(ot.children, own.ch)}
            q = self.eqs[key]
            gone = frozenset(w for w, _ in q.deps if w != "this" and not ch[w])
            fn, deps = self.variants[key][gone]
            out = []
            for w, name in deps:
                d = own.seq if w == "this" else ch[w]
                out.append((d, self.idx[m.nodes[d].type][name.lower()]))
            return fn, out
        def arguments(deps):
            args = []
            for s, k in deps:
                nd = m.nodes[s]
                a = m.at[nd.type][k]
                args.append(to_arg(a.type, val[(s, k)] if a.kind else nd.attrs[k]))
            return args
        for inst in todo:
            stack = [inst]
            while stack:
                i = stack[-1]
                if i in val:
                    stack.pop()
                    continue
                fn, deps = work(*i)
                miss = [d for d in deps if m.at[m.nodes[d[0]].type][d[1]].kind and d not in val]
                if miss:
                    stack += miss
                    if len(stack) > 100000:
                        raise AssertionError("circular")
                    continue
                args = arguments(deps)
                a = m.at[m.nodes[i[0]].type][i[1]]
                val[i] = from_hash(self.sp, a.type, fnv(fn, args))
                calls[(fn,) + tuple(args)] += 1
                stack.pop()
        # the equations for a child that is absent may be evaluated, the value goes nowhere
        for n in m.subtree(root):
            t = m.types[n.type]
            ch = {c.name: x for c, x in zip(t.children, n.ch)}
            for q in t.eqs:
                if q.target[0] != "this" and not ch[q.target[0]]:
                    fn, deps = equation(n, *q.target)
                    extra[(fn,) + tuple(arguments(deps))] += 1
        return val, calls, extra

    def run(self, st):
        m = self.m
        m.ev = st.trace
        m.tail = [l for l in m.ev if l.startswith("SIMFAIL")]
        if m.tail:
            m.ev = m.ev[:m.ev.index(m.tail[0])]
        m.p = 0
        m.ctx = ["construct"]
        try:
            while True:
                e = m.next()
                w = e.split(" ")
                if w[0] == "END":
                    m.p -= 1
                    break
                if w[0] != "RUN":
                    m.op(e)
                    continue
                root = int(w[1])
                val, calls, extra = self.evaluate(root)
                m.count("attributes", len(val))
                m.ctx.append("ag")
                got = collections.Counter()
                while True:
                    e = m.next()
                    w = e.split(" ")
                    if w[0] == "EV":
                        got[(w[1],) + tuple(int(x) for x in w[2:])] += 1
                        m.count("evaluations")
                    elif w[0] == "RAN":
                        break
                    else:
                        raise Stop(("ag", "unexpected during evaluation: %s" % e[:120]))
                if got - calls - extra or calls - got:
                    for c in got - calls - extra:
                        exp = [x for x in calls if x[0] == c[0]]
                        n1, n2 = sum(got[x] for x in got if x[0] == c[0]), sum(calls[x] for x in exp)
                        if n1 != n2:
                            m.v("ag", "%s is evaluated %d times instead of %d" % (c[0], n1, n2))
                        else:
                            m.v("ag", "%s is evaluated with arguments %s; expected e.g. %s" % (c[0], c[1:], exp[0][1:] if exp else None))
                        break
                    else:
                        c = next(iter(calls - got))
                        m.v("ag", "%s is evaluated too few times" % c[0])
                for n in list(m.subtree(root)):
                    w = m.expect("AG", "the attribute values of a node")
                    if int(w[1]) != n.seq:
                        raise Stop(("ag", "evaluation changed the tree"))
                    for x in w[2:]:
                        k, v = x.split(":", 1)
                        k = int(k)
                        a = m.at[n.type][k]
                        exp = val[(n.seq, k)]
                        if not agrees(a.type, exp, v):
                            m.v("ag", "%s.%s (%s) is %s instead of %s" % (m.types[n.type].name, a.name, a.type, v, exp))
                while m.peek() is not None and m.peek().startswith("AV "):
                    w = m.next().split(" ")
                    n, c = m.nodes[int(w[1])], m.accs()[int(w[2])]
                    k = self.idx[n.type][c.field.lower()]
                    if not agrees(m.at[n.type][k].type, val[(n.seq, k)], w[3]):
                        m.v("access", "%s of a %s is %s instead of %s" % (c.name, m.types[n.type].name, w[3], val[(n.seq, k)]))
                    m.count("set_accesses")
                m.ctx.pop()
            m.finish()
            if st.code != 0:
                m.bad_exit(st)
        except Exit as x:
            if m.p < len(m.ev):
                m.v(x.why[0], "the run goes on after: %s (next: %s)" % (x.why[1], m.ev[m.p][:120]))
            elif st.code != x.code:
                m.v(x.why[0], "exit status %d instead of %d after: %s" % (st.code, x.code, x.why[1]))
            else:
                w = m.refused(st.err.decode("latin1"))
                if w:
                    m.v("access", "%s: the program stops %s" % (x.why[1], w))
        except Stop as x:
            if x.args and x.args[0]:
                m.viol.append(x.args[0])
            else:
                m.ended_early(st)
        except (IndexError, ValueError, KeyError) as x:
            m.viol.append((m.rule_here(), "inconsistent history near %r (%s %s)" % (m.ev[max(0, m.p - 1)][:100], type(x).__name__, x)))
        self.viol = m.viol

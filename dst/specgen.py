"""Seeded generator of CoCoNut specifications, with the semantic model the
runtime reference models work from."""
import copy, random, re

PRIMS = ["bool", "string", "int", "float", "double", "uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64"]
CTYPE = {"bool": "bool", "string": "char *", "int": "int", "float": "float", "double": "double",
         **{t: t + "_t" for t in PRIMS if "8" in t or "16" in t or "32" in t or "64" in t}}


class LT:
    """one lifetime: kind, begin (path, inclusive)|None, end|None, bare"""

    def __init__(self, kind, begin=None, end=None, bare=False):
        self.kind, self.begin, self.end, self.bare = kind, begin, end, bare

    def text(self):
        if self.bare:
            return self.kind
        b = "(" if self.begin is None else ("[" if self.begin[1] else "(") + self.begin[0]
        e = ")" if self.end is None else self.end[0] + ("]" if self.end[1] else ")")
        return "%s %s -> %s" % (self.kind, b, e)


class Child:
    def __init__(self, type, name, cons=False, lts=()):
        self.type, self.name, self.cons, self.lts = type, name, cons, list(lts)


class Attr:
    def __init__(self, type, name, cons=False, kind="", lts=(), user=False):
        # kind: "" classic, "inherited", "synthesized"
        self.type, self.name, self.cons, self.kind, self.lts, self.user = type, name, cons, kind, list(lts), user


class Eq:
    def __init__(self, target, deps):
        self.target, self.deps = target, list(deps)  # ("this"|child, attr)


class Node:
    def __init__(self, name, root=False):
        self.name, self.root = name, root
        self.children, self.attrs, self.eqs, self.lts = [], [], [], []


class NodeSet:
    def __init__(self, name, expr, members, attrs=(), info=None):
        self.name, self.expr, self.members, self.attrs, self.info = name, expr, list(members), list(attrs), info
        self.refs = []  # names of the sets the expression refers to
        self.plain = True  # made of literals and unions only


class Enum:
    def __init__(self, name, prefix, values, info=None):
        self.name, self.prefix, self.values, self.info = name, prefix, values, info


class Trav:
    def __init__(self, name, uid, expr=None, members=None, data=(), info=None):
        self.name, self.uid, self.expr, self.members, self.data, self.info = name, uid, expr, members, list(data), info


class Pass:
    def __init__(self, name, uid=None, func=None, info=None, short=False):
        self.name, self.uid, self.func, self.info, self.short = name, uid, func, info, short

    def cfunc(self):
        return self.func or self.name


class Phase:
    def __init__(self, name, acts, cycle=False, gate=None, uid=None, info=None, start=False):
        self.name, self.acts, self.cycle, self.gate, self.uid, self.info, self.start = name, acts, cycle, gate, uid, info, start


class Spec:
    def __init__(self):
        self.nodes, self.sets, self.enums, self.travs = [], [], [], []
        self.root_phase = None
        self.inline = set()  # names of actions defined inline
        self.order_seed = 0
        self.user_types = set()
        self.mixed = False
        self.spell = None  # a generator of other spellings for references: names are case-insensitive

    def ref(self, name):
        """a reference to a definition, as the specification spells it"""
        if not self.spell or name in ("", "this"):
            return name
        r = self.spell.random()
        if r < 0.4:
            return name
        return name.lower() if r < 0.6 else name.upper() if r < 0.8 else "".join(self.spell.choice((c.lower(), c.upper())) for c in name)

    def refs(self, text):
        return re.sub(r"\w+", lambda m: self.ref(m.group()), text) if self.spell else text

    def lt(self, l):
        if not self.spell or l.bare:
            return l.text()
        return LT(l.kind, l.begin and (self.refs(l.begin[0]), l.begin[1]), l.end and (self.refs(l.end[0]), l.end[1])).text()

    # --- lookups
    def node(self, name):
        return next(n for n in self.nodes if n.name == name)

    def members(self, type_):
        for s in self.sets:
            if s.name == type_:
                return s.members
        return [type_]

    def set(self, name):
        return next((s for s in self.sets if s.name == name), None)

    def supers(self, s):
        """the sets whose expression refers to s, directly or not"""
        out, todo = [], [s.name]
        while todo:
            x = todo.pop()
            for t in self.sets:
                if x in t.refs and t not in out:
                    out.append(t)
                    todo.append(t.name)
        return out

    def set_attrs(self, s):
        """its own attributes and those of the sets that contain it by reference"""
        return s.attrs + [a for t in self.supers(s) for a in t.attrs]

    def type_attrs(self, t):
        s = self.set(t)
        return self.set_attrs(s) if s else self.node_attrs(self.node(t))

    def all_actions(self):
        out = []

        def go(a):
            out.append(a)
            if isinstance(a, Phase):
                for x in a.acts:
                    go(x)
        go(self.root_phase)
        return out

    def numbering(self):
        """action id -> (action, last id in its subtree), preorder, root = 1"""
        res = {}
        ctr = [0]

        def go(a):
            ctr[0] += 1
            me = ctr[0]
            if isinstance(a, Phase):
                for x in a.acts:
                    go(x)
            res[me] = (a, ctr[0])
        go(self.root_phase)
        return res

    def node_attrs(self, n):
        """attributes of a node in the order the generator holds them: propagated ones are prepended, nodeset by nodeset"""
        out = list(n.attrs)
        have = {a.name.lower() for a in out}
        for s in self.sets:
            if n.name in s.members:
                for a in s.attrs:
                    if a.name.lower() not in have:
                        have.add(a.name.lower())
                        out.insert(0, a)
        return out

    # --- text
    def names(self):
        return {n.name for n in self.nodes} | {s.name for s in self.sets} | {e.name for e in self.enums}

    def text(self, rng=None):
        rng = rng or random.Random(self.order_seed)
        self.spell = random.Random(self.order_seed ^ 77) if self.mixed else None
        ents = []
        for e in self.enums:
            ents.append(self.t_enum(e))
        for s in self.sets:
            ents.append(self.t_set(s, rng))
        for n in self.nodes:
            ents.append(self.t_node(n))
        done = set()
        pend = [self.root_phase]
        while pend:
            p = pend.pop()
            ents.append(self.t_phase(p, done, pend))
        for t in self.travs:
            if t.name not in self.inline:
                ents.append(self.t_trav(t))
        rng.shuffle(ents)
        sep = rng.choice([";\n", ";\n\n", " ;\n"])
        body = sep.join(ents) + rng.choice([";\n", "", ";"])
        if rng.random() < 0.3:
            body = "// generated\n" + body
        if rng.random() < 0.2:
            body = "/* block\n comment */\n" + body
        if not body.endswith("\n"):
            body += "\n"
        return body

    def t_enum(self, e):
        return "enum %s {%s prefix = %s, values { %s } }" % (e.name, ' info = "%s",' % e.info if e.info else "", e.prefix, ", ".join(e.values))

    def t_attr(self, a):
        opts = []
        if a.cons:
            opts.append("constructor")
        if a.kind:
            opts.append(a.kind)
        opts += [self.lt(l) for l in a.lts]
        return "%s%s %s%s" % ("user " if a.user else "", a.type if a.user or a.type not in self.names() else self.ref(a.type), a.name, " { %s }" % ", ".join(opts) if opts else "")

    def t_set(self, s, rng):
        if not s.attrs and not s.info and rng.random() < 0.5:
            return "nodeset %s = %s" % (s.name, self.refs(s.expr))
        parts = []
        if s.info:
            parts.append('info = "%s"' % s.info)
        parts.append("nodes = %s" % self.refs(s.expr))
        if s.attrs:
            parts.append("attributes { %s }" % ", ".join(self.t_attr(a) for a in s.attrs))
        return "nodeset %s { %s }" % (s.name, ", ".join(parts))

    def t_node(self, n):
        parts = []
        if n.children:
            cs = []
            for c in n.children:
                o = (["constructor"] if c.cons else []) + [self.lt(l) for l in c.lts]
                cs.append("%s %s%s" % (self.ref(c.type), c.name, " { %s }" % ", ".join(o) if o else ""))
            parts.append("children {\n  %s\n }" % ",\n  ".join(cs))
        if n.attrs:
            parts.append("attributes {\n  %s\n }" % ",\n  ".join(self.t_attr(a) for a in n.attrs))
        if n.eqs:
            es = []
            for e in n.eqs:
                es.append("%s.%s = { args = { %s } }" % (self.ref(e.target[0]), self.ref(e.target[1]), ", ".join("%s.%s" % (self.ref(x), self.ref(y)) for x, y in e.deps)))
            parts.append("equations {\n  %s\n }" % ",\n  ".join(es))
        if n.lts:
            parts.append("lifetime { %s }" % ", ".join(self.lt(l) for l in n.lts))
        return "%snode %s {\n %s\n}" % ("root " if n.root else "", n.name, ",\n ".join(parts))

    def t_trav(self, t):
        parts = []
        if t.info:
            parts.append('info = "%s"' % t.info)
        parts.append("uid = %s" % t.uid)
        if t.expr:
            parts.append("nodes = %s" % self.refs(t.expr))
        if t.data:
            parts.append("travdata { %s }" % ", ".join(self.t_attr(a) for a in t.data))
        return "traversal %s { %s }" % (t.name, ", ".join(parts))

    def t_pass(self, p):
        if p.uid is None and p.info is None:
            if p.func is None:
                return "pass %s" % p.name
            if p.short:
                return "pass %s = %s" % (p.name, p.func)
        parts = []
        if p.info:
            parts.append('info = "%s"' % p.info)
        if p.uid:
            parts.append("uid = %s" % p.uid)
        if p.func:
            parts.append("func = %s" % p.func)
        if parts == ['info = "%s"' % p.info]:
            parts.append("func = %s" % p.name)
        return "pass %s { %s }" % (p.name, ", ".join(parts))

    def t_phase(self, p, done, pend):
        acts = []
        for a in p.acts:
            if isinstance(a, Phase):
                if a.name in self.inline:
                    acts.append(self.t_phase(a, done, pend))
                else:
                    acts.append(self.ref(a.name))
                    if a.name not in done:
                        done.add(a.name)
                        pend.append(a)
            elif isinstance(a, Pass):
                if a.name in done:
                    acts.append(self.ref(a.name))
                else:
                    done.add(a.name)
                    acts.append(self.t_pass(a))
            else:
                if a.name in self.inline and a.name not in done:
                    done.add(a.name)
                    acts.append(self.t_trav(a))
                else:
                    acts.append(self.ref(a.name))
        parts = []
        if p.info:
            parts.append('info = "%s"' % p.info)
        if p.uid:
            parts.append("uid = %s" % p.uid)
        if p.gate:
            parts.append("gate = %s" % p.gate)
        body = "actions { %s }" % " ".join(a + ";" for a in acts)
        sep = ", "
        if p.cycle and p.info and p.uid and p.gate:
            sep = " "  # the grammar takes no commas in this one combination
        parts.append(body)
        return "%s%s %s { %s }" % ("start " if p.start else "", "cycle" if p.cycle else "phase", p.name, sep.join(parts))


class Namer:
    STEMS = "alp bet gam del eps zet eta the iot kap lam muu nuu xii omi rho sig tau ups phi chi psi ome expr stmt decl fun var num bin mon loop cond".split()

    def __init__(self, rng):
        self.rng, self.used = rng, set()
        # names may be long, and differ only at their end
        self.long = "".join(rng.choice(self.STEMS) for _ in range(rng.randint(6, 20))) if rng.random() < 0.12 else ""

    def __call__(self, pre=""):
        while True:
            s = pre + (self.long if self.rng.random() < 0.8 else "") + self.rng.choice(self.STEMS) + (str(self.rng.randrange(100)) if self.rng.random() < 0.6 else "")
            c = self.rng.random()
            if c < 0.3:
                s = s[0].upper() + s[1:]
            elif c < 0.4:
                s = s.upper()
            elif c < 0.5:
                s = s + "_" + self.rng.choice("xyz")
            if not pre and not self.long and self.rng.random() < 0.04:
                s = self.rng.choice(["graph", "Edge", "digraph", "subgraph", "STRICT"])  # words of the language of the diagrams
            if s.lower() not in self.used:
                self.used.add(s.lower())
                return s


def words(rng):
    return " ".join(rng.choice(["does", "the", "work", "of", "a", "tree", "walk", "100%", "x->y", "quick."]) for _ in range(rng.randrange(1, 6)))


def pick_lifetime(rng, spec, targets, kinds):
    kind = rng.choice(kinds)
    r = rng.random()
    if r < 0.2 and kind in ("disallowed", "mandatory"):
        return LT(kind, bare=True)
    if not targets:
        return LT(kind, bare=True) if kind in ("disallowed", "mandatory") else None
    b = e = None
    if rng.random() < 0.75:
        b = (rng.choice(targets), rng.random() < 0.5)
    if rng.random() < 0.75 or b is None:
        e = (rng.choice(targets), rng.random() < 0.5)
    return LT(kind, b, e)


def gen_spec(seed, nodes=(1, 7), ag=None, lifetimes=0.3, actions=(1, 8), cycles=True, gates=True, user=True, travs=(0, 4), dup_pass=False, noset_attr=False, infos=True, simple_attr=False, sparse=False, mixed=None):
    rng = random.Random(seed)
    nm = Namer(rng)
    sp = Spec()
    sp.order_seed = rng.randrange(1 << 30)
    n = rng.randint(*nodes)
    # the tables are indexed by node; names are 'N'-prefixed to stay clear of C and DSL words
    names = [nm("n") for _ in range(n)]
    sp.nodes = [Node(x, i == 0) for i, x in enumerate(names)]
    for _ in range(rng.randrange(3)):
        sp.enums.append(Enum(nm("en"), "P" + str(rng.randrange(1000)) + "x" + str(len(sp.enums)), [nm("v") for _ in range(rng.randint(1, 4))], words(rng) if infos and rng.random() < 0.3 else None))
    # nodesets
    for _ in range(rng.randrange(4)):
        r = rng.random()
        plain = [s for s in sp.sets]
        refs, okay = [], True
        if r < 0.5 or not plain:
            mem = rng.sample(names, rng.randint(1, n))
            expr, op = "{%s}" % ", ".join(mem), None
        else:
            a = rng.choice(plain)
            refs, okay = [a.name], a.plain
            mem2 = rng.sample(names, rng.randint(1, n))
            if rng.random() < 0.5:
                b, btxt = mem2, "{%s}" % ", ".join(mem2)
            else:
                s2 = rng.choice(plain)
                b, btxt = s2.members, s2.name
                if s2.name != a.name:
                    refs.append(s2.name)
                okay = okay and s2.plain
            op = rng.choice("|||&-")
            if op == "|":
                mem = a.members + [x for x in b if x not in a.members]
            elif op == "&":
                mem = [x for x in a.members if x in b]
            else:
                mem = [x for x in a.members if x not in b]
            if not mem:
                continue
            expr = "%s %s %s" % (a.name, op, btxt)
            if rng.random() < 0.3:
                expr = "(%s)" % expr
        s = NodeSet(nm("s"), expr, mem, [], words(rng) if infos and rng.random() < 0.2 else None)
        s.refs = refs
        s.plain = okay and op in (None, "|")
        sp.sets.append(s)
    # traversals
    nt = rng.randint(*travs)
    for _ in range(nt):
        expr = mem = None
        r = rng.random()
        if r < 0.5:
            mem = rng.sample(names, rng.randint(1, min(2, n) if sparse else n))
            expr = "{%s}" % ", ".join(mem)
        elif r < 0.7 and sp.sets:
            s = rng.choice(sp.sets)
            mem, expr = list(s.members), s.name
        t = Trav(nm("t"), nm("u"), expr, mem, [], words(rng) if infos and rng.random() < 0.2 else None)
        if rng.random() < 0.5:
            for _ in range(rng.randint(1, 4)):
                t.data.append(gen_attr(rng, nm, sp, user, cons=False))
        sp.travs.append(t)
    # actions: a tree of phases
    pending = list(sp.travs)
    passes = []

    def gen_phase(depth, start=False):
        k = rng.randint(1, 4)
        acts = []
        for _ in range(k):
            r = rng.random()
            if pending and r < 0.4:
                acts.append(pending.pop())
            elif r < 0.6 and depth < 4:
                acts.append(gen_phase(depth + 1))
            else:
                if dup_pass and passes and rng.random() < 0.2:
                    acts.append(rng.choice(passes))
                    continue
                p = Pass(nm("p"))
                if rng.random() < 0.3:
                    p.uid = nm("q")
                if rng.random() < 0.3:
                    p.func = nm("f")
                    p.short = rng.random() < 0.5
                if infos and rng.random() < 0.2:
                    p.info = words(rng)
                passes.append(p)
                acts.append(p)
        ph = Phase(nm("ph"), acts, start=start)
        if not start and cycles and rng.random() < 0.35:
            ph.cycle = True
        if gates and rng.random() < 0.3 and not start:
            ph.gate = nm("g")
        if rng.random() < 0.4:
            ph.uid = nm("i")
        if infos and rng.random() < 0.3:
            ph.info = words(rng)
        if not start and rng.random() < 0.4:
            sp.inline.add(ph.name)
        return ph

    root = gen_phase(0, True)
    while pending:
        root.acts.insert(rng.randrange(len(root.acts) + 1), pending.pop())
    sp.root_phase = root
    for t in sp.travs:
        if rng.random() < 0.3:
            sp.inline.add(t.name)
    # lifetime targets: names and uids of actions (not the root phase), plain or nested path
    count = {}
    for a in sp.all_actions():
        count[a.name] = count.get(a.name, 0) + 1
    targets = []

    def collect(ph, path):
        for a in ph.acts:
            if count[a.name] > 1:
                continue
            ids = [a.name] + ([a.uid] if a.uid else [])
            targets.append(rng.choice(ids))
            if path and rng.random() < 0.5:
                k = rng.randrange(len(path))
                targets.append(".".join(path[k:] + [rng.choice(ids)]))
            if isinstance(a, Phase):
                collect(a, path + [rng.choice(ids)])
    collect(root, [])
    # children and attributes
    types = names + [s.name for s in sp.sets]
    share = rng.choice([0, 0, 0.3, 0.7])  # fields of different nodes often have the same name
    pool = {"c": [], "a": []}
    # fields may have the name of a definition: those are looked up elsewhere
    twin = random.Random(seed ^ 0x7717)
    twins = twin.choice([0, 0, 0.25, 0.6])
    defs = [n.name for n in sp.nodes + sp.sets + sp.enums + sp.travs] + [a.name for a in sp.all_actions()]

    def field(nd, pre):
        if twin.random() < twins:
            x = twin.choice(defs)
            if not any(x.lower() == y.name.lower() for y in nd.children + nd.attrs):
                return twin.choice([x, x, x.lower(), x.upper()])
        mine = {x.name.lower() for x in nd.children + nd.attrs}
        old = [x for x in pool[pre] if x.lower() not in mine]
        if old and rng.random() < share:
            x = rng.choice(old)
            return x.swapcase() if rng.random() < 0.15 else x
        x = nm(pre)
        pool[pre].append(x)
        return x
    for nd in sp.nodes:
        # sparse: few handled nodes, reached over long ways through sets
        for _ in range(rng.choice([0, 1, 1, 2, 3]) if not sparse else rng.choice([0, 1, 1, 1, 2])):
            c = Child(rng.choice([s.name for s in sp.sets] if sparse and sp.sets and rng.random() < 0.5 else types), field(nd, "c"), rng.random() < 0.4)
            while lifetimes and rng.random() < lifetimes:
                l = pick_lifetime(rng, sp, targets, ["disallowed", "allowed", "mandatory", "optional"])
                if l:
                    c.lts.append(l)
            nd.children.append(c)
        if simple_attr:
            nd.attrs.append(Attr("int", field(nd, "a"), True))
        for _ in range(rng.choice([0, 0, 1, 2, 4]) if not simple_attr else rng.choice([0, 0, 1])):
            a = gen_attr(rng, lambda pre: field(nd, pre), sp, user)
            if lifetimes and (a.type == "string" or a.type in types) and not a.user:
                while rng.random() < lifetimes:
                    l = pick_lifetime(rng, sp, targets, ["disallowed", "allowed", "mandatory", "optional"])
                    if l:
                        a.lts.append(l)
            nd.attrs.append(a)
        if lifetimes and (nd.children or nd.attrs) and rng.random() < lifetimes * 0.6:
            l = pick_lifetime(rng, sp, targets, ["disallowed", "allowed"])
            if l:
                nd.lts.append(l)
    if not noset_attr:
        for s in sp.sets:
            if s.plain and rng.random() < 0.4:
                for _ in range(rng.randint(1, 2)):
                    a = gen_attr(rng, nm, sp, user, cons=False)
                    s.attrs.append(a)
                    while lifetimes and (a.type == "string" or a.type in types) and not a.user and rng.random() < lifetimes * 0.5:
                        l = pick_lifetime(rng, sp, targets, ["disallowed", "allowed", "mandatory", "optional"])
                        if l:
                            a.lts.append(l)
                    # a member can repeat it to make it a constructor argument
                    for m in s.members:
                        if rng.random() < 0.25:
                            sp.node(m).attrs.insert(rng.randrange(len(sp.node(m).attrs) + 1), Attr(a.type, a.name if rng.random() < 0.8 else a.name.swapcase(), True, "", [copy.copy(l) for l in a.lts], a.user))
    if ag is None:
        ag = rng.random() < 0.3
    if ag:
        add_ag(sp, rng, nm)
    sp.mixed = random.Random(seed ^ 0x5e11).random() < 0.4 if mixed is None else mixed
    return sp


def gen_attr(rng, nm, sp, user, cons=None):
    r = rng.random()
    a = Attr("int", nm("a"))
    if r < 0.65:
        a.type = rng.choice(PRIMS)
    elif r < 0.75 and sp.enums:
        a.type = rng.choice(sp.enums).name
    elif r < 0.92:
        a.type = rng.choice(sp.nodes + sp.sets).name
    elif user:
        a.type, a.user = "Foo", True
        sp.user_types.add("Foo")
    if cons is None:
        a.cons = rng.random() < 0.4
    return a


AG_TYPES = ["int", "int", "int64", "uint8", "double", "bool", "uint32", "int16", "float"]


def add_ag(sp, rng, nm, nattr=(1, 5), types=AG_TYPES):
    """Attribute-grammar part: every attribute gets a global rank and equations
    use only lower ranks, so no tree of the grammar has a circular dependency."""
    roots = {n.name for n in sp.nodes if n.root}
    covered = {}
    carriers = []
    for s in sp.sets:
        # inherited attributes only on sets whose members are in no other attribute-carrying set
        if s.plain and not (set(s.members) & roots) and not any(m in covered for m in s.members) and rng.random() < 0.8:
            for m in s.members:
                covered[m] = s
            carriers.append(s)
    # a child of a set only receives the inherited attributes of that set
    multi = rng.random() < 0.6
    order = {}
    typed = {c.type for n in sp.nodes for c in n.children}
    loose = {m for s in sp.sets if s.name in typed for m in s.members}
    sets = [s for s in sp.sets if s.name in typed]
    for n in sp.nodes:
        if n.name not in covered and rng.random() < 0.7:
            carriers.append(n)
    allattr = []
    for c in carriers:
        for i in range(rng.randint(*nattr)):
            kind = "inherited" if (i % 2 == 0 if multi else rng.random() < 0.5) else "synthesized"
            if c.name in roots or c.name in loose:
                kind = "synthesized"
            elif kind == "inherited" and any(set(s.members) & set(getattr(c, "members", [])) and s is not c and c not in sp.supers(s) for s in sets):
                kind = "synthesized"
            ty = rng.choice(types)
            if types is AG_TYPES and rng.random() < 0.2:
                ty = rng.choice([e.name for e in sp.enums] + ["string", sp.nodes[0].name])
            a = Attr(ty, nm("z"), False, kind)
            order[a.name] = i
            c.attrs.append(a)
            allattr.append(a)
    rng.shuffle(allattr)
    if multi:
        allattr.sort(key=lambda a: order[a.name] + rng.choice([0, 0, 1]))
    rank = {a.name: i for i, a in enumerate(allattr)}

    attrs_of = sp.type_attrs

    # mandatory children: only of types further down the list, so that every tree can be completed
    pos = {n.name: i for i, n in enumerate(sp.nodes)}
    for n in sp.nodes:
        for c in n.children:
            if rng.random() < 0.3 and not c.lts and min((pos[m] for m in sp.members(c.type)), default=-1) > pos[n.name]:
                c.lts.append(LT("mandatory", bare=True))

    for n in sp.nodes:
        occ = [("this", a) for a in sp.node_attrs(n)]
        for c in n.children:
            occ += [(c.name, a) for a in attrs_of(c.type)]
        for who, a in occ:
            if (who == "this") == (a.kind == "synthesized") and a.kind:
                # synthesized attributes of children and inherited ones of this are inputs; any lower rank may be used
                cand = [(w, b.name) for w, b in occ if (not b.kind or rank[b.name] < rank[a.name]) and not b.user and b.type != "string" and (b.type in CTYPE or any(e.name == b.type for e in sp.enums))]
                rng.shuffle(cand)
                if multi:
                    # the same occurrence first, highest rank first: several visits per node
                    cand.sort(key=lambda d: (d[0] != who, -rank.get(d[1], -1)))
                    if rng.random() < 0.3:
                        rng.shuffle(cand)
                    n.eqs.append(Eq((who, a.name), cand[:rng.randint(1, 3)]))
                    continue
                n.eqs.append(Eq((who, a.name), cand[:rng.randint(0, 3)]))
    align(sp, rng)


def partitions(sp):
    """{type name: {attribute: level}}: alternating levels of inherited (even) and
    synthesized (odd) attributes, from the dependencies any tree can induce"""
    def ag(attrs):
        return {a.name: a.kind for a in attrs if a.kind}
    kinds = {n.name: ag(sp.node_attrs(n)) for n in sp.nodes}
    kinds.update({s.name: ag(sp.set_attrs(s)) for s in sp.sets})
    graphs = []  # ({occurrence: type}, edges between (occurrence, attr))
    for n in sp.nodes:
        occ = {"this": n.name, **{c.name: c.type for c in n.children}}
        e = {((w, a), q.target) for q in n.eqs for w, a in q.deps if a in kinds[occ[w]]}
        graphs.append((occ, e))
    for s in sp.sets:
        for m in s.members:
            e = {((0, a), (1, a)) if k == "inherited" else ((1, a), (0, a)) for a, k in kinds[s.name].items()}
            graphs.append(({0: s.name, 1: m}, e))
    known = {t: set() for t in kinds}
    while True:
        more = False
        for occ, e in graphs:
            for w, t in occ.items():
                e |= {((w, a), (w, b)) for a, b in known[t] if a in kinds[t] and b in kinds[t]}
            succ = {}
            for x, y in e:
                succ.setdefault(x, set()).add(y)
            for x in list(succ):
                todo, seen = list(succ[x]), set(succ[x])
                while todo:
                    for z in succ.get(todo.pop(), ()):
                        if z not in seen:
                            seen.add(z)
                            todo.append(z)
                for z in seen:
                    e.add((x, z))
                    if z[0] == x[0] and (x[1], z[1]) not in known[occ[x[0]]]:
                        known[occ[x[0]]].add((x[1], z[1]))
                        more = True
        if not more:
            break
    out = {}
    for t, ks in kinds.items():
        lev = {}
        todo = list(ks)
        while todo:
            a = todo.pop(0)
            pre = [x for x, y in known[t] if y == a]
            if any(x not in lev for x in pre):
                todo.append(a)
                continue
            syn = ks[a] == "synthesized"
            if not pre:
                lev[a] = 3 if syn else 2
            else:
                m = max(lev[x] for x in pre)
                lev[a] = m if (m % 2 == 1) == syn else m + 1
        out[t] = lev
    return out


def schedulable(sp, p):
    """visits in the order of the levels: no equation needs a value of a later visit"""
    for n in sp.nodes:
        occ = {"this": n.name, **{c.name: c.type for c in n.children}}
        succ = {}
        for q in n.eqs:
            for w, a in q.deps:
                if a in p[occ[w]]:
                    succ.setdefault((w, a), set()).add(q.target)
        for w, t in occ.items():
            for a, la in p[t].items():
                for b, lb in p[t].items():
                    # a child: inputs of this and earlier visits before its outputs; this: the other way round
                    if (w != "this" and la % 2 == 0 and lb % 2 == 1 and la // 2 <= lb // 2) or (w == "this" and la % 2 == 1 and lb % 2 == 0 and la // 2 < lb // 2):
                        succ.setdefault((w, a), set()).add((w, b))
        state = {}

        def cyclic(x):
            if x in state:
                return state[x] == 1
            state[x] = 1
            r = any(cyclic(y) for y in succ.get(x, ()))
            state[x] = 2
            return r
        if any(cyclic(x) for x in list(succ)):
            return False
    return True


def aligned(sp):
    """the grammars the scheduler supports: the levels give an order of visits, and
    members of a set that is the type of a child are visited as the set is"""
    typed = {c.type for n in sp.nodes for c in n.children}
    p = partitions(sp)
    if not schedulable(sp, p):
        return False
    for s in sp.sets:
        if s.name in typed:
            for m in s.members:
                if any(p[m][a] != l for a, l in p[s.name].items()):
                    return False
                if max(p[m].values(), default=3) // 2 > max(list(p[s.name].values()) + [3]) // 2:
                    return False
    return True


def align(sp, rng):
    """drops dependencies until the grammar is supported"""
    while not aligned(sp):
        q = rng.choice([q for n in sp.nodes for q in n.eqs if q.deps])
        q.deps.pop(rng.randrange(len(q.deps)))


def set_visits():
    """a member of a nodeset that is visited more often on its own than as a member of the set"""
    sp = Spec()
    r, m, n = Node("kfroot", True), Node("kfmem", False), Node("kfother", False)
    inh = lambda x: Attr("int", x, False, "inherited")
    syn = lambda x: Attr("int", x, False, "synthesized")
    s = NodeSet("kfset", "{kfmem, kfother}", ["kfmem", "kfother"], [inh("i1"), inh("i2"), syn("s"), syn("t")])
    s.plain = True
    r.children = [Child("kfmem", "a", True, [LT("mandatory", bare=True)]), Child("kfset", "b", True, [LT("mandatory", bare=True)])]
    r.attrs = [syn("x")]
    r.eqs = [Eq(("a", "i1"), []), Eq(("a", "i2"), [("a", "s")]), Eq(("b", "i1"), []), Eq(("b", "i2"), []), Eq(("this", "x"), [("b", "t")])]
    for k in (m, n):
        k.eqs = [Eq(("this", "s"), [("this", "i1")]), Eq(("this", "t"), [("this", "i2")])]
    sp.nodes, sp.sets = [r, m, n], [s]
    sp.root_phase = Phase("kfmain", [Pass("kfpass")], start=True)
    return sp


FIXED = {"set_visits": set_visits}


# ---- structural reductions, used to minimise failing cases
def parents(sp):
    out = []

    def go(ph):
        for i, a in enumerate(ph.acts):
            out.append((ph, i, a))
            if isinstance(a, Phase):
                go(a)
    go(sp.root_phase)
    return out


def edits(sp):
    ps = parents(sp)
    for i, (ph, _, a) in enumerate(ps):
        if len(ph.acts) > 1:
            yield ["act", i]
    for i, (ph, _, a) in enumerate(ps):
        if isinstance(a, Phase):
            yield ["hoist", i]
    for i, n in enumerate(sp.nodes):
        if not n.root:
            yield ["node", i]
    for i, n in enumerate(sp.nodes):
        for j in range(len(n.children)):
            yield ["child", i, j]
        for j, a in enumerate(n.attrs):
            yield ["attr", i, j]
        for j in range(len(n.eqs)):
            for k in range(len(n.eqs[j].deps)):
                yield ["dep", i, j, k]
        for w, l in holders(n):
            for j in range(len(l)):
                yield ["lt", i, w, j]
    for i, s in enumerate(sp.sets):
        yield ["set", i]
        for j in range(len(s.attrs)):
            yield ["sattr", i, j]
    for i, t in enumerate(sp.travs):
        for j in range(len(t.data)):
            yield ["data", i, j]


def holders(n):
    return [("n", n.lts)] + [("c%d" % i, c.lts) for i, c in enumerate(n.children)] + [("a%d" % i, a.lts) for i, a in enumerate(n.attrs)]


def drop_targets(sp, gone):
    gone = {x.lower() for x in gone if x}
    for n in sp.nodes:
        for _, l in holders(n):
            l[:] = [x for x in l if not any(e and gone & set(e[0].lower().split(".")) for e in (x.begin, x.end))]


def edit(sp, e):
    k = e[0]
    if k in ("act", "hoist"):
        ph, i, a = parents(sp)[e[1]]
        if k == "act":
            names = [a.name, getattr(a, "uid", None)]
            if isinstance(a, Phase):
                names += [x for b in _below(a) for x in (b.name, getattr(b, "uid", None))]
            del ph.acts[i]
        else:
            names = [a.name, a.uid]
            ph.acts[i:i + 1] = a.acts
        drop_targets(sp, names)
        # a traversal defined where it was used is gone with its last use
        used = sp.all_actions()
        sp.travs = [t for t in sp.travs if t.name not in sp.inline or t in used]
    elif k == "node":
        n = sp.nodes.pop(e[1])
        for s in sp.sets:
            s.members = [m for m in s.members if m != n.name]
            s.expr, s.refs = "{%s}" % ", ".join(s.members), []
        sp.sets = [s for s in sp.sets if s.members]
        for t in sp.travs:
            if t.members is not None:
                t.members = [m for m in t.members if m != n.name]
                t.expr = "{%s}" % ", ".join(t.members)
                if not t.members:
                    t.members = t.expr = None
        ok = {x.name for x in sp.nodes} | {s.name for s in sp.sets}
        prim = set(PRIMS) | {x.name for x in sp.enums}
        for m in sp.nodes:
            m.children = [c for c in m.children if c.type in ok]
        for h in sp.nodes + sp.sets:
            h.attrs[:] = [a for a in h.attrs if a.user or a.type in ok or a.type in prim]
        for t in sp.travs:
            t.data[:] = [a for a in t.data if a.user or a.type in ok or a.type in prim]
        prune_eqs(sp)
    elif k == "child":
        del sp.nodes[e[1]].children[e[2]]
        prune_eqs(sp)
    elif k == "attr":
        del sp.nodes[e[1]].attrs[e[2]]
        prune_eqs(sp)
    elif k == "dep":
        del sp.nodes[e[1]].eqs[e[2]].deps[e[3]]
    elif k == "lt":
        del dict(holders(sp.nodes[e[1]]))[e[2]][e[3]]
    elif k == "set":
        s = sp.sets.pop(e[1])
        for h in sp.nodes:
            for c in h.children:
                if c.type == s.name:
                    c.type = s.members[0]
        for h in sp.nodes + sp.sets + sp.travs:
            for a in getattr(h, "attrs", getattr(h, "data", [])):
                if a.type == s.name:
                    a.type = s.members[0]
        for h in sp.sets + sp.travs:
            if h.members is not None:
                h.expr, h.refs = "{%s}" % ", ".join(h.members), []
        prune_eqs(sp)
    elif k == "sattr":
        del sp.sets[e[1]].attrs[e[2]]
        prune_eqs(sp)
    elif k == "data":
        del sp.travs[e[1]].data[e[2]]


def _below(ph):
    for a in ph.acts:
        yield a
        if isinstance(a, Phase):
            yield from _below(a)


def prune_eqs(sp):
    """drop equations and dependencies that name something that is gone"""
    def has(n, who, name):
        if who == "this":
            return any(a.name == name for a in sp.node_attrs(n))
        c = next((c for c in n.children if c.name == who), None)
        if c is None:
            return False
        return any(a.name == name for a in sp.type_attrs(c.type))
    for n in sp.nodes:
        n.eqs = [q for q in n.eqs if has(n, *q.target)]
        for q in n.eqs:
            q.deps = [d for d in q.deps if has(n, *d)]


if __name__ == "__main__":
    import sys
    print(gen_spec(int(sys.argv[1])).text())

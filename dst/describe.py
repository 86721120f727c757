"""What the generator shows of a specification: the diagram of the tree and the listing of --show-ast."""
import re
import specgen

ID = r'(?:"[^"\n]*"|[A-Za-z_][A-Za-z_0-9]*)'
WORDS = {"node", "edge", "graph", "digraph", "subgraph", "strict"}


class Bad(Exception):
    pass


def bag(l):
    d = {}
    for x in l:
        d[x] = d.get(x, 0) + 1
    return d


def same(what, got, exp):
    g, e = bag(got), bag(exp)
    for x in sorted(e, key=str):
        if e[x] > g.get(x, 0):
            return "%s %s is missing" % (what, x if isinstance(x, str) else " ".join(map(str, x)))
    for x in sorted(g, key=str):
        if g[x] > e.get(x, 0):
            return "%s %s is not in the specification%s" % (what, x if isinstance(x, str) else " ".join(map(str, x)), " that often" if x in e else "")
    return None


def effective(sp, n):
    return sp.node_attrs(n)


def parse_dot(t):
    """vertices, edges (from, to, colour, label) of a diagram in the DOT language"""
    m = re.match(r"\s*(?:strict\s+)?digraph\s+%s?\s*\{(.*)\}\s*$" % ID, t, re.S)
    if not m:
        raise Bad("the diagram is not a complete digraph")
    body, p = m.group(1), 0
    vert, edge = [], []

    def word():
        nonlocal p
        k = re.compile(r"\s*(%s)" % ID).match(body, p)
        if not k:
            raise Bad("the diagram is no DOT at %r" % body[p:p + 40])
        p = k.end()
        w = k.group(1)
        if w[0] == '"':
            return w[1:-1]
        if w.lower() in WORDS:
            raise Bad("the diagram uses the reserved word %s as a name" % w)
        return w
    while True:
        k = re.compile(r"[\s;]*").match(body, p)
        p = k.end()
        if p >= len(body):
            return vert, edge
        a = word()
        k = re.compile(r"\s*->").match(body, p)
        if not k:
            vert.append(a)
            k = re.compile(r"\s*\[[^\]]*\]").match(body, p)
            p = k.end() if k else p
            continue
        p = k.end()
        b = word()
        at = {}
        k = re.compile(r"\s*\[([^\]]*)\]").match(body, p)
        if k:
            p = k.end()
            for x in re.finditer(r'(\w+)\s*=\s*("[^"]*"|\w+)', k.group(1)):
                at[x.group(1)] = x.group(2).strip('"')
        edge.append((a, b, at.get("color", ""), at.get("label", "")))


def diagram(sp, t):
    try:
        vert, edge = parse_dot(t)
    except Bad as e:
        return str(e)
    names = {n.name.lower(): n.name for n in sp.nodes}
    names.update({s.name.lower(): s.name for s in sp.sets})
    w = same("the vertex", vert, list(names.values()))
    if w:
        return "diagram: " + w
    exp = []
    for n in sp.nodes:
        for c in n.children:
            exp.append((n.name, names[c.type.lower()], "child", c.name))
        for a in effective(sp, n):
            if not a.user and a.type.lower() in names:
                exp.append((n.name, names[a.type.lower()], "attribute", a.name))
    for s in sp.sets:
        for m in s.members:
            exp.append((s.name, names[m.lower()], "member", ""))
    kind = {"": "child", "red": "attribute", "blue": "member"}
    w = same("the edge", [(a, b, kind.get(c, c), l) for a, b, c, l in edge], exp)
    return "diagram: " + w if w else None


def listing(sp, t):
    """--show-ast: every phase, traversal, pass, node and nodeset with its parts"""
    if "\nPhase " not in t and not t.startswith("Phase "):
        return "listing: no phase is shown"
    lines = t.split("\n")
    lo = str.lower
    ph, tr, ps, nd, ns = {}, {}, [], {}, {}
    where, sect, cur = None, None, None
    for l in lines:
        x = l.strip()
        m = re.match(r"^(Phase|Trav|nodeset) (\w+)(?: \([^)]*\))? *\{$", l) or re.match(r"^(NODE): (\w+)\((\d+)\) \{$", l)
        if m:
            where, sect, cur = m.group(1), None, []
            d = {"Phase": ph, "Trav": tr, "nodeset": ns, "NODE": nd}[where]
            if lo(m.group(2)) in d:
                return "listing: %s %s is shown twice" % (where, m.group(2))
            d[lo(m.group(2))] = cur
            if where == "NODE":
                cur.append(("index", int(m.group(3))))
            if where == "nodeset":
                sect = "members"
            continue
        if l.startswith("Pass: "):
            ps.append(lo(l[6:]))
            where = None
            continue
        if l.startswith(("Visits {", "STE:", "Reachability")):
            where = None
        if where is None:
            continue
        if x.endswith("{") and re.match(r"^(Actions|nodes|Children|Attributes|Equations|Child nodesets) \{$", x):
            sect = x[:-2]
            continue
        if x == "}":
            continue
        if where == "Phase" and sect == "Actions" and re.match(r"^\w+: \d+$", x):
            cur.append((lo(x.split(":")[0]), int(x.split()[1])))
        elif where == "Trav" and sect == "nodes" and re.match(r"^\w+$", x):
            cur.append(lo(x))
        elif sect == "Children" and re.match(r"^\w+$", x):
            cur.append(("child", lo(x)))
        elif sect == "members" and re.match(r"^\w+$", x):
            cur.append(("member", lo(x)))
        elif sect == "Attributes":
            m = re.match(r"^(\S+) (\w+) \{", x)
            if m:
                cur.append(("attribute", lo(m.group(1)), lo(m.group(2))))
    num = sp.numbering()
    ids = {}
    for i, (a, _) in num.items():
        ids.setdefault(id(a), []).append(i)
    e_ph, e_ps = {}, set()
    for i, (a, last) in num.items():
        if isinstance(a, specgen.Phase):
            k, l = i + 1, []
            for x in a.acts:
                l.append((lo(x.name), k))
                k = num[k][1] + 1
            e_ph[lo(a.name)] = l
        elif isinstance(a, specgen.Pass):
            e_ps.add(lo(a.name))
    w = same("the phase", ph, e_ph) or same("the pass", ps, e_ps) or same("the traversal", tr, [lo(x.name) for x in sp.travs]) or \
        same("the node", nd, [lo(n.name) for n in sp.nodes]) or same("the nodeset", ns, [lo(s.name) for s in sp.sets])
    if w:
        return "listing: " + w
    for k in e_ph:
        if ph[k] != e_ph[k]:
            return "listing: phase %s has the actions %s instead of %s" % (k, ph[k], e_ph[k])
    for x in sp.travs:
        if x.members is not None and x.expr:
            w = same("the node", tr[lo(x.name)], [lo(m) for m in x.members])
            if w:
                return "listing: traversal %s: %s" % (x.name, w)
    idx = [v for k in nd for kk, v in [nd[k][0]]]
    if len(set(idx)) != len(idx):
        return "listing: two nodes have the same index"
    for n in sp.nodes:
        w = same("", nd[lo(n.name)][1:], [("child", lo(c.name)) for c in n.children] + [("attribute", lo(a.type), lo(a.name)) for a in effective(sp, n)])
        if w:
            return "listing: node %s: %s" % (n.name, w)
    for s in sp.sets:
        w = same("", ns[lo(s.name)], [("member", lo(m)) for m in s.members] + [("attribute", lo(a.type), lo(a.name)) for a in sp.set_attrs(s)])
        if w:
            return "listing: nodeset %s: %s" % (s.name, w)
    return None


def visits(sp, t):
    """--show-ast of an accepted grammar: the visits of every node evaluate each of its equations once, after what it
    depends on, visit its children in the order of their visits, and give what they promise"""
    lo = str.lower
    vis, node, cur, on = {}, None, None, False
    for l in t.split("\n"):
        x = l.strip()
        m = re.match(r"^NODE: (\w+)\(\d+\) \{$", l)
        if m:
            node, on = lo(m.group(1)), False
            continue
        if l == "Visits {":
            on, cur = True, None
            vis[node] = []
            continue
        if not on:
            continue
        m = re.match(r"^(\w+)_(\d+) \(in: \{(.*)\} out: \{(.*)\}\) \{$", x)
        if m:
            if lo(m.group(1)) != node:
                return "a visit of %s among those of %s" % (m.group(1), node)
            io = []
            for g in m.group(3, 4):
                io.append([lo(a[7:]) for a in g.split(", ")] if g else [])
                if g and not all(a.startswith("<this>.") for a in g.split(", ")):
                    return "the visit %s_%s shows %r" % (m.group(1), m.group(2), g)
            cur = (int(m.group(2)), io[0], io[1], [])
            vis[node].append(cur)
            continue
        if l == "}":
            if cur is None:
                on = False
            cur = None
            continue
        m = re.match(r"^eval (<this>|(\w+)<(\w+)>)\.(\w+)$", x)
        if m and cur:
            cur[3].append(("eval", lo(m.group(2) or ""), lo(m.group(4))))
            continue
        m = re.match(r"^(?:visit (\w+) (\w+)_(\d+)|<dummy visit for (\w+)>)( or)?$", x)
        if m and cur:
            c = m.group(1) and lo(m.group(1))
            alt = (lo(m.group(2)), int(m.group(3))) if c else (lo(m.group(4)), None)
            if cur[3] and cur[3][-1][0] == "visit" and cur[3][-1][3]:
                op = cur[3][-1]
                if c and op[1] and op[1] != c:
                    return "alternatives of the visit of %s visit %s" % (op[1], c)
                op[1] = op[1] or c
                op[2].append(alt)
                op[3] = m.group(5)
            else:
                cur[3].append(["visit", c, [alt], m.group(5)])
            continue
        if x:
            return "the visits of %s contain %r" % (node, x)
    byname = {(n, v[0]): v for n in vis for v in vis[n]}
    for n in sp.nodes:
        w = lo(n.name)
        mine = {lo(a.name): a.kind for a in sp.node_attrs(n) if a.kind}
        vs = vis.get(w)
        if vs is None:
            return "node %s is shown without visits" % w
        if not mine and not n.eqs:
            continue
        if [v[0] for v in vs] != list(range(1, len(vs) + 1)):
            return "node %s has the visits %s" % (w, [v[0] for v in vs])
        d = same("the input", sum([v[1] for v in vs], []), [a for a in mine if mine[a][0].lower() == "i"]) or \
            same("the output", sum([v[2] for v in vs], []), [a for a in mine if mine[a][0].lower() == "s"])
        if d:
            return "visits of %s: %s" % (w, d)
        attrs = {("", a) for a in mine}
        kids = {}
        for c in n.children:
            kids[lo(c.name)] = [lo(m) for m in members_of(sp, c.type)]
            attrs |= {(lo(c.name), lo(a.name)) for a in sp.type_attrs(c.type) if a.kind}
        deps = {}
        for e in n.eqs:
            k = ("" if e.target[0] == "this" else lo(e.target[0]), lo(e.target[1]))
            deps[k] = {("" if x == "this" else lo(x), lo(a)) for x, a in e.deps} & attrs
        have, count, done = set(), {}, set()
        for v in vs:
            have |= {("", a) for a in v[1]}
            for op in v[3]:
                if op[0] == "eval":
                    k = op[1:]
                    if k not in deps:
                        return "%s_%d evaluates %s, for which it has no equation" % (w, v[0], ".".join(k))
                    if k in done:
                        return "%s_%d evaluates %s again" % (w, v[0], ".".join(k))
                    if not deps[k] <= have:
                        return "%s_%d evaluates %s before %s" % (w, v[0], ".".join(k), sorted(deps[k] - have))
                    done.add(k)
                    have.add(k)
                else:
                    c = op[1]
                    if c not in kids:
                        return "%s_%d visits %s, which is no child" % (w, v[0], c)
                    d = same("the alternative", [a for a, _ in op[2]], kids[c])
                    if d:
                        return "%s_%d, visit of %s: %s" % (w, v[0], c, d)
                    count[c] = count.get(c, 0) + 1
                    outs = []
                    for alt in op[2]:
                        if alt[1] is None:
                            if (alt[0], count[c]) in byname:
                                return "%s_%d leaves %s_%d out of a visit of %s" % (w, v[0], alt[0], count[c], c)
                            outs.append(set())
                            continue
                        if alt[1] != count[c]:
                            return "%s_%d: visit %d of %s is %s_%d" % (w, v[0], count[c], c, alt[0], alt[1])
                        if alt not in byname:
                            return "%s_%d visits %s with %s_%d, which does not exist" % (w, v[0], c, alt[0], alt[1])
                        need = {(c, a) for a in byname[alt][1]}
                        if not need <= have:
                            return "%s_%d visits %s before %s" % (w, v[0], c, sorted(need - have))
                        outs.append({(c, a) for a in byname[alt][2]})
                    have |= set.intersection(*outs) if outs else set()
            miss = {("", a) for a in v[2]} - have
            if miss:
                return "%s_%d ends without %s" % (w, v[0], sorted(miss))
        if set(deps) - done:
            return "the visits of %s never evaluate %s" % (w, sorted(set(deps) - done))
    return None


def members_of(sp, t):
    s = next((s for s in sp.sets if s.name.lower() == t.lower()), None)
    return s.members if s else [t]


def productions(t):
    """{production: [({vertex: (who, type, attribute, partition)}, [(from, to, dotted)])]} of a graph of attribute dependencies"""
    out, stack, vs, es, who, prod = {}, [], None, None, None, None
    lines = t.split("\n")
    if lines[0] != "digraph G {":
        raise Bad("the graph of the partitions does not begin")
    for l in lines[1:]:
        x = l.strip()
        if not x:
            continue
        m = re.match(r"^subgraph (\w+) \{$", x)
        if m:
            stack.append(m.group(1))
            if len(stack) == 1:
                vs, es, prod = {}, [], None
            who = None
            continue
        m = re.match(r"^label=<Production of <B>(\w+)</B>>;$", x)
        if m:
            prod = m.group(1)
            out.setdefault(prod.lower(), []).append((vs, es))
            continue
        m = re.match(r"^label=<<B>(\w+)</B>( \w+)?>;$", x)
        if m:
            who = (m.group(2) or "").strip().lower(), m.group(1).lower()
            continue
        m = re.match(r"^(\w+) \[label=<(\w+)( <I>(I|S)<SUB>(\d+)</SUB></I>| <I><SUB>NaN</SUB></I>)?>\];$", x)
        if m:
            if m.group(1) in vs:
                raise Bad("production %s shows the vertex %s twice" % (prod, m.group(1)))
            if who is None:
                raise Bad("production %s shows %s outside a node" % (prod, m.group(2)))
            vs[m.group(1)] = who + (m.group(2).lower(), (m.group(4), int(m.group(5))) if m.group(4) else None)
            continue
        m = re.match(r"^(\w+) -> (\w+)( \[style=\"dotted\"\])?;$", x)
        if m:
            es.append((m.group(1), m.group(2), bool(m.group(3))))
            continue
        if x == "}":
            if not stack:
                return out
            stack.pop()
            continue
        if not re.match(r'^(style|color)="\w+";$', x):
            raise Bad("the graph of the partitions is no DOT at %r" % x[:60])
    raise Bad("the graph of the partitions has no end")


def dependencies(sp):
    """[(production, {occurrence of an attribute}, direct dependencies, those between attributes of one occurrence that follow)]
    An occurrence is (child or "", its type, attribute); what holds between two attributes of a node or
    nodeset in one production holds in all of them."""
    lo = str.lower
    prods = []
    for n in sp.nodes:
        occ = {("", lo(n.name), lo(a.name)): a for a in sp.node_attrs(n) if a.kind}
        for c in n.children:
            occ.update({(lo(c.name), lo(c.type), lo(a.name)): a for a in sp.type_attrs(c.type) if a.kind})
        key = {(k[0], k[2]): k for k in occ}
        solid = set()
        for e in n.eqs:
            to = key[("" if e.target[0] == "this" else lo(e.target[0]), lo(e.target[1]))]
            for w, a in e.deps:
                k = ("" if w == "this" else lo(w), lo(a))
                if k in key:
                    solid.add((key[k], to))
        prods.append((n.name, occ, solid))
    for s in sp.sets:
        mine = {lo(a.name): a for a in sp.set_attrs(s) if a.kind}
        for i, m in enumerate(s.members):
            occ = {("", t, a): mine[a] for t in (lo(s.name), lo(m)) for a in mine}
            solid = {(("", lo(s.name), a), ("", lo(m), a)) if mine[a].kind == "inherited" else (("", lo(m), a), ("", lo(s.name), a)) for a in mine}
            prods.append((s.name, occ, solid))
    rel = set()
    while True:
        before = len(rel)
        closed = []
        for name, occ, solid in prods:
            nxt = {}
            for a, b in solid:
                nxt.setdefault(a, set()).add(b)
            for a in occ:
                for b in occ:
                    if a[:2] == b[:2] and (a[1], a[2], b[2]) in rel:
                        nxt.setdefault(a, set()).add(b)
            own = set()
            for a in occ:
                todo, reach = [a], set()
                while todo:
                    for y in nxt.get(todo.pop(), ()):
                        if y not in reach:
                            reach.add(y)
                            todo.append(y)
                own |= {(a, b) for b in reach if a[:2] == b[:2]}
            rel |= {(a[1], a[2], b[2]) for a, b in own}
            closed.append((name, occ, solid, own - solid))
        if len(rel) == before:
            return closed


def graph(sp, t):
    """attributes of every production with their partition, and the dependencies between them"""
    try:
        got = productions(t)
    except Bad as e:
        return "partitions: " + str(e)
    lo = str.lower
    part = {}
    sets = {lo(s.name): s for s in sp.sets}
    prods = dependencies(sp)
    have = {}
    for s in sets.values():
        l = got.get(lo(s.name), [])
        if len(s.members) > 1:
            l = [x for i in range(len(s.members)) for x in got.get("%s_%d" % (lo(s.name), i + 1), [])]
        have[lo(s.name)] = l
    for name, occ, solid, own in prods:
        what = "production " + name
        if lo(name) in sets:
            if not occ:
                continue
            m = [k[1] for k in occ if k[1] != lo(name)][0]
            what += " for " + m
            l = [x for x in have[lo(name)] if m in [v[1] for v in x[0].values()]]
            if len(l) != 1:
                return "partitions: %s is shown %d times" % (what, len(l))
            vs, es = l[0]
        elif lo(name) not in got:
            return "partitions: %s is missing" % what
        else:
            vs, es = got[lo(name)][0]
        w = same("the attribute", [v[:3] for v in vs.values()], list(occ))
        if w:
            return "partitions: %s: %s" % (what, w)
        for a, b, d in es:
            if a not in vs or b not in vs:
                return "partitions: %s: the dependency from %s to %s has no end" % (what, a, b)
        w = same("the dependency", [vs[a][:3] + ("to",) + vs[b][:3] for a, b, d in es if not d], [a + ("to",) + b for a, b in solid]) or \
            same("the dependency", [vs[a][:3] + ("to",) + vs[b][:3] for a, b, d in es if d], [a + ("to",) + b for a, b in own])
        if w:
            return "partitions: %s: %s" % (what, w)
        for v in vs.values():
            if v[3] is None or v[3][1] < 1:
                return "partitions: %s.%s of %s is in no partition" % (v[1], v[2], what)
            if (v[3][0] == "I") != (occ[v[:3]].kind == "inherited"):
                return "partitions: %s.%s of %s is in a partition of the other kind" % (v[1], v[2], what)
            if part.setdefault(v[1:3], v[3]) != v[3]:
                return "partitions: attribute %s of %s is in two partitions" % (v[2], v[1])
        # later partitions only depend on the same or earlier ones
        rank = {k: v[3][1] * 2 + (v[3][0] == "S") for k, v in vs.items()}
        for a, b, d in es:
            if vs[a][:2] == vs[b][:2] and rank[a] > rank[b]:
                return "partitions: %s of %s depends on %s in a later partition" % (vs[b][2], vs[b][1], vs[a][2])
    return None

"""Executable reference model of a generated compiler's run time: the phase
driver, the traversal core, node construction, copying, freeing, consistency
checks, traversal data and error counting.  It reads the recorded history of a
simulated run event by event, predicts what must come next, and records every
deviation under the name of the rule it breaks."""
import re
import rtgen, specgen


class Stop(Exception):
    """the history can no longer be followed"""


class Exit(Exception):
    """the model expects the process to end here"""

    def __init__(self, code, why):
        self.code, self.why = code, why


class MNode:
    __slots__ = ("type", "attrs", "ch", "file", "loc", "alive", "seq")


def parse_node(w):
    """fields of an N/C/D line (without its tag)"""
    n = MNode()
    n.seq, n.type = int(w[0]), int(w[1])
    num = int(w[2])
    rest = " ".join(w[3:])
    # file  bl,el,bc,ec a:..|.. c:..
    m = re.match(r"^(\S+) (\d+,\d+,\d+,\d+) a:(.*) c:(\S*)$", rest)
    if not m:
        raise Stop("unreadable node line %r" % rest[:120])
    n.file, n.loc = m.group(1), m.group(2)
    n.attrs = m.group(3).split("|") if m.group(3) else []
    n.ch = m.group(4).split(",") if m.group(4) else []
    n.alive = True
    return n, num


def default(sp, a):
    k = rtgen.attr_kind(sp, a)[0]
    return {"RK_STR": "NULL", "RK_NODE": "NULL", "RK_USER": "u0"}.get(k, "0")


class Model:
    def __init__(self, sp, opts, ack):
        self.sp, self.o, self.ack = sp, opts, ack
        self.types = [None] + sp.nodes
        self.at = [None] + [sp.node_attrs(n) for n in sp.nodes]
        self.kinds = [None] + [[rtgen.attr_kind(sp, a)[0] for a in ats] for ats in self.at[1:]]
        idx = {n.name: i for i, n in enumerate(self.types) if n}
        self.chmask = [None] + [[{idx[x] for x in sp.members(c.type)} for c in n.children] for n in sp.nodes]
        self.tgt = [{idx[x] for x in rtgen.targets(sp, t)} for t in sp.travs]
        self.travs = {t.name: i for i, t in enumerate(sp.travs)}
        self.dkinds = [[rtgen.attr_kind(sp, a)[0] for a in t.data] for t in sp.travs]
        self.passes = {p.name: i for i, p in enumerate(rtgen.passes(sp))}
        self.gates = {p.name: i for i, p in enumerate(rtgen.gates(sp))}
        self.nodes = {}
        self.used = set()   # every block number ever seen as a string or node
        self.frames = []    # [trav, data list, depth]
        self.err = self.warn = 0
        self.viol = []
        self.ctx = ["construct"]
        self.verb = int(opts.get("verb", 0))
        self.check = {"0": False, "1": True}.get(str(opts.get("check", 0)), True)
        self.cycles = int(opts["cycles"]) if int(opts.get("cycles", -1)) >= 0 else 100
        self.bp = self.bp0 = opts.get("bp")
        self.bpid = int(opts.get("bpid", 0))
        self.ann = []
        self.id = 0
        self.fp = self.aerr = self.perr = False
        self.just = None
        self.stat = {}
        self.rng_cache = None
        self.acc_cache = self.refusal = None

    # --- history
    def peek(self):
        return self.ev[self.p] if self.p < len(self.ev) else None

    def next(self):
        if self.p >= len(self.ev):
            raise Stop(None)
        self.p += 1
        return self.ev[self.p - 1]

    def v(self, rule, detail):
        self.viol.append((rule, detail))

    def count(self, k, n=1):
        self.stat[k] = self.stat.get(k, 0) + n

    def rule_here(self):
        """the rule a structural deviation breaks at this point"""
        c = self.ctx[-1]
        if c == "driver" and self.just:
            return self.just
        return {"driver": "order", "trav": "dispatch", "copy": "copy", "free": "free", "construct": "init", "cti": "cti", "data": "data", "check": "check"}.get(c, c)

    def expect(self, tag, what):
        e = self.next()
        w = e.split(" ")
        if w[0] != tag:
            self.p -= 1
            r = self.rule_here()
            if w[0] == "B":
                r = "break"
            raise Stop((r, "expected %s, but next is: %s" % (what, e[:160])))
        return w

    # --- values
    def same(self, kind, exp, got):
        if exp == got:
            return True
        if kind == "RK_NODE" and exp.startswith("n"):
            n = self.nodes.get(int(exp[1:]))
            if (n is None or not n.alive) and got.startswith("n"):
                return True  # the target was freed: only the address is left
        return False

    def note_str(self, v):
        if '"' in v:
            self.used.add(int(v.split('"')[0]))

    # --- nodes
    def construct(self, w):
        """NA type a:.. c:.. then N .."""
        ty = int(w[1])
        m = re.match(r"^NA \d+ a:(.*) c:(\S*)$", " ".join(w))
        given = m.group(1).split("|") if m.group(1) else []
        gch = m.group(2).split(",") if m.group(2) else []
        self.ctx.append("construct")
        w = self.expect("N", "the new node")
        if w[1] == "BAD":
            raise Stop(("init", "the constructor of %s returns no valid node" % self.types[ty].name))
        n, num = parse_node(w[1:])
        t = self.types[ty]
        self.count("nodes")
        bad = None
        if n.type != ty:
            raise Stop(("init", "the constructor of %s makes a node of type %d" % (t.name, n.type)))
        if n.seq in self.used:
            bad = "the new %s shares its block with an older one" % t.name
        if num != len(t.children):
            bad = "new %s has %d children instead of %d" % (t.name, num, len(t.children))
        if n.file != "NULL" or n.loc != "0,0,0,0":
            bad = "new %s has location %s %s" % (t.name, n.file, n.loc)
        for k, a in enumerate(self.at[ty]):
            if a.kind:
                continue
            exp = given[k] if a.cons else default(self.sp, a)
            if not self.same(self.kinds[ty][k], exp, n.attrs[k]):
                bad = "attribute %s (%s) of new %s is %s instead of %s" % (a.name, a.type, t.name, n.attrs[k], exp)
            self.note_str(n.attrs[k])
        for k, c in enumerate(t.children):
            exp = gch[k] if c.cons else "0"
            if n.ch[k] != exp:
                bad = "child %s of new %s is %s instead of %s" % (c.name, t.name, n.ch[k], exp)
        if bad:
            self.v("init", re.sub(r"\d+\"", '"', bad))
        try:
            n.ch = [int(x) for x in n.ch]
        except ValueError:
            raise Stop(None)
        self.nodes[n.seq] = n
        self.used.add(n.seq)
        self.ctx.pop()
        return n

    def subtree(self, s):
        if not s:
            return
        n = self.nodes[s]
        yield n
        for c in n.ch:
            yield from self.subtree(c)

    def kill(self, s):
        for n in self.subtree(s):
            n.alive = False

    def compare(self, tag, root, what, rule, copy=False):
        """the preorder dump that follows must be the tree at root"""
        new = {}
        for n in list(self.subtree(root)):
            e = self.peek()
            if e is None or not e.startswith(tag + " "):
                raise Stop((rule, "%s: the tree ends too early (next: %s)" % (what, e)))
            w = self.next().split(" ")
            if w[1] == "BAD":
                raise Stop((rule, "%s: a node is not valid memory" % what))
            g, num = parse_node(w[1:])
            t = self.types[n.type]
            if g.type != n.type:
                raise Stop((rule, "%s: a %s where a %s should be" % (what, self.types[g.type].name, t.name)))
            if num != len(t.children):
                self.v(rule, "%s: %s has %d children" % (what, t.name, num))
            for k, a in enumerate(self.at[n.type]):
                if a.kind:
                    continue
                e1, g1 = n.attrs[k], g.attrs[k]
                kind = self.kinds[n.type][k]
                if copy and kind == "RK_STR" and '"' in e1:
                    if '"' not in g1 or g1.split('"', 1)[1] != e1.split('"', 1)[1]:
                        self.v(rule, "%s: attribute %s of %s is %s instead of a copy of %s" % (what, a.name, t.name, g1, e1))
                    elif int(g1.split('"')[0]) in self.used:
                        self.v(rule, "%s: attribute %s of %s shares its text with the original" % (what, a.name, t.name))
                elif not self.same(kind, e1, g1):
                    self.v(rule, "%s: attribute %s (%s) of %s is %s instead of %s" % (what, a.name, a.type, t.name, g1, e1))
                self.note_str(g1)
            f = (n.file.split('"', 1)[-1] if copy else n.file)
            if (g.file.split('"', 1)[-1] if copy else g.file) != f or g.loc != n.loc:
                self.v(rule, "%s: %s has location %s %s instead of %s %s" % (what, t.name, g.file, g.loc, n.file, n.loc))
            elif copy and '"' in g.file and int(g.file.split('"')[0]) in self.used:
                self.v(rule, "%s: %s shares its file name with the original" % (what, t.name))
            self.note_str(g.file)
            try:
                g.ch = [int(x) for x in g.ch]
            except ValueError:
                raise Stop((rule, "%s: children of %s: %s" % (what, t.name, g.ch)))
            if copy:
                if [bool(x) for x in g.ch] != [bool(x) for x in n.ch]:
                    raise Stop((rule, "%s: %s has children %s instead of copies of %s" % (what, t.name, g.ch, n.ch)))
                if g.seq in self.used:
                    self.v(rule, "%s: a %s is shared instead of copied" % (what, t.name))
                new[g.seq] = g
            else:
                if g.seq != n.seq:
                    raise Stop((rule, "%s: another %s than expected" % (what, t.name)))
                if g.ch != n.ch:
                    raise Stop((rule, "%s: children of %s are %s instead of %s" % (what, t.name, g.ch, n.ch)))
        if copy:
            self.nodes.update(new)
            self.used.update(new)
        e = self.peek()
        if e is not None and e.startswith(tag + " "):
            raise Stop((rule, "%s: the tree has extra nodes" % what))

    # --- traversals
    def push(self, trav):
        t = self.sp.travs[trav]
        data = [default(self.sp, a) for a in t.data]
        self.frames.append([trav, data])
        if t.data:
            self.ctx.append("data")
            w = self.expect("I", "initialisation of the data of %s" % t.name)
            if int(w[1]) != trav:
                raise Stop(("data", "data of %s initialised instead of %s" % (w[1], t.name)))
            self.cmp_data(" ".join(w), "at initialisation")
            while self.peek() and self.peek().startswith("DW "):
                self.op(self.next())
            self.ctx.pop()
        self.count("traversals")

    def pop(self):
        trav, data = self.frames[-1]
        t = self.sp.travs[trav]
        if t.data:
            self.ctx.append("data")
            w = self.expect("F", "finalisation of the data of %s" % t.name)
            if int(w[1]) != trav:
                raise Stop(("data", "data of %s finalised instead of %s" % (w[1], t.name)))
            self.cmp_data(" ".join(w), "at finalisation")
            self.ctx.pop()
        self.frames.pop()

    def cmp_data(self, line, when):
        trav, data = self.frames[-1]
        t = self.sp.travs[trav]
        got = line[line.index(" d:") + 3:]
        got = got.split("|") if got else []
        if not t.data:
            return
        if len(got) != len(data):
            self.v("data", "%s: the current traversal is not %s" % (when, t.name))
            return
        for k, a in enumerate(t.data):
            if not self.same(self.dkinds[trav][k], data[k], got[k]):
                self.v("data", "%s: %s.%s (%s) is %s instead of %s" % (when, t.name, a.name, a.type, got[k], data[k]))
                data[k] = got[k]

    def visit(self, s):
        """TRAVopt in the current traversal; returns what it returns"""
        if not s:
            return 0
        trav, _ = self.frames[-1]
        n = self.nodes[s]
        t = self.sp.travs[trav]
        self.ctx.append("trav")
        if n.type in self.tgt[trav]:
            w = self.expect("T", "%s to visit a %s" % (t.name, self.types[n.type].name))
            gt, gs, gfn, gty, gid, cur = (int(x) for x in w[1:7])
            what = "visit of a %s by %s" % (self.types[n.type].name, t.name)
            if gt != trav or gfn != n.type:
                raise Stop(("dispatch", "%s: function %s%s is called" % (what, self.sp.travs[gt].uid, self.types[gfn].name)))
            if gs != s:
                raise Stop(("dispatch", "%s: called with another node" % what))
            if gid != self.id:
                self.v("id", "%s: current action id is %d instead of %d" % (what, gid, self.id))
            if not cur:
                self.v("data", "%s: another traversal is current" % what)
            self.cmp_data(" ".join(w), what)
            self.count("visits")
            r = self.ops(s)
        else:
            self.children(s)
            r = s
        self.ctx.pop()
        return r

    def children(self, s):
        n = self.nodes[s]
        for k in range(len(n.ch)):
            n.ch[k] = self.visit(n.ch[k])

    # --- callback bodies
    def ops(self, s):
        """events until the callback returns; returns the node it returns"""
        while True:
            e = self.next()
            if e.startswith("R "):
                return int(e[2:])
            self.op(e)

    def ret(self, tag, exp, rule, what):
        w = self.expect(tag, "the return of " + what)
        if int(w[1]) != exp:
            self.v(rule, "%s returns %s instead of %d" % (what, w[1], exp))

    def op(self, e):
        w = e.split(" ")
        t = w[0]
        self.count("op_" + t)
        if t == "NA":
            self.construct(w)
        elif t == "SC":
            self.nodes[int(w[1])].ch[int(w[2])] = int(w[3])
        elif t == "SA":
            self.nodes[int(w[1])].attrs[int(w[2])] = w[3]
            self.note_str(w[3])
        elif t == "SL":
            n = self.nodes[int(w[1])]
            n.file, n.loc = w[2], w[3]
            self.note_str(w[2])
        elif t == "FR":
            self.ctx.append("free")
            self.ret("/FR", 0, "free", "freeing a tree")
            self.ctx.pop()
            self.kill(int(w[1]))
        elif t == "CP":
            self.ctx.append("copy")
            g = self.expect("/CP", "the end of copying")
            root = int(w[1])
            nodes = list(self.subtree(root))
            if not self.ack:
                self.warn += sum(1 for n in nodes for a in self.at[n.type] if a.user)
            new = self.peek()
            self.compare("C", root, "copy", "copy", True)
            if new is None or int(new.split(" ")[1]) != int(g[1]):
                raise Stop(("copy", "copying returns another node than the root of the copy"))
            self.count("copied_nodes", len(nodes))
            self.ctx.pop()
        elif t == "DU":
            self.compare("D", int(w[1]), "tree", "tree")
            self.expect("/DU", "the end of the tree")
        elif t == "CH":
            s = int(w[1])
            self.children(s)
            self.ret("/CH", s, "dispatch", "TRAVchildren")
        elif t == "TK":
            s, k = int(w[1]), int(w[2])
            n = self.nodes[s]
            n.ch[k] = self.visit(n.ch[k])
            self.ret("/TK", s, "dispatch", "TRAV" + self.types[n.type].children[k].name)
        elif t == "TO":
            n, k = self.nodes[int(w[1])], int(w[2])
            r = self.visit(n.ch[k])
            self.ret("/TO", r, "dispatch", "TRAVopt")
            n.ch[k] = r
        elif t in ("TS", "TF"):
            trav = int(w[-1])
            n = self.nodes[int(w[1])]
            slot = int(w[2]) if t == "TS" else -1
            self.push(trav)
            r = self.visit(n.ch[slot] if slot >= 0 else n.seq)
            self.pop()
            self.ret("/" + t, r, "dispatch", "TRAVstart")
            if slot >= 0:
                n.ch[slot] = r
            self.count("nested")
        elif t == "PU":
            self.push(int(w[1]))
            while True:
                e = self.next()
                if e == "PO":
                    break
                self.op(e)
            self.pop()
            self.expect("/PU", "the return of TRAVpop")
            self.count("pushed")
        elif t == "PS":
            p = rtgen.passes(self.sp)[int(w[2])]
            g = self.expect("P", "pass %s" % p.name)
            if g[1] != w[2]:
                raise Stop(("dispatch", "PASSstart calls pass %s instead of %s" % (rtgen.passes(self.sp)[int(g[1])].name, p.name)))
            if g[2] != w[1]:
                raise Stop(("dispatch", "PASSstart calls pass %s with another tree" % p.name))
            if int(g[3]) != self.id:
                self.v("id", "current action id in pass %s is %s instead of %d" % (p.name, g[3], self.id))
            self.ctx.append("pass")
            r = self.ops(int(w[1]))
            self.ctx.pop()
            self.ret("/PS", r, "dispatch", "PASSstart")
            self.count("passes_by_hand")
        elif t == "NO":
            self.fp = False
        elif t == "EA":
            self.aerr = True
        elif t == "EP":
            self.perr = True
        elif t == "SM":
            self.cycles = int(w[1])
        elif t == "TC":
            self.check = w[1] == "1"
        elif t == "CTI":
            k = int(w[1])
            self.err += k == 3
            self.warn += k == 2
            self.ctx.append("cti")
            g = self.expect("/CTI", "the return of a message")
            if (int(g[1]), int(g[2])) != (self.err, self.warn):
                self.v("cti", "after a message of kind %d: %s errors and %s warnings counted instead of %d and %d" % (k, g[1], g[2], self.err, self.warn))
                self.err, self.warn = int(g[1]), int(g[2])
            self.ctx.pop()
        elif t == "DW":
            trav, k = int(w[1]), int(w[2])
            if self.frames and self.frames[-1][0] == trav:
                self.frames[-1][1][k] = w[3]
                self.note_str(w[3])
        elif t == "NT":
            pass
        elif t in ("AR", "AW"):
            n, c = self.nodes[int(w[1])], self.accs()[int(w[2])]
            ty = self.types[n.type]
            if c.attr is None:
                k = [x.name for x in ty.children].index(c.field)
                if w[3] != ("n%d" % n.ch[k] if n.ch[k] else "NULL"):
                    self.v("access", "%s of a %s is %s instead of child %d" % (c.name, ty.name, w[3], n.ch[k]))
                return
            k = [x.name.lower() for x in self.at[n.type]].index(c.field.lower())
            if t == "AW":
                n.attrs[k] = w[3]
                self.note_str(w[3])
                w = self.expect("DU", "the tree after storing through an accessor")
                self.compare("D", n.seq, "after storing through %s" % c.name, "access")
                self.expect("/DU", "the end of the tree")
            elif not self.same(self.kinds[n.type][k], n.attrs[k], w[3]):
                self.v("access", "%s of a %s is %s instead of %s" % (c.name, ty.name, w[3], n.attrs[k]))
        elif t in ("AX", "AE"):
            n, c = self.nodes[int(w[1])], self.accs()[int(w[2])]
            if t == "AX":
                msg, what = "Node passed to %s is not a '%s'" % (c.name, c.owner), "%s of a %s" % (c.name, self.types[n.type].name)
            else:
                # a nodeset accessor reaches the value through the accessor of the node
                msg, what = "Trying to access attribute '%s' before it has been evaluated." % c.attr.name, "%s before it is evaluated" % c.name
            self.count("refused_accesses")
            self.refusal = (int(w[2]), t == "AX" or c.owner == self.types[n.type].name, msg)
            raise Exit(-6, ("access", what))
        else:
            self.p -= 1
            if t == "B":
                raise Stop(("break", "the breakpoint is hit inside an action"))
            raise Stop((self.rule_here(), "unexpected: %s" % e[:160]))

    def accs(self):
        if self.acc_cache is None:
            self.acc_cache = rtgen.accessors(self.sp)
        return self.acc_cache

    def refused(self, err):
        """does the message of the refused access name the place, the accessor and the type?"""
        k, direct, msg = self.refusal
        m = re.search(r"ASSERTION FAILED: file (.*), line (\d+) in function: (.*)\n\t(.*)\nABORTING EXECUTION\n", err)
        if not m:
            return "without a message"
        if m.group(4) != msg:
            return "with message %r instead of %r" % (m.group(4), msg)
        if direct and m.group(1, 2, 3) != ("access.c", str(rtgen.ACC_LINE + k), "rt_acc_ptr"):
            return "with place %s:%s %s instead of access.c:%d rt_acc_ptr" % (*m.group(1, 2, 3), rtgen.ACC_LINE + k)
        return None

    # --- consistency
    def targets(self):
        """action path -> (id, id after it)"""
        if self.rng_cache is None:
            num = self.sp.numbering()
            first = {}
            order = sorted(num)
            # parents
            par = {}
            st = []
            for i in order:
                while st and num[st[-1]][1] < i:
                    st.pop()
                par[i] = st[-1] if st else 0
                st.append(i)
            self.num, self.par = num, par
            self.rng_cache = first
        return self.rng_cache

    def locate(self, path):
        c = self.targets()
        if path in c:
            return c[path]
        want = [x.lower() for x in path.split(".")]
        for i in sorted(self.num):
            a, last = self.num[i]
            names = lambda x: {x.name.lower()} | ({x.uid.lower()} if x.uid else set())
            if want[-1] not in names(a):
                continue
            # the remaining names must be on the way down, innermost first
            p, ok = self.par[i], True
            for x in reversed(want[:-1]):
                while p and x not in names(self.num[p][0]):
                    p = self.par[p]
                if not p:
                    ok = False
                    break
                p = self.par[p]
            if ok:
                c[path] = (i, last + 1)
                return c[path]
        raise AssertionError("lifetime target %s" % path)

    def lt_hit(self, l):
        """is an offending value an error now?"""
        if l.bare:
            return True
        b, e = 0, 1 << 60
        if l.begin:
            i, nx = self.locate(l.begin[0])
            b = i if l.begin[1] else nx
        if l.end:
            i, nx = self.locate(l.end[0])
            e = nx if l.end[1] else i
        if l.kind in ("disallowed", "mandatory"):
            return b <= self.id < e
        return (bool(l.begin) and self.id < b) or (bool(l.end) and self.id >= e)

    def check_tree(self, root):
        bad = []
        self.named = []     # what each message must name
        for n in self.subtree(root):
            t = self.types[n.type]
            for k, c in enumerate(t.children):
                s = n.ch[k]
                if s and self.nodes[s].type not in self.chmask[n.type][k]:
                    bad.append("type of %s.%s" % (t.name, c.name))
                    self.named.append((("child", c.name), ("node", t.name), ("type", self.types[self.nodes[s].type].name)))
                for l in c.lts:
                    if bool(s) == (l.kind in ("disallowed", "allowed")) and self.lt_hit(l):
                        bad.append("child %s.%s: %s" % (t.name, c.name, l.text()))
                        self.named.append((("child", c.name), ("node", t.name)))
            for k, a in enumerate(self.at[n.type]):
                for l in a.lts:
                    if (n.attrs[k] != "NULL") == (l.kind in ("disallowed", "allowed")) and self.lt_hit(l):
                        bad.append("attribute %s.%s: %s" % (t.name, a.name, l.text()))
                        self.named.append((("attribute", a.name), ("node", t.name)))
            for l in t.lts:
                if self.lt_hit(l):
                    bad.append("node %s: %s" % (t.name, l.text()))
                    self.named.append((("node", t.name),))
        self.count("checks")
        self.err += len(bad)
        return bad

    # --- phase driver
    def action(self, a, tree):
        self.id += 1
        start = self.id
        phase = isinstance(a, specgen.Phase)
        if phase and self.verb > 0:
            self.ann.append(">> " + a.name)
        elif self.verb > 1:
            self.ann.append("  *** " + a.name)
        if self.check:
            self.ctx.append("check")
            bad = self.check_tree(tree)
            if bad:
                self.count("check_errors", len(bad))
                raise Exit(1, ("check", "; ".join(bad[:4])))
            self.ctx.pop()
        self.count("actions")
        if phase:
            old = self.perr
            self.perr = False
            tree = self.phase(a, tree)
            self.perr = old or self.perr
        elif isinstance(a, specgen.Pass):
            w = self.expect("P", "pass %s" % a.name)
            self.just = None
            if int(w[1]) != self.passes[a.name]:
                raise Stop(("order", "pass %s is called instead of %s" % (rtgen.passes(self.sp)[int(w[1])].name, a.name)))
            if int(w[2]) != tree:
                raise Stop(("order", "pass %s gets another tree than the previous action returned" % a.name))
            if int(w[3]) != self.id:
                self.v("id", "current action id in pass %s is %s instead of %d" % (a.name, w[3], self.id))
            self.ctx.append("pass")
            tree = self.ops(tree)
            self.ctx.pop()
        else:
            i = self.travs[a.name]
            e = self.peek()
            if e is not None and (a.data or tree and self.nodes[tree].type in self.tgt[i]):
                w = e.split(" ")
                if w[0] in ("P", "G", "B", "RAN") or w[0] in ("I", "T") and int(w[1]) != i:
                    raise Stop(("break" if w[0] == "B" else self.rule_here(), "expected traversal %s, but next is: %s" % (a.name, e[:120])))
            self.just = None
            self.push(i)
            tree = self.visit(tree)
            self.pop()
        if self.aerr:
            raise Exit(1, ("error", "action error signalled in %s" % a.name))
        if self.bp and self.bp.lower() == a.name.lower() or self.bpid > 0 and self.bpid == start:
            w = self.expect_break(a)
            self.count("breaks")
            if self.bp0 and "." in self.bp0:
                self.count("breaks_by_path")
            if int(w[1]) != tree:
                self.v("break", "the breakpoint handler gets another tree")
            if tree:
                self.compare("D", tree, "tree at the breakpoint", "break")
                self.expect("/DU", "the end of the tree")
            raise Exit(0, ("break", "breakpoint after %s" % a.name))
        if phase and self.verb > 0:
            self.ann.append("<< " + a.name)
        return tree

    def expect_break(self, a):
        e = self.peek()
        if e is None:
            raise Stop(("break", "no breakpoint after %s" % a.name))
        if not e.startswith("B "):
            raise Stop(("break", "no breakpoint after %s; next is: %s" % (a.name, e[:120])))
        return self.next().split(" ")

    def phase(self, a, tree):
        if a.gate:
            w = self.expect("G", "the gate of %s" % a.name)
            self.just = None
            if int(w[1]) != self.gates[a.name]:
                raise Stop(("order", "another gate than that of %s is asked" % a.name))
            if int(w[3]) != self.id:
                self.v("id", "current action id in the gate of %s is %s instead of %d" % (a.name, w[3], self.id))
            while True:
                e = self.next()
                if e == "/G":
                    break
                self.count("gate_ops")
                self.op(e)
            if w[2] == "0":
                self.id = next(last for i, (x, last) in self.sp.numbering().items() if i == self.id)
                self.count("gates_closed")
                return tree
        old = None
        if self.bp:
            pre = a.name.lower() + "."
            if self.bp.lower().startswith(pre) and len(self.bp) > len(pre):
                old, self.bp = self.bp, self.bp[len(pre):]
        base = self.id
        outer, changed, it = self.fp, False, 0
        while True:
            self.fp = True
            self.id = base
            for x in a.acts:
                tree = self.action(x, tree)
            changed = changed or not self.fp
            it += 1
            more = a.cycle and it < self.cycles and not self.fp
            if a.cycle:
                self.just = "cycle"
                self.count("iterations")
            if not more:
                break
        self.fp = outer and not changed
        if a.cycle and it > 1:
            self.count("cycles_repeated")
        if self.perr:
            raise Exit(1, ("error", "phase error signalled in %s" % a.name))
        if old is not None:
            self.bp = old
        return tree

    # --- scenarios
    def drive(self):
        for _ in range(int(self.o.get("runs", 1))):
            while True:
                e = self.next()
                if e.startswith("RUN "):
                    break
                self.op(e)
            tree = int(e[4:])
            self.id = 0
            self.fp = self.aerr = self.perr = False
            self.ctx.append("driver")
            tree = self.action(self.sp.root_phase, tree)
            self.ctx.append("free")
            self.just = self.just or None
            e = self.peek()
            if e is not None and not e.startswith("RAN"):
                r = self.just or ("break" if e.startswith("B ") else "order")
                raise Stop((r, "expected the end of the run, but next is: %s" % e[:120]))
            self.expect("RAN", "the end of the run")
            self.ctx.pop()
            self.ctx.pop()
            self.just = None
            self.kill(tree)

    def tree(self):
        pass

    def finish(self):
        while True:
            e = self.next()
            if e.startswith("END "):
                break
            self.op(e)
        w = dict(x.split("=") for x in e.split(" ")[1:])
        if int(w["live"]) != 0:
            leaks = [l for l in self.ev[self.p:] if l.startswith("LEAK")][:2]
            self.v("leak", "%s blocks are left after everything was freed: %s" % (w["live"], "; ".join(leaks)))
        if (int(w["err"]), int(w["warn"])) != (self.err, self.warn):
            self.v("cti", "%s errors and %s warnings counted instead of %d and %d" % (w["err"], w["warn"], self.err, self.warn))

    def run(self, scen, st):
        """st: StepRes.  Fills self.viol with (rule, detail)."""
        self.ev = st.trace
        self.tail = [l for l in self.ev if l.startswith("SIMFAIL")]
        if self.tail:
            self.ev = self.ev[:self.ev.index(self.tail[0])]
        self.p = 0
        end = None
        try:
            getattr(self, scen)()
            self.finish()
        except Exit as x:
            end = x
        except Stop as x:
            if x.args and x.args[0]:
                self.viol.append(x.args[0])
                return
            # ran out of history
            self.ended_early(st)
            return
        except (IndexError, ValueError, KeyError) as x:
            self.viol.append((self.rule_here(), "inconsistent history near %r (%s %s)" % (self.ev[max(0, self.p - 1)][:100], type(x).__name__, x)))
            return
        if end is None:
            if st.code != 0:
                self.bad_exit(st)
        else:
            if self.p < len(self.ev):
                self.viol.append((end.why[0], "the run goes on after: %s (next: %s)" % (end.why[1], self.ev[self.p][:120])))
                return
            if st.code != end.code:
                self.viol.append((end.why[0], "exit status %d instead of %d after: %s" % (st.code, end.code, end.why[1])))
            elif end.code == -6:
                w = self.refused(st.err.decode("latin1"))
                if w:
                    self.viol.append(("access", "%s: the program stops %s" % (end.why[1], w)))
            elif end.code == 1:
                m = re.findall(rb"\*\*\* (\d+) Error\(s\), (\d+) Warning\(s\)", st.err)
                if not m:
                    self.viol.append((end.why[0], "no failure message after: %s" % end.why[1]))
                elif (int(m[-1][0]), int(m[-1][1])) != (self.err, self.warn):
                    self.viol.append(("check" if end.why[0] == "check" else "cti", "the failure message counts %s errors and %s warnings instead of %d and %d after: %s" % (
                        m[-1][0].decode(), m[-1][1].decode(), self.err, self.warn, end.why[1])))
                if end.why[0] == "check":
                    self.check_names(st.err.decode("latin1"))
        got = [l.decode("latin1") for l in st.err.split(b"\n") if re.match(rb"^(>> |<< |  \*\*\* )", l)]
        if got != self.ann:
            k = next((i for i, (a, b) in enumerate(zip(got, self.ann)) if a != b), min(len(got), len(self.ann)))
            self.viol.append(("announce", "announcement %d is %s instead of %s" % (k, got[k:k + 1], self.ann[k:k + 1])))
        if scen == "drive" and self.o.get("show") and str(self.o["show"]) != "0":
            exp = []
            for i, (a, _) in sorted(self.sp.numbering().items()):
                if i > 1:
                    exp.append("%d: %s" % (i, a.name))
            got = [l.strip() for l in st.out.decode("latin1").split("\n") if l.strip()]
            if got != exp:
                self.viol.append(("announce", "the structure is shown as %s instead of %s" % (got[:12], exp[:12])))

    def check_names(self, err):
        """the reports of a failed consistency check name what they are about"""
        got = []
        for l in re.split(r"(?:^|\n)error: ", err.lower()):    # long reports are wrapped
            w = re.findall(r"\b(child|attribute|node|type)\((\w+)\)", l)
            if any(k == "node" for k, _ in w):
                got.append(tuple(sorted(w)))
        exp = [tuple(sorted((k, v.lower()) for k, v in e)) for e in self.named]
        for e in exp:
            if e not in got:
                self.viol.append(("check", "no report names %s; reported: %s" % (e, got[:4])))
                return
            got.remove(e)
        if got:
            self.viol.append(("check", "reports of what is not wrong: %s" % (got[:4],)))

    def bad_exit(self, st):
        self.viol.append((self.rule_here(), "exit status %d at the end" % st.code))

    def ended_early(self, st):
        import simrun
        r = self.rule_here()
        last = self.ev[-1][:120] if self.ev else "nothing"
        if st.code == 1:
            m = re.findall(rb"\*\*\* (\d+) Error\(s\), (\d+) Warning\(s\)", st.err)
            if m and int(m[-1][0]) > self.err:
                self.viol.append(("check", "a consistent tree is rejected: %s" % st.err[:200].decode("latin1")))
            elif m:
                self.viol.append(("error", "the compilation is aborted without an error signal, after: %s" % last))
            else:
                self.viol.append((r, "exit status 1, after: %s" % last))
        elif st.code == 0:
            self.viol.append((r, "the run ends early with success, after: %s" % last))
        elif st.code in (simrun.C_STEPS, -24):
            self.viol.append((r, "no progress within the step bound, after: %s" % last))
        elif st.code == simrun.C_HEAP:
            msg = self.tail[0] if self.tail else "heap misuse"
            self.viol.append((r, "memory misuse: %s" % re.sub(r"seq=\d+", "seq", msg)))
        else:
            self.viol.append((r, "the process dies (%d), after: %s" % (st.code, last)))

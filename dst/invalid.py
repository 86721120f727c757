"""Rejected specifications: one rule of the language broken in an otherwise
valid, randomly generated specification."""
import random, re
import specgen
from specgen import Attr, Child, Enum, Eq, LT, Node, NodeSet, Pass, Phase, Trav

OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


def case_var(rng, s):
    return "".join(c.upper() if rng.random() < 0.5 else c.lower() for c in s)


def all_names(sp):
    out = [(n.name, "node") for n in sp.nodes] + [(s.name, "nodeset") for s in sp.sets] + [(e.name, "enum") for e in sp.enums]
    out += [(t.name, "traversal") for t in sp.travs]
    for a in sp.all_actions():
        if isinstance(a, Phase) or isinstance(a, Pass):
            out.append((a.name, "action"))
    return out


class Skip(Exception):
    pass


def add_lifetime(sp, rng, l):
    """to a child, an attribute or a node"""
    c = [c.lts for n in sp.nodes for c in n.children] + [a.lts for n in sp.nodes for a in n.attrs if a.type == "string" and not a.kind]
    if l.kind in ("disallowed", "allowed"):
        c += [n.lts for n in sp.nodes if n.children or n.attrs]
    rng.choice(need(c)).append(l)


def need(x):
    if not x:
        raise Skip()
    return x


@op
def duplicate_name(sp, rng):
    """two entities of any kinds with one name, possibly in different case"""
    a = case_var(rng, rng.choice(all_names(sp))[0])
    k = rng.randrange(4)
    if k == 0:
        sp.nodes.append(Node(a))
    elif k == 1:
        sp.sets.append(NodeSet(a, "{%s}" % sp.nodes[0].name, [sp.nodes[0].name]))
    elif k == 2:
        sp.travs.append(Trav(a, "uniqueuid1"))
        sp.root_phase.acts.append(sp.travs[-1])
    else:
        sp.enums.append(Enum(a, "UNIQPFX1", ["onlyvalue"]))


@op
def duplicate_uid(sp, rng):
    t = need(sp.travs)
    u = case_var(rng, rng.choice(t).uid)
    sp.travs.append(Trav("dupuidtrav", u))
    sp.root_phase.acts.append(sp.travs[-1])


@op
def uid_is_name(sp, rng):
    acts = [a for a in sp.all_actions() if not isinstance(a, Trav)]
    sp.travs.append(Trav("uidnametrav", case_var(rng, rng.choice(acts).name)))
    sp.root_phase.acts.append(sp.travs[-1])


@op
def unknown_child_type(sp, rng):
    rng.choice(sp.nodes).children.append(Child("nosuchtype", "cbad"))


@op
def child_of_enum_type(sp, rng):
    e = rng.choice(need(sp.enums))
    rng.choice(sp.nodes).children.append(Child(e.name, "cbad"))


@op
def unknown_attribute_type(sp, rng):
    rng.choice(sp.nodes).attrs.append(Attr("nosuchtype", "abad"))


@op
def nodeset_attribute_type(sp, rng):
    """an attribute can not link to a traversal"""
    t = rng.choice(need(sp.travs))
    rng.choice(sp.nodes).attrs.append(Attr(t.name, "abad"))


@op
def unknown_set_member(sp, rng):
    sp.sets.append(NodeSet("sbad", "{%s, nosuchnode}" % sp.nodes[0].name, []))


@op
def unknown_set_reference(sp, rng):
    sp.sets.append(NodeSet("sbad", "{%s} | nosuchset" % sp.nodes[0].name, []))


@op
def set_member_not_a_node(sp, rng):
    sp.sets.append(NodeSet("sbad", "{%s}" % rng.choice(sp.all_actions()).name, []))


@op
def recursive_set(sp, rng):
    k = rng.randint(1, 3)
    for i in range(k):
        sp.sets.append(NodeSet("srec%d" % i, "{%s} | srec%d" % (sp.nodes[0].name, (i + 1) % k), []))


@op
def empty_set(sp, rng):
    n = sp.nodes[0].name
    sp.sets.append(NodeSet("sbad", "{}", []))


@op
def second_root(sp, rng):
    sp.nodes.append(Node("nroot2", True))


@op
def no_root(sp, rng):
    for n in sp.nodes:
        n.root = False


@op
def second_start(sp, rng):
    sp._raw = "start phase pstart2 { actions { pass pstart2pass; } };"


@op
def no_start(sp, rng):
    sp.root_phase.start = False


@op
def duplicate_child(sp, rng):
    n = rng.choice(need([n for n in sp.nodes if n.children]))
    c = rng.choice(n.children)
    n.children.append(Child(c.type, case_var(rng, c.name)))


@op
def duplicate_attribute(sp, rng):
    n = rng.choice(need([n for n in sp.nodes if n.attrs]))
    a = rng.choice(n.attrs)
    n.attrs.append(Attr("int", case_var(rng, a.name)))


@op
def attribute_named_as_child(sp, rng):
    n = rng.choice(need([n for n in sp.nodes if n.children]))
    n.attrs.append(Attr("int", rng.choice(n.children).name))


@op
def reserved_uid(sp, rng):
    sp.travs.append(Trav("treserved", rng.choice(["TRAV", "CCN", "PASS", "CPY", "CHK", "DEL", "EVAL", "trav", "Cpy"])))
    sp.root_phase.acts.append(sp.travs[-1])


@op
def reserved_prefix(sp, rng):
    sp.enums.append(Enum("ebad", rng.choice(["NT", "NS", "TRAV", "PASS", "CCN"]), ["v1"]))


@op
def duplicate_prefix(sp, rng):
    e = rng.choice(need(sp.enums))
    sp.enums.append(Enum("ebad", e.prefix, ["vnew"]))


@op
def inherited_on_root(sp, rng):
    sp.nodes[0].attrs.append(Attr("int", "abad", kind="inherited"))


@op
def both_kinds(sp, rng):
    rng.choice(sp.nodes).attrs.append(Attr("int", "abad", kind="inherited, synthesized"))


@op
def constructor_on_set_attribute(sp, rng):
    s = rng.choice(need([s for s in sp.sets if s.plain]))
    s.attrs.append(Attr("int", "abad", cons=True))


@op
def attribute_on_computed_set(sp, rng):
    """only literal and union sets may carry attributes"""
    n = sp.nodes[0].name
    s = NodeSet("sbad", rng.choice(["{%s} & {%s}" % (n, n), "{%s, %s} - {%s}" % (n, sp.nodes[-1].name, sp.nodes[-1].name)]), [], [Attr("int", "abad")])
    if len(sp.nodes) < 2:
        raise Skip()
    sp.sets.append(s)


@op
def unknown_lifetime_target(sp, rng):
    l = LT(rng.choice(["disallowed", "optional", "allowed", "mandatory"]), ("nosuchaction", rng.random() < 0.5), None)
    if rng.random() < 0.5:
        l = LT(l.kind, None, ("nosuchaction", rng.random() < 0.5))
    add_lifetime(sp, rng, l)


@op
def unknown_lifetime_path(sp, rng):
    a = sp.root_phase.acts[-1]
    add_lifetime(sp, rng, LT("optional", (a.name + ".nosuchaction", True), None))


@op
def node_lifetime_kind(sp, rng):
    n = rng.choice(sp.nodes)
    n.lts.append(LT(rng.choice(["optional", "mandatory"]), (sp.root_phase.acts[0].name, True), None))


@op
def missing_action(sp, rng):
    ph = rng.choice([a for a in sp.all_actions() if isinstance(a, Phase)])
    ph.acts.append(_Ref("nosuchaction"))


class _Ref(Trav):
    def __init__(self, name):
        Trav.__init__(self, name, "x")


@op
def action_is_a_node(sp, rng):
    sp.root_phase.acts.append(_Ref(sp.nodes[0].name))


@op
def missing_equation(sp, rng):
    n = rng.choice(sp.nodes)
    n.attrs.append(Attr("int", "abad", kind="synthesized"))


@op
def missing_child_equation(sp, rng):
    cands = [(n, c) for n in sp.nodes for c in n.children if not sp.set(c.type) and c.type != sp.nodes[0].name]
    n, c = rng.choice(need(cands))
    sp.node(c.type).attrs.append(Attr("int", "abad", kind="inherited"))


@op
def member_inherited_not_in_set(sp, rng):
    """a member of a nodeset child with an inherited attribute that the nodeset does not have"""
    used = {c.type for n in sp.nodes for c in n.children}
    st = [(s, x) for s in sp.sets if s.name in used for x in s.members if not sp.node(x).root]
    s, x = rng.choice(need(st))
    sp.node(x).attrs.append(Attr("int", "memberonly", False, "inherited"))


@op
def unknown_equation_target(sp, rng):
    rng.choice(sp.nodes).eqs.append(Eq(("this", "nosuchattr"), []))


@op
def unknown_equation_child(sp, rng):
    n = rng.choice(sp.nodes)
    n.eqs.append(Eq(("nosuchchild", "x"), []))


@op
def unknown_equation_argument(sp, rng):
    n = rng.choice(sp.nodes)
    n.attrs.append(Attr("int", "abad", kind="synthesized"))
    n.eqs.append(Eq(("this", "abad"), [("this", "nosuchattr")]))


@op
def unknown_equation_argument_child(sp, rng):
    n = rng.choice(sp.nodes)
    n.attrs.append(Attr("int", "abad", kind="synthesized"))
    n.eqs.append(Eq(("this", "abad"), [("nosuchchild", "x")]))


@op
def equation_for_plain_attribute(sp, rng):
    n = rng.choice(sp.nodes)
    n.attrs.append(Attr("int", "abad"))
    n.eqs.append(Eq(("this", "abad"), []))


@op
def equation_for_own_inherited(sp, rng):
    n = rng.choice(need([n for n in sp.nodes if not n.root]))
    n.attrs.append(Attr("int", "abad", kind="inherited"))
    n.eqs.append(Eq(("this", "abad"), []))


@op
def circular_attributes(sp, rng):
    n = rng.choice(sp.nodes)
    k = rng.randint(1, 4)
    for i in range(k):
        n.attrs.append(Attr("int", "acir%d" % i, kind="synthesized"))
        n.eqs.append(Eq(("this", "acir%d" % i), [("this", "acir%d" % ((i + 1) % k))]))


@op
def circular_through_child(sp, rng):
    """this.s depends on child's s, child's inherited depends on this.s's input"""
    cands = [(n, c) for n in sp.nodes for c in n.children if not sp.set(c.type) and c.type != n.name and not sp.node(c.type).root
             and sum(1 for m in sp.nodes for d in m.children if c.type in sp.members(d.type)) == 1]
    n, c = rng.choice(need(cands))
    m = sp.node(c.type)
    m.attrs += [Attr("int", "ainh", kind="inherited"), Attr("int", "asyn", kind="synthesized")]
    m.eqs.append(Eq(("this", "asyn"), [("this", "ainh")]))
    n.eqs.append(Eq((c.name, "ainh"), [(c.name, "asyn")]))


@op
def traversal_without_uid(sp, rng):
    sp._raw = "traversal tnouid { nodes = {%s} };" % sp.nodes[0].name


@op
def travdata_unknown_type(sp, rng):
    t = rng.choice(need(sp.travs))
    t.data.append(Attr("nosuchtype", "dbad"))


@op
def travdata_duplicate(sp, rng):
    t = rng.choice(need(sp.travs))
    t.data += [Attr("int", "dbad"), Attr("bool", "dbad")]


@op
def traversal_unknown_node(sp, rng):
    sp.travs.append(Trav("tbad", "utbad", "{%s, nosuchnode}" % sp.nodes[0].name, []))
    sp.root_phase.acts.append(sp.travs[-1])


@op
def c_keyword(sp, rng):
    w = rng.choice("auto break case char const continue default do else extern for goto if inline long register restrict return short signed sizeof static struct switch typedef union unsigned void volatile while".split())
    k = rng.randrange(3)
    if k == 0:
        sp.nodes.append(Node(w))
    elif k == 1:
        rng.choice(sp.nodes).attrs.append(Attr("int", w))
    else:
        rng.choice(sp.nodes).children.append(Child(sp.nodes[-1].name, w))


@op
def ag_attribute_lifetime(sp, rng):
    n = rng.choice(sp.nodes)
    n.attrs.append(Attr("string", "abad", kind="synthesized", lts=[LT("disallowed", bare=True)]))
    n.eqs.append(Eq(("this", "abad"), []))


@op
def ag_attribute_constructor(sp, rng):
    n = rng.choice(sp.nodes)
    n.attrs.append(Attr("int", "abad", cons=True, kind="synthesized"))
    n.eqs.append(Eq(("this", "abad"), []))


@op
def bad_attribute_lifetime(sp, rng):
    """lifetimes only make sense for values that can be absent"""
    n = rng.choice(sp.nodes)
    t = rng.choice(["int", "bool", "double", "uint8", "user", "enum"])
    if t == "enum":
        if not sp.enums:
            sp.enums.append(Enum("ebad", "PBAD", ["vbad1", "vbad2"]))
        t = case_var(rng, rng.choice(sp.enums).name)
    n.attrs.append(Attr("void" if t == "user" else t, "abad", user=t == "user", lts=[LT(rng.choice(["disallowed", "mandatory"]), bare=True)]))


@op
def recursive_phase(sp, rng):
    """a phase that contains itself, possibly through other phases and possibly out of reach of the start phase"""
    k = rng.randint(1, 4)
    ps = [Phase("phrec%d" % i, [Pass("prec%d" % i)], cycle=rng.random() < 0.3) for i in range(k)]
    sp._raw = ";\n".join("%s phrec%d { actions { %s } }" % (rng.choice(["phase", "cycle"]), i, " ".join(rng.sample(["pass prec%d;" % i, "phrec%d;" % ((i + 1) % k)], 2))) for i in range(k)) + ";"
    if rng.random() < 0.7:
        sp.root_phase.acts.insert(rng.randrange(len(sp.root_phase.acts) + 1), _Ref("phrec%d" % rng.randrange(k)))


@op
def start_phase_in_itself(sp, rng):
    ph = rng.choice([a for a in sp.all_actions() if isinstance(a, Phase)])
    ph.acts.append(_Ref(case_var(rng, sp.root_phase.name)))


@op
def duplicate_enum_value(sp, rng):
    e = rng.choice(need(sp.enums))
    e.values.insert(rng.randrange(len(e.values) + 1), case_var(rng, rng.choice(e.values)))


@op
def action_has_taken_name(sp, rng):
    """a phase or pass named as something else, or with a uid that is the name or uid of something else"""
    used = [x for x, _ in all_names(sp)] + [t.uid for t in sp.travs] + [a.uid for a in sp.all_actions() if not isinstance(a, Trav) and a.uid]
    w = case_var(rng, rng.choice(used))
    sp._raw = rng.choice(["phase %s { actions { pass pnew1; } };", "phase phnew1 { uid = %s, actions { pass pnew1; } };", "cycle %s { actions { pass pnew1; } };",
                          "phase phnew1 { actions { pass %s; } };", "phase phnew1 { actions { pass pnew1 { uid = %s, func = fnew1 }; } };",
                          "traversal %s { uid = unew1 };", "traversal tnew1 { uid = %s };"]) % w


@op
def duplicate_pass_function(sp, rng):
    k = rng.randrange(2)
    sp.root_phase.acts += [Pass("pdupf0", func="fdup", short=rng.random() < 0.5), Pass("pdupf1", uid="udupf1" if k else None, func=case_var(rng, "fdup"), short=not k)]


@op
def reserved_action_uid(sp, rng):
    u = case_var(rng, rng.choice(["TRAV", "TRV", "CCN", "PASS", "CPY", "CHK", "DEL", "EVAL"]))
    sp._raw = rng.choice(["phase phnew1 { uid = %s, actions { pass pnew1; } };", "phase phnew1 { actions { pass pnew1 { uid = %s, func = fnew1 }; } };"]) % u


@op
def travdata_of_action_type(sp, rng):
    t = rng.choice(need(sp.travs))
    t.data.append(Attr(case_var(rng, rng.choice(sp.all_actions()).name), "dbad"))


@op
def travdata_duplicate_case(sp, rng):
    t = rng.choice(need([t for t in sp.travs if t.data]))
    d = rng.choice(t.data)
    t.data.insert(rng.randrange(len(t.data) + 1), Attr("int", case_var(rng, d.name)))


@op
def attribute_of_action_type(sp, rng):
    a = Attr(case_var(rng, rng.choice(sp.all_actions()).name), "abad")
    rng.choice(sp.nodes + [s for s in sp.sets if s.plain]).attrs.append(a)


@op
def set_reference_not_a_set(sp, rng):
    w = case_var(rng, rng.choice([n for n, k in all_names(sp) if k != "nodeset"]))
    e = rng.choice(["{%s} | %s", "%s | {%s}", "{%s} & (%s)", "({%s} - %s)", "%s - {%s}"])
    a = (w, sp.nodes[0].name) if e[0] == "%" else (sp.nodes[0].name, w)
    if rng.random() < 0.5:
        sp.sets.append(NodeSet("sbad", e % a, []))
    else:
        sp.travs.append(Trav("tbad", "utbad", e % a, []))
        sp.root_phase.acts.append(sp.travs[-1])


@op
def node_named_node(sp, rng):
    sp.nodes.append(Node(case_var(rng, "nOde") if rng.random() < 0.9 else "Node"))


@op
def child_named_as_set_attribute(sp, rng):
    s = rng.choice(need([s for s in sp.sets if s.plain]))
    a = rng.choice(s.attrs) if s.attrs and rng.random() < 0.7 else Attr("int", "aclash")
    if a not in s.attrs:
        s.attrs.append(a)
    n = sp.node(rng.choice(s.members))
    n.children.append(Child(sp.nodes[-1].name, case_var(rng, a.name)))


@op
def set_attribute_repeated_in_node(sp, rng):
    """only with the same type, of no grammar kind, and only to add the constructor keyword"""
    s = rng.choice(need([s for s in sp.sets if s.plain]))
    n = sp.node(rng.choice(s.members))
    k = rng.randrange(4)
    if k == 0:
        a, b = Attr("int", "aclash"), Attr("int", "aclash")
    elif k == 1:
        a, b = Attr("int", "aclash"), Attr(rng.choice(["bool", "string", "uint8", "int64", sp.nodes[0].name]), "aclash", cons=True)
    elif k == 2:
        a, b = Attr("int", "aclash"), Attr("int", "aclash", kind="synthesized")
        n.eqs.append(Eq(("this", "aclash"), []))
    else:
        a, b = Attr("int", "aclash", kind="synthesized"), rng.choice([Attr("int", "aclash", kind="synthesized"), Attr("int", "aclash", cons=True), Attr("int", "aclash")])
        for m in s.members:
            sp.node(m).eqs.append(Eq(("this", "aclash"), []))
    s.attrs.append(a)
    b.name = case_var(rng, b.name)
    n.attrs.append(b)


@op
def set_attribute_in_two_sets(sp, rng):
    """sets that share a member, or of which one contains the other, declare one attribute"""
    s = rng.choice(need([s for s in sp.sets if s.plain]))
    kind = rng.choice(["", "", "synthesized"])
    s.attrs.append(Attr("int", "aclash", kind=kind))
    if rng.random() < 0.5:
        m = [rng.choice(s.members)]
        o = NodeSet("sbad", "{%s}" % m[0], m, [Attr("int", case_var(rng, "aclash"), kind=kind)])
    else:
        m = list(s.members)
        o = NodeSet("sbad", rng.choice(["%s | {%s}" % (s.name, sp.nodes[0].name), "{%s} | %s" % (sp.nodes[-1].name, s.name)]), m, [Attr("int", "aclash", kind=kind)])
    sp.sets.insert(rng.randrange(len(sp.sets) + 1), o)
    if kind:
        for x in sp.nodes:
            x.eqs.append(Eq(("this", "aclash"), []))


@op
def equation_for_unknown_child_attribute(sp, rng):
    n = rng.choice(need([n for n in sp.nodes if n.children]))
    n.eqs.append(Eq((rng.choice(n.children).name, "nosuchattr"), []))


@op
def equation_argument_unknown_child_attribute(sp, rng):
    n = rng.choice(need([n for n in sp.nodes if n.children]))
    n.attrs.append(Attr("int", "abad", kind="synthesized"))
    n.eqs.append(Eq(("this", "abad"), [(rng.choice(n.children).name, "nosuchattr")]))


@op
def equation_for_childs_synthesized(sp, rng):
    cands = [(n, c) for n in sp.nodes for c in n.children if not sp.set(c.type)]
    n, c = rng.choice(need(cands))
    m = sp.node(c.type)
    m.attrs.append(Attr("int", "asynb", kind="synthesized"))
    m.eqs.append(Eq(("this", "asynb"), []))
    n.eqs.append(Eq((c.name, "asynb"), []))


@op
def lifetime_path_through_a_pass(sp, rng):
    """only a phase has something inside it to name"""
    ps = [a for a in sp.root_phase.acts if not isinstance(a, Phase)]
    a = rng.choice(need(ps))
    b = rng.choice(sp.root_phase.acts)
    add_lifetime(sp, rng, LT(rng.choice(["disallowed", "optional", "mandatory", "allowed"]), (a.name + "." + b.name, rng.random() < 0.5), None))


@op
def lifetime_path_outside_the_phase(sp, rng):
    """the second part of a path is looked for inside the first only"""
    ph = rng.choice(need([a for a in sp.root_phase.acts if isinstance(a, Phase)]))
    inside = set()

    def go(p):
        for a in p.acts:
            inside.add(a.name)
            if isinstance(a, Phase):
                go(a)
    go(ph)
    out = rng.choice(need([a for a in sp.root_phase.acts if a.name not in inside]))
    l = (ph.name + "." + out.name, rng.random() < 0.5)
    add_lifetime(sp, rng, LT(rng.choice(["disallowed", "optional", "mandatory"]), *rng.sample([l, None], 2)))


@op
def lifetime_names_a_type(sp, rng):
    """lifetimes range over actions"""
    w = rng.choice(sp.nodes + sp.sets + sp.enums).name
    add_lifetime(sp, rng, LT("disallowed", *rng.sample([(w, True), None], 2)))


@op
def attribute_named_as_child_of_same_node(sp, rng):
    n = rng.choice(need([n for n in sp.nodes if n.attrs]))
    n.children.append(Child(sp.nodes[0].name, case_var(rng, rng.choice(n.attrs).name)))


@op
def duplicate_set_attribute(sp, rng):
    s = rng.choice(need([s for s in sp.sets if s.plain]))
    s.attrs += [Attr("int", "adup"), Attr(rng.choice(["int", "bool"]), case_var(rng, "adup"))]


def some_equation(sp, rng):
    """a node with an equation, made if there is none"""
    cands = [n for n in sp.nodes if n.eqs]
    if cands:
        return rng.choice(cands)
    n = rng.choice(sp.nodes)
    n.attrs.append(Attr("int", "aeq", kind="synthesized"))
    n.eqs.append(Eq(("this", "aeq"), []))
    return n


def case_ref(rng, r):
    return (r[0] if r[0] == "this" else case_var(rng, r[0]), case_var(rng, r[1]))


@op
def duplicate_equation(sp, rng):
    n = some_equation(sp, rng)
    e = rng.choice(n.eqs)
    n.eqs.insert(rng.randint(0, len(n.eqs)), Eq(case_ref(rng, e.target), rng.choice([[], list(e.deps)])))


@op
def duplicate_equation_argument(sp, rng):
    n = some_equation(sp, rng)
    es = [e for e in n.eqs if e.deps]
    if es:
        e = rng.choice(es)
    else:
        n.attrs.append(Attr("int", "aarg", kind="synthesized"))
        n.eqs.append(Eq(("this", "aarg"), []))
        n.attrs.append(Attr("int", "ares", kind="synthesized"))
        e = Eq(("this", "ares"), [("this", "aarg")])
        n.eqs.append(e)
    e.deps.insert(rng.randint(0, len(e.deps)), case_ref(rng, rng.choice(e.deps)))


TEXT_OPS = {}


def top(f):
    TEXT_OPS[f.__name__] = f
    return f


@top
def drop_brace(t, rng):
    pos = [i for i, c in enumerate(t) if c in "{}"]
    i = rng.choice(pos)
    return t[:i] + t[i + 1:]


@top
def truncate(t, rng):
    """stop inside an entity"""
    pos = [i for i, c in enumerate(t) if c == "{"]
    return t[:rng.choice(pos) + 1]


@top
def stray_token(t, rng):
    pos = [m.end() for m in re.finditer(r"[{};,]", t)]
    i = rng.choice(pos)
    return t[:i] + rng.choice([" ! ", " 12 ", " = ", " ) ", " -> ", " }{ ", " 1.5 "]) + t[i:]


@top
def stray_character(t, rng):
    pos = [m.end() for m in re.finditer(r"[{};,]", t)]
    i = rng.choice(pos)
    return t[:i] + rng.choice(["$", "@", "#", "%", "\x01", "\xff", "`", "?"]) + t[i:]


@top
def binary_garbage(t, rng):
    return "".join(chr(rng.randrange(1, 256)) for _ in range(rng.randint(1, 400)))


@top
def empty_input(t, rng):
    return rng.choice(["", "\n", "  \n\n", "// nothing\n", "/* */\n"])


def gen(seed, which=None, opts=None):
    """(operator, text) or None when the operator does not fit the specification"""
    rng = random.Random(seed)
    o = dict(opts or {})
    sp = specgen.gen_spec(rng.randrange(1 << 40), **o)
    name = which or rng.choice(sorted(OPS) + sorted(TEXT_OPS))
    try:
        if name in OPS:
            sp._raw = ""
            OPS[name](sp, rng)
            if rng.random() < 0.2:
                # a second broken rule: errors are reported together
                second = rng.choice(sorted(OPS))
                if not any(w in name and w in second for w in ("root", "start")):
                    try:
                        OPS[second](sp, rng)
                    except Exception:
                        pass    # it does not fit what the first left
            t = sp.text()
            if sp._raw:
                t = t.rstrip().rstrip(";") + ";\n" + sp._raw + "\n"
            return name, t
        sp.mixed = False
        return name, TEXT_OPS[name](sp.text(), rng)
    except Skip:
        return None

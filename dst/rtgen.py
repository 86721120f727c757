"""Builds one generated compiler for a specification: runs the real generator
(in the simulator), adds the wrappers the runtime workload needs, compiles the
output together with copra, palm and the simulator."""
import hashlib, itertools, os, random, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import build, core, simrun, specgen
from build import CC, CFLAGS, LDFLAGS, REPO, VERIF, BUILD, ENV

KIND = {"bool": ("RK_BOOL", 1), "string": ("RK_STR", 8), "int": ("RK_INT", 4), "float": ("RK_FLOAT", 4), "double": ("RK_DOUBLE", 8),
        **{"int%d" % b: ("RK_INT", b // 8) for b in (8, 16, 32, 64)}, **{"uint%d" % b: ("RK_UINT", b // 8) for b in (8, 16, 32, 64)}}
GF = ["-O1", "-g0", "-w", "-fno-omit-frame-pointer", "-fno-optimize-sibling-calls", "-fno-pie", "-std=gnu17"]


def attr_kind(sp, a):
    """(kind, size, nenum)"""
    if a.user:
        return "RK_USER", 8, 0
    if a.type in KIND:
        return KIND[a.type] + (0,)
    for e in sp.enums:
        if e.name == a.type:
            return "RK_ENUM", 4, len(e.values)
    return "RK_NODE", 8, 0


def ctype(sp, a):
    if a.user:
        return a.type
    if a.type in specgen.CTYPE:
        return specgen.CTYPE[a.type]
    for e in sp.enums:
        if e.name == a.type:
            return "enum " + a.type
    return "node_st *"


def pass_func(p):
    return p.func if p.func else (p.uid.upper() + p.name if p.uid else p.name)


def passes(sp):
    out = []
    for a in sp.all_actions():
        if isinstance(a, specgen.Pass) and a not in out:
            out.append(a)
    return out


def gates(sp):
    return [a for a in sp.all_actions() if isinstance(a, specgen.Phase) and a.gate]


def targets(sp, t):
    return list(t.members) if t.members is not None else [n.name for n in sp.nodes]


def to_val(k, e):
    if k in ("RK_FLOAT", "RK_DOUBLE"):
        return "(uint64_t)(int64_t)((%s) * 8)" % e
    if k == "RK_BOOL":
        return "(uint64_t)(%s)" % e
    if k == "RK_UINT":
        return "(uint64_t)(%s)" % e
    return "(uint64_t)(int64_t)(%s)" % e


def from_hash(a, k, e):
    if k in ("RK_STR", "RK_NODE", "RK_USER"):
        return "(%s, NULL)" % e
    if k == "RK_ENUM":
        return "(enum %s)(%s %% ENUMSIZE)" % (a.type, e)
    if k in ("RK_FLOAT", "RK_DOUBLE"):
        return "(%s)((double)(int)(%s %% 4096) / 8)" % (specgen.CTYPE[a.type], e)
    if k == "RK_BOOL":
        return "(bool)(%s & 1)" % e
    return "(%s)(%s)" % (specgen.CTYPE[a.type], e)


def mandatory(c):
    return any(l.kind == "mandatory" and l.bare for l in c.lts)


def eq_variants(sp, n, e):
    """[(C function name, [(who, attr object) passed])] for every combination of absent optional children"""
    chs = []
    for who, _ in e.deps:
        if who != "this" and who not in chs and not mandatory(next(c for c in n.children if c.name == who)):
            chs.append(who)
    base = "EVAL%s_%s_%s" % (n.name.lower(), e.target[0].lower(), e.target[1].lower())
    out = []
    for absent in itertools.product([False, True], repeat=len(chs)):
        gone = [c for c, x in zip(chs, absent) if x]
        out.append((base + "".join("_%s_NULL" % c.lower() for c in gone), [d for d in e.deps if d[0] not in gone], gone))
    return out


def find_attr(sp, n, who, name):
    if who == "this":
        return next(a for a in sp.node_attrs(n) if a.name == name)
    c = next(c for c in n.children if c.name == who)
    return next(a for a in sp.type_attrs(c.type) if a.name == name)


ACC_LINE = 5001


class Acc:
    """one accessor macro: the owner's name as written, the node types it takes, the field"""

    def __init__(self, owner, members, field, attr):
        self.name = "%s_%s" % (owner.upper(), field.upper())
        self.owner, self.members, self.field, self.attr = owner, members, field, attr


def accessors(sp):
    out = []
    for n in sp.nodes:
        out += [Acc(n.name, [n.name], c.name, None) for c in n.children]
        out += [Acc(n.name, [n.name], a.name, a) for a in sp.node_attrs(n)]
    for s in sp.sets:
        out += [Acc(s.name, s.members, a.name, a) for a in sp.set_attrs(s)]
    return out


def emit(sp):
    o = ['#include <stdint.h>', '#include <stdbool.h>', '#include "ccn/ccn.h"', '#include "ccngen/ast.h"', '#include "ccngen/trav.h"', '#include "ccngen/trav_data.h"',
         '#include "ccngen/enum.h"', '#include "palm/ctinfo.h"', '#include "palm/memory.h"']
    # a root from which no attribute can be reached has nothing to evaluate
    reach, todo = set(), [n for n in sp.nodes if n.root]
    while todo:
        n = todo.pop()
        if n.name not in reach:
            reach.add(n.name)
            todo += [sp.node(x) for c in n.children for x in sp.members(c.type)]
    has_ag = any(a.kind for n in sp.nodes if n.name in reach for a in sp.node_attrs(n))
    o.append('#include "ccngen/ag.h"')
    o.append("""
#define RT_TYPES_ONLY
enum { RK_BOOL, RK_STR, RK_INT, RK_UINT, RK_FLOAT, RK_DOUBLE, RK_ENUM, RK_NODE, RK_USER };
struct rt_attr { const char *name; int kind, size; bool cons; int nenum; int ag; };
struct rt_child { const char *name; uint64_t mask; bool cons; void *(*trav)(void *); bool mand; };
struct rt_type { const char *name; int nch, nat; const struct rt_child *ch; const struct rt_attr *at; };
struct rt_acc { const char *name; uint64_t mask; const struct rt_attr a; int child; };
struct rt_trav { const char *uid; int id; int ndata; const struct rt_attr *data; };
union rt_val { int64_t i; uint64_t u; double d; void *p; };
void *rt_trav(int trav, int type, void *n);
void *rt_pass(int pass, void *n);
bool rt_gate(int gate);
void rt_init(int trav);
void rt_fini(int trav);
uint64_t rt_ag_mix(const char *fn, int n, const uint64_t *v);
""")
    idx = {n.name: i + 1 for i, n in enumerate(sp.nodes)}

    def mask(t):
        m = 0
        for x in sp.members(t):
            m |= 1 << idx[x]
        return m

    def attr_row(a):
        k, sz, ne = attr_kind(sp, a)
        return '{"%s", %s, %d, %d, %d, %d}' % (a.name, k, sz, a.cons, ne, 1 if a.kind else 0)
    for n in sp.nodes:
        i = idx[n.name]
        if n.children:
            o.append("static const struct rt_child ch_%d[] = {%s};" % (i, ", ".join('{"%s", %dull, %d, (void *(*)(void *))TRAV%s, %d}' % (c.name, mask(c.type), c.cons, c.name.lower(), mandatory(c)) for c in n.children)))
        at = sp.node_attrs(n)
        if at:
            o.append("static const struct rt_attr at_%d[] = {%s};" % (i, ", ".join(attr_row(a) for a in at)))
    o.append("const struct rt_type rt_types[] = {{0}, %s};" % ", ".join(
        '{"%s", %d, %d, %s, %s}' % (n.name, len(n.children), len(sp.node_attrs(n)), "ch_%d" % idx[n.name] if n.children else "0", "at_%d" % idx[n.name] if sp.node_attrs(n) else "0") for n in sp.nodes))
    o.append("const int rt_ntypes = %d, rt_root_type = %d;" % (len(sp.nodes), idx[next(n.name for n in sp.nodes if n.root)]))
    o.append("const uint64_t rt_typemask_all = %dull;" % sum(1 << i for i in idx.values()))
    # access
    o.append("void *rt_attr_ptr(void *p, int type, int k) { node_st *n = p; switch (type * 100 + k) {")
    for n in sp.nodes:
        for k, a in enumerate(sp.node_attrs(n)):
            acc = "%s_%s(n)" % (n.name.upper(), a.name.upper())
            if a.kind:
                o.append("case %d: { static %s tmp; tmp = %s; return &tmp; }" % (idx[n.name] * 100 + k, ctype(sp, a), acc))
            else:
                o.append("case %d: return &%s;" % (idx[n.name] * 100 + k, acc))
    o.append("} return 0; }")
    accs = accessors(sp)
    if accs:
        o.append("const struct rt_acc rt_accs[] = {%s};" % ", ".join('{"%s", %dull, %s, %d}' % (c.name, sum(1 << idx[x] for x in c.members), attr_row(c.attr) if c.attr else '{"", RK_NODE, 8, 0, 0, 0}', c.attr is None) for c in accs))
    else:
        o.append("const struct rt_acc rt_accs[1];")
    o.append("const int rt_naccs = %d;" % len(accs))
    o.append("void *rt_acc_ptr(int acc, void *p) { node_st *n = p; switch (acc) {")
    for k, c in enumerate(accs):
        if c.attr is not None and c.attr.kind:
            o.append('case %d: { static %s tmp; tmp =\n#line %d "access.c"\n%s(n); return &tmp; }' % (k, ctype(sp, c.attr), ACC_LINE + k, c.name))
        else:
            o.append('case %d: return\n#line %d "access.c"\n&%s(n);' % (k, ACC_LINE + k, c.name))
    o.append("} return 0; }")
    o.append("void **rt_child_ptr(void *p, int type, int k) { node_st *n = p; switch (type * 100 + k) {")
    for n in sp.nodes:
        for k, c in enumerate(n.children):
            o.append("case %d: return (void **)&%s_%s(n);" % (idx[n.name] * 100 + k, n.name.upper(), c.name.upper()))
    o.append("} return 0; }")
    o.append("void *rt_construct(int type, void **ch, union rt_val *at) { switch (type) {")
    for n in sp.nodes:
        args = ["ch[%d]" % k for k, c in enumerate(n.children) if c.cons]
        for k, a in enumerate(n.attrs):
            pass
        full = sp.node_attrs(n)
        for k, a in enumerate(full):
            if a.cons:
                kd = attr_kind(sp, a)[0]
                fld = "d" if kd in ("RK_FLOAT", "RK_DOUBLE") else "p" if kd in ("RK_STR", "RK_NODE", "RK_USER") else "i"
                args.append("(%s)at[%d].%s" % (ctype(sp, a), k, fld))
        o.append("case %d: return AST%s(%s);" % (idx[n.name], n.name.lower(), ", ".join(args)))
    o.append("} return 0; }")
    o.append("int rt_node_type(void *p) { switch (NODE_TYPE((node_st *)p)) {")
    for n in sp.nodes:
        o.append("case NT_%s: return %d;" % (n.name.upper(), idx[n.name]))
    o.append("default: return 0; } }")
    o.append("long rt_node_numchildren(void *p) { return NODE_NUMCHILDREN((node_st *)p); }")
    o.append("void **rt_node_children(void *p) { return (void **)NODE_CHILDREN((node_st *)p); }")
    o.append("char **rt_node_file(void *p) { return &NODE_FILENAME((node_st *)p); }")
    o.append("uint32_t *rt_node_loc(void *p, int k) { node_st *n = p; return k == 0 ? &NODE_BLINE(n) : k == 1 ? &NODE_ELINE(n) : k == 2 ? &NODE_BCOL(n) : &NODE_ECOL(n); }")
    # traversals
    for i, t in enumerate(sp.travs):
        U = t.uid.upper()
        if t.data:
            o.append("static const struct rt_attr dt_%d[] = {%s};" % (i, ", ".join(attr_row(a) for a in t.data)))
            o.append("void %sinit() { rt_init(%d); }\nvoid %sfini() { rt_fini(%d); }" % (U, i, U, i))
        for m in targets(sp, t):
            o.append("node_st *%s%s(node_st *n) { return rt_trav(%d, %d, n); }" % (U, m.lower(), i, idx[m]))
    if sp.travs:
        o.append("const struct rt_trav rt_travs[] = {%s};" % ", ".join('{"%s", TRAV_%s, %d, %s}' % (t.uid, t.uid.upper(), len(t.data), "dt_%d" % i if t.data else "0") for i, t in enumerate(sp.travs)))
    else:
        o.append("const struct rt_trav rt_travs[1];")
    o.append("const int rt_ntravs = %d;" % len(sp.travs))
    o.append("int rt_cur_trav(void) { return TRAVgetCurrent() ? (int)TRAVgetCurrent()->trav_type : -1; }")
    o.append("void *rt_data_ptr(int trav, int k) { switch (trav * 100 + k) {")
    for i, t in enumerate(sp.travs):
        for k, a in enumerate(t.data):
            o.append("case %d: return &(DATA_%s_GET()->%s);" % (i * 100 + k, t.uid.upper(), a.name))
    o.append("} return 0; }")
    for i, p in enumerate(passes(sp)):
        o.append("node_st *%s(node_st *n) { return rt_pass(%d, n); }" % (pass_func(p), i))
    o.append("const int rt_npasses = %d;" % len(passes(sp)))
    o.append("const int rt_pass_ids[] = {%s};" % ", ".join(["PASS_" + p.name.upper() for p in passes(sp)] + ["0"]))
    for i, p in enumerate(gates(sp)):
        o.append("bool %s() { return rt_gate(%d); }" % (p.gate, i))
    # attribute grammar
    o.append("int rt_eval_root(void *n) { %s return 0; }" % ("CCNevaluateAttributes((node_st *)n);" if has_ag else ""))
    for n in sp.nodes:
        for e in n.eqs:
            ta = find_attr(sp, n, *e.target)
            tk = attr_kind(sp, ta)[0]
            for name, deps, _ in eq_variants(sp, n, e):
                das = [find_attr(sp, n, *d) for d in deps]
                args = ", ".join("%s x%d" % (ctype(sp, a), j) for j, a in enumerate(das)) or "void"
                vals = ", ".join(to_val(attr_kind(sp, a)[0], "x%d" % j) for j, a in enumerate(das))
                o.append("%s %s(%s) { uint64_t v[] = {%s}; return %s; }" % (ctype(sp, ta), name, args, vals or "0", from_hash(ta, tk, 'rt_ag_mix("%s", %d, v)' % (name, len(das))).replace("ENUMSIZE", str(attr_kind(sp, ta)[2] + 1))))
    return "\n".join(o) + "\n"


USER_TYPES = "#pragma once\ntypedef void *Foo;\n"


Failed = core.NoExe


def spec_of(case):
    g = dict(case["gen"])
    if "fixed" in g:
        return specgen.FIXED[g["fixed"]]()
    sp = specgen.gen_spec(g.pop("seed"), **{k: tuple(v) if isinstance(v, list) else v for k, v in g.items()})
    for e in case.get("edits", []):
        specgen.edit(sp, e)
    return sp


_mem = {}


def key_of(case):
    import json
    return hashlib.sha256(json.dumps([case["gen"], case.get("edits", []), case.get("ack", 0), case.get("ndebug", 0)] + (["stubs"] if case.get("stubs") else []), sort_keys=True).encode()).hexdigest()[:20]


_trees = {}


def tree_key():
    if "k" not in _trees:
        _trees["k"] = build.tree_hash([REPO + "/cocogen", REPO + "/palm", REPO + "/copra", VERIF + "/sim", VERIF + "/dst"], (".c", ".h", ".y", ".l", ".txt", ".py"))
    return _trees["k"]


def build_all(cases):
    """builds every distinct specification of the cases; fills _mem"""
    todo = {}
    for c in cases:
        k = key_of(c)
        if k not in _mem and k not in todo:
            todo[k] = c
    if not todo:
        return
    gen = build.generator()
    _, palm, simo = build.base_objects()
    rto = rt_object()
    items = list(todo.items())
    sps = [spec_of(c) for _, c in items]
    texts = [sp.text() for sp in sps]
    runs = [simrun.Run([simrun.Step(["cocogen", "--gen-dir", "g/", "m.ccn"])], {"seed": 1, "heap_seed": 1, "heap_fill": 257, "dumpfiles": 1}, {"m.ccn": t.encode()}) for t in texts]
    res = []
    for i in range(0, len(runs), 16):
        res.append(runs[i:i + 16])
    with ThreadPoolExecutor(8) as ex:
        res = [r for part in ex.map(lambda p: simrun.exec_plan(gen, p), res) for r in part]

    def one(i):
        k, c = items[i]
        st = res[i][0]
        if st.code != 0:
            if b"oop" in st.err:
                return k, Failed("refused", "attributes cannot be scheduled")
            return k, Failed("generate", "the generator exits %d on a valid specification: %s" % (st.code, st.err.decode("latin1")[-300:]))
        h = hashlib.sha256((tree_key() + k).encode()).hexdigest()[:24]
        d = os.path.join(BUILD, "rt-" + h)
        if os.path.exists(d + "/ok"):
            return k, d + "/exe"
        shutil.rmtree(d, ignore_errors=True)
        src = d + "/src"
        os.makedirs(src)
        files, stubs = {}, {}
        for p, v in st.vfs.items():
            if v.isdir or not p.startswith("g/") or not p.endswith((".c", ".h")):
                continue
            if "/user/" in p:
                stubs[os.path.basename(p)] = v.data
                continue
            q = os.path.join(src, p[2:])
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "wb") as f:
                f.write(v.data)
            files[p[2:]] = q
        with open(src + "/rt_glue.c", "w") as f:
            f.write(emit(sps[i]))
        with open(src + "/user_types.h", "w") as f:
            f.write(USER_TYPES + ("#define CCN_USES_UNSAFE_ACKNOWLEDGE\n" if c.get("ack") else ""))
        cs = [q for p, q in sorted(files.items()) if p.endswith(".c")] + [src + "/rt_glue.c"] + build.copra_sources()
        fl = GF + (["-DNDEBUG"] if c.get("ndebug") else [])
        inc = ["-I" + src, "-I" + REPO + "/copra", "-I" + REPO + "/palm/include"]
        cmd = [CC, *fl, *build.COV, *(["-g1"] if build.COV else []), *inc, "-o", d + "/exe", *cs, rto, *palm, simo, *LDFLAGS]
        p = subprocess.run(cmd, cwd=src, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
        if p.returncode != 0:
            import re
            msg = p.stdout.decode("utf8", "replace")
            lines = [l for l in msg.splitlines() if "error" in l or "undefined" in l or "multiple def" in l]
            det = re.sub(r"\S*/src/", "", "; ".join(lines[:3]) or msg[-300:])
            shutil.rmtree(d, ignore_errors=True)
            return k, Failed("compile", "the generated compiler does not build: " + re.sub(r"/tmp/cc\w+\.o", "obj", det))
        if c.get("stubs"):
            f = link_stubs(sps[i], src, [x for x in cs if not x.endswith("/rt_glue.c")], stubs, fl + inc, palm)
            if f:
                shutil.rmtree(d, ignore_errors=True)
                return k, f
        shutil.rmtree(src, ignore_errors=True)
        open(d + "/ok", "w").close()
        return k, d + "/exe"
    with ThreadPoolExecutor(8) as ex:
        for k, v in ex.map(one, range(len(items))):
            _mem[k] = v
    if os.environ.get("DST_IMPORTS") and any(isinstance(v, str) for v in _mem.values()):
        build.check_imports(next(v for v in _mem.values() if isinstance(v, str)))


def link_stubs(sp, src, cs, stubs, flags, palm):
    """the generated stubs of the user code complete the program, but for main, gates and breakpoint handler"""
    d = src + "/stubs"
    os.makedirs(d)
    own = []
    for n, t in sorted(stubs.items()):
        own.append(d + "/" + n)
        with open(own[-1], "wb") as f:
            f.write(t)
    with open(d + "/m_a_i_n.c", "w") as f:
        f.write('#include <stdbool.h>\n#include "ccn/ccn.h"\nvoid BreakpointHandler(node_st *n) {}\n' + "".join("bool %s(void) { return 1; }\n" % g for g in sorted({a.gate for a in gates(sp)})) + "int main(void) { CCNrun((void *)0); return 0; }\n")
    p = subprocess.run([CC, *[x for x in flags if x not in ("-O1", "-g0")], "-O0", "-Werror=implicit-function-declaration", "-o", d + "/exe", *cs, *own, d + "/m_a_i_n.c", *palm, "-no-pie", "-lm"], cwd=src, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    if p.returncode == 0:
        # the signatures agree as well: here () is (void)
        p = subprocess.run([CC, *[x for x in flags if not x.startswith(("-std", "-O", "-g"))], "-std=gnu2x", "-fsyntax-only", *own], cwd=src, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
        if p.returncode == 0:
            return None
    import re
    msg = p.stdout.decode("utf8", "replace")
    lines = [l for l in msg.splitlines() if "error:" in l or "undefined" in l or "multiple def" in l]
    det = re.sub(r"\S*/src/", "", "; ".join(lines[:3]) or msg[-300:])
    return Failed("compile", "the generated compiler does not build with its generated stubs: " + re.sub(r"/tmp/cc\w+\.o", "obj", det))


def rt_object():
    d, _, _ = build.base_objects()
    o = d + "/rt.o"
    if not os.path.exists(o):
        with build.Lock("rt"):
            if not os.path.exists(o):
                build.run([CC, *CFLAGS, "-I" + VERIF + "/sim", "-c", VERIF + "/sim/rt.c", "-o", o + ".tmp.o"])
                os.rename(o + ".tmp.o", o)
    return o


def exe_of(case):
    k = key_of(case)
    if k not in _mem:
        build_all([case])
    return _mem[k]

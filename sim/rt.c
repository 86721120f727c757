#include "rt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

/* the public interface of the runtime library, by its documented names */
void CCNrun(void *);
void CCNcycleNotify(void);
size_t CCNgetCurrentActionId(void);
void CCNerrorPhase(void);
void CCNerrorAction(void);
void CCNsetBreakpoint(char *);
void CCNsetBreakpointWithID(size_t);
void CCNsetCycles(size_t);
void CCNsetVerbosity(int);
void CCNsetTreeCheck(bool);
void CCNshowTree(void);
void *CCNcopy(void *);
void *CCNfree(void *);
void *TRAVopt(void *);
void *TRAVdo(void *);
void *TRAVchildren(void *);
void *TRAVnop(void *);
void *TRAVstart(void *, int);
void TRAVpush(int);
void TRAVpop(void);
void *PASSstart(void *, int);
void CTI(int type, bool newline, const char *format, ...);
int CTIgetErrors(void);
int CTIgetWarnings(void);
void CTIabortOnError(void);
void *MEMfree(void *);
char *STRcpy(const char *);
char *STRfmt(const char *, ...);

#define EV sim_event
static unsigned feat[128]; /* feature weights, by letter */
static int budget, depth, treemax, anon, reach_dump;
static int opt_wrong, opt_mand;

static uint32_t seq(const void *p) { return p ? sim_block_seq(p) : 0; }

/* ---- values ---- */
static int fmt_val(char *b, int n, const struct rt_attr *a, const void *p) {
    switch (a->kind) {
    case RK_BOOL: return snprintf(b, n, "%d", *(const unsigned char *)p);
    case RK_INT:
    case RK_ENUM: {
        int64_t v = a->size == 1 ? *(const int8_t *)p : a->size == 2 ? *(const int16_t *)p : a->size == 4 ? *(const int32_t *)p : *(const int64_t *)p;
        return snprintf(b, n, "%lld", (long long)v);
    }
    case RK_UINT: {
        uint64_t v = a->size == 1 ? *(const uint8_t *)p : a->size == 2 ? *(const uint16_t *)p : a->size == 4 ? *(const uint32_t *)p : *(const uint64_t *)p;
        return snprintf(b, n, "%llu", (unsigned long long)v);
    }
    case RK_FLOAT: return snprintf(b, n, "%.9g", (double)*(const float *)p);
    case RK_DOUBLE: return snprintf(b, n, "%.17g", *(const double *)p);
    case RK_STR: {
        const char *s = *(char *const *)p;
        if (!s) return snprintf(b, n, "NULL");
        uint32_t q = seq(s);
        if (!q) return snprintf(b, n, "BAD");
        uint64_t sz = sim_block_size(s);
        if (!memchr(s, 0, sz)) return snprintf(b, n, "UNTERMINATED");
        return snprintf(b, n, "%u\"%.40s", q, s);
    }
    case RK_NODE: {
        void *q = *(void *const *)p;
        return q ? snprintf(b, n, "n%u", seq(q)) : snprintf(b, n, "NULL");
    }
    case RK_USER: return snprintf(b, n, "u%lu", (unsigned long)*(const uintptr_t *)p);
    }
    return 0;
}
static void store_val(const struct rt_attr *a, void *p, union rt_val v) {
    switch (a->kind) {
    case RK_BOOL: *(unsigned char *)p = v.i != 0; break;
    case RK_INT:
    case RK_ENUM:
    case RK_UINT:
        if (a->size == 1) *(int8_t *)p = v.i;
        else if (a->size == 2) *(int16_t *)p = v.i;
        else if (a->size == 4) *(int32_t *)p = v.i;
        else *(int64_t *)p = v.i;
        break;
    case RK_FLOAT: *(float *)p = v.d; break;
    case RK_DOUBLE: *(double *)p = v.d; break;
    case RK_STR:
    case RK_NODE:
    case RK_USER: *(void **)p = v.p; break;
    }
}

/* nodes offered as targets of node attributes; may be dead by then: only the
 * address is used */
static void *recent[8];
static int nrecent;

static union rt_val gen_val(const struct rt_attr *a) {
    union rt_val v;
    v.u = 0;
    switch (a->kind) {
    case RK_BOOL: v.i = sim_choose(2); break;
    case RK_INT: {
        static const int64_t big[] = {127, -128, 0, 1, -1};
        v.i = sim_choose(4) ? (int64_t)sim_choose(100) - 50 : big[sim_choose(5)];
        if (a->size == 8 && sim_choose(3) == 0) v.i = v.i * 72057594037927931LL;
        break;
    }
    case RK_UINT:
        v.u = sim_choose(4) ? sim_choose(100) : 255;
        if (a->size == 8 && sim_choose(3) == 0) v.u = v.u * 72057594037927931ULL;
        break;
    case RK_FLOAT:
    case RK_DOUBLE: v.d = ((double)sim_choose(2001) - 1000) / 4; break;
    case RK_ENUM: v.i = sim_choose(a->nenum + 1); break;
    case RK_STR:
        if (sim_choose(3) == 0) v.p = NULL;
        else {
            int len = sim_choose(4) ? sim_choose(6) : sim_choose(34);
            char buf[40];
            for (int i = 0; i < len; i++) buf[i] = 'a' + sim_choose(26);
            buf[len] = 0;
            v.p = STRcpy(buf);
        }
        break;
    case RK_NODE:
        v.p = NULL;
        if (nrecent && sim_choose(2)) {
            v.p = recent[sim_choose(nrecent < 8 ? nrecent : 8)];
            if (!seq(v.p)) v.p = NULL;
        }
        break;
    case RK_USER: v.u = sim_choose(50); break;
    }
    return v;
}

static int line_of(char *b, int cap, void *n) {
    int ty = rt_node_type(n);
    const struct rt_type *t = &rt_types[ty];
    int o = snprintf(b, cap, "%u %d %ld ", seq(n), ty, rt_node_numchildren(n));
    const char *f = *rt_node_file(n);
    static const struct rt_attr fa = {"", RK_STR, 8, false, 0, 0};
    (void)f;
    o += fmt_val(b + o, cap - o, &fa, rt_node_file(n));
    o += snprintf(b + o, cap - o, " %u,%u,%u,%u a:", *rt_node_loc(n, 0), *rt_node_loc(n, 1), *rt_node_loc(n, 2), *rt_node_loc(n, 3));
    for (int k = 0; k < t->nat; k++) {
        if (k) o += snprintf(b + o, cap - o, "|");
        if (t->at[k].ag) {
            o += snprintf(b + o, cap - o, "ag");
            continue;
        }
        o += fmt_val(b + o, cap - o, &t->at[k], rt_attr_ptr(n, ty, k));
    }
    o += snprintf(b + o, cap - o, " c:");
    void **arr = t->nch ? rt_node_children(n) : NULL;
    for (int k = 0; k < t->nch; k++) {
        void *c = *rt_child_ptr(n, ty, k);
        if (arr && arr[k] != c) o += snprintf(b + o, cap - o, "%s%u!=%u", k ? "," : "", seq(arr[k]), seq(c));
        else if (c && !seq(c)) o += snprintf(b + o, cap - o, "%sBAD", k ? "," : "");
        else o += snprintf(b + o, cap - o, "%s%u", k ? "," : "", seq(c));
    }
    return o;
}
static void node_event(const char *tag, void *n) {
    char b[1900];
    if (!seq(n) || !rt_node_type(n)) {
        EV("%s BAD", tag);
        return;
    }
    line_of(b, sizeof b, n);
    EV("%s %s", tag, b);
}
/* whole subtree, preorder */
static void dump(const char *tag, void *n) {
    if (!n) return;
    node_event(tag, n);
    if (!seq(n)) return;
    int ty = rt_node_type(n);
    for (int k = 0; k < rt_types[ty].nch; k++) {
        void *c = *rt_child_ptr(n, ty, k);
        if (c && seq(c)) dump(tag, c);
    }
}
static int count_nodes(void *n) {
    if (!n) return 0;
    int c = 1, ty = rt_node_type(n);
    for (int k = 0; k < rt_types[ty].nch; k++) c += count_nodes(*rt_child_ptr(n, ty, k));
    return c;
}
static void *nth_node(void *n, int *i) {
    if (!n) return NULL;
    if ((*i)-- == 0) return n;
    int ty = rt_node_type(n);
    for (int k = 0; k < rt_types[ty].nch; k++) {
        void *r = nth_node(*rt_child_ptr(n, ty, k), i);
        if (r) return r;
    }
    return NULL;
}

/* ---- construction ---- */
static int pick_type(uint64_t mask) {
    int n = __builtin_popcountll(mask);
    int k = sim_choose(n);
    for (int t = 1; t <= rt_ntypes; t++)
        if (mask >> t & 1 && k-- == 0) return t;
    return 1;
}
static int build_left;
static void *build(int type, int d) {
    const struct rt_type *t = &rt_types[type];
    void *ch[32] = {0};
    union rt_val at[64];
    build_left--;
    for (int k = 0; k < t->nch; k++) {
        bool want = (opt_mand && t->ch[k].mand) || (build_left > 0 && d < 6 && (sim_choose(8) < (d < 2 ? 7u : 4u)));
        if (want) {
            uint64_t m = t->ch[k].mask;
            if (opt_wrong && sim_choose(opt_wrong) == 0) m = rt_typemask_all;
            ch[k] = build(pick_type(m), d + 1);
        }
    }
    for (int k = 0; k < t->nat; k++)
        if (t->at[k].cons) at[k] = gen_val(&t->at[k]);
    {
        char b[1900];
        int o = snprintf(b, sizeof b, "NA %d a:", type);
        for (int k = 0; k < t->nat; k++) {
            if (k) o += snprintf(b + o, sizeof b - o, "|");
            if (!t->at[k].cons) {
                o += snprintf(b + o, sizeof b - o, "-");
                continue;
            }
            union rt_val tmp;
            tmp.u = 0;
            store_val(&t->at[k], &tmp, at[k]);
            o += fmt_val(b + o, sizeof b - o, &t->at[k], &tmp);
        }
        o += snprintf(b + o, sizeof b - o, " c:");
        for (int k = 0; k < t->nch; k++) o += snprintf(b + o, sizeof b - o, "%s%u", k ? "," : "", t->ch[k].cons ? seq(ch[k]) : 0);
        EV("%s", b);
    }
    void *n = rt_construct(type, ch, at);
    recent[nrecent++ % 8] = n;
    if (nrecent > 1 << 20) nrecent = 8;
    node_event("N", n);
    for (int k = 0; k < t->nch; k++)
        if (!t->ch[k].cons && ch[k]) {
            *rt_child_ptr(n, type, k) = ch[k];
            EV("SC %u %d %u", seq(n), k, seq(ch[k]));
        }
    for (int k = 0; k < t->nat; k++)
        if (!t->at[k].cons && !t->at[k].ag && sim_choose(2)) {
            char b[128];
            union rt_val v = gen_val(&t->at[k]);
            store_val(&t->at[k], rt_attr_ptr(n, type, k), v);
            fmt_val(b, sizeof b, &t->at[k], rt_attr_ptr(n, type, k));
            EV("SA %u %d %s", seq(n), k, b);
        }
    if (sim_choose(3) == 0) {
        char b[128];
        static const struct rt_attr fa = {"", RK_STR, 8, false, 0, 0};
        *rt_node_file(n) = STRfmt("f%u.src", sim_choose(100));
        for (int k = 0; k < 4; k++) *rt_node_loc(n, k) = sim_choose(500);
        fmt_val(b, sizeof b, &fa, rt_node_file(n));
        EV("SL %u %s %u,%u,%u,%u", seq(n), b, *rt_node_loc(n, 0), *rt_node_loc(n, 1), *rt_node_loc(n, 2), *rt_node_loc(n, 3));
    }
    return n;
}
static void *build_tree(int type, int limit) {
    build_left = limit;
    return build(type, 0);
}

static void set_attr(void *n) {
    int ty = rt_node_type(n);
    const struct rt_type *t = &rt_types[ty];
    if (!t->nat) return;
    int k = sim_choose(t->nat);
    if (t->at[k].ag) return;
    char b[128];
    void *p = rt_attr_ptr(n, ty, k);
    if (t->at[k].kind == RK_STR) MEMfree(*(void **)p);
    store_val(&t->at[k], p, gen_val(&t->at[k]));
    fmt_val(b, sizeof b, &t->at[k], p);
    EV("SA %u %d %s", seq(n), k, b);
}
static void free_tree(void *n) {
    EV("FR %u", seq(n));
    void *r = CCNfree(n);
    EV("/FR %d", r != NULL);
}
static void set_child(void *n, bool wrong) {
    int ty = rt_node_type(n);
    const struct rt_type *t = &rt_types[ty];
    if (!t->nch) return;
    int k = sim_choose(t->nch);
    void **slot = rt_child_ptr(n, ty, k);
    if (*slot) {
        void *o = *slot;
        *slot = NULL;
        EV("SC %u %d 0", seq(n), k);
        free_tree(o);
    }
    if (sim_choose(3)) {
        uint64_t m = wrong ? rt_typemask_all : t->ch[k].mask;
        void *c = build_tree(pick_type(m), 1 + sim_choose(5));
        slot = rt_child_ptr(n, ty, k);
        *slot = c;
        EV("SC %u %d %u", seq(n), k, seq(c));
    }
}
/* ---- accessors ---- */
static int pick_acc(int ty, bool in, int want_ag) {
    int m = 0, r = -1;
    for (int i = 0; i < rt_naccs; i++)
        if ((bool)(rt_accs[i].mask >> ty & 1) == in && (want_ag < 0 || rt_accs[i].a.ag == want_ag)) {
            m++;
        }
    if (!m) return -1;
    m = sim_choose(m);
    for (int i = 0; i < rt_naccs; i++)
        if ((bool)(rt_accs[i].mask >> ty & 1) == in && (want_ag < 0 || rt_accs[i].a.ag == want_ag) && m-- == 0) r = i;
    return r;
}
static void access_field(void *n) {
    int ty = rt_node_type(n), i = pick_acc(ty, true, 0);
    if (i < 0) return;
    const struct rt_attr *a = &rt_accs[i].a;
    char b[128];
    if (!rt_accs[i].child && sim_choose(2)) {
        if (a->kind == RK_STR) MEMfree(*(void **)rt_acc_ptr(i, n));
        union rt_val v = gen_val(a);
        void *p = rt_acc_ptr(i, n);
        store_val(a, p, v);
        fmt_val(b, sizeof b, a, p);
        EV("AW %u %d %s", seq(n), i, b);
        EV("DU %u", seq(n));
        dump("D", n);
        EV("/DU");
    } else {
        fmt_val(b, sizeof b, a, rt_acc_ptr(i, n));
        EV("AR %u %d %s", seq(n), i, b);
    }
}
/* an accessor that does not apply to the node: the program must stop */
static void access_wrong(void *n) {
    int ty = rt_node_type(n), i = pick_acc(ty, false, -1);
    if (i < 0) return;
    EV("AX %u %d", seq(n), i);
    rt_acc_ptr(i, n);
    EV("/AX");
}
/* a grammar attribute that has no value yet */
static void access_early(void *n) {
    int ty = rt_node_type(n), i = pick_acc(ty, true, 1);
    if (i < 0) return;
    EV("AE %u %d", seq(n), i);
    rt_acc_ptr(i, n);
    EV("/AE");
}
/* scratch forest, survives between actions */
#define NFOREST 6
static void *forest[NFOREST];
static void copy_to_forest(void *n) {
    int s = sim_choose(NFOREST);
    EV("CP %u", seq(n));
    void *c = CCNcopy(n);
    EV("/CP %u", seq(c));
    dump("C", c);
    void *o = forest[s];
    forest[s] = c;
    if (o) free_tree(o);
}

/* ---- traversal data ---- */
static void data_event(const char *tag, int trav, const char *extra) {
    char b[1500];
    int o = 0;
    const struct rt_trav *t = &rt_travs[trav];
    b[0] = 0;
    if (rt_cur_trav() == t->id)
        for (int k = 0; k < t->ndata; k++) {
            if (k) o += snprintf(b + o, sizeof b - o, "|");
            o += fmt_val(b + o, sizeof b - o, &t->data[k], rt_data_ptr(trav, k));
        }
    EV("%s %d%s d:%s", tag, trav, extra, b);
}
static void data_write(int trav) {
    const struct rt_trav *t = &rt_travs[trav];
    if (!t->ndata || rt_cur_trav() != t->id) return;
    int k = sim_choose(t->ndata);
    char b[128];
    void *p = rt_data_ptr(trav, k);
    if (t->data[k].kind == RK_STR) MEMfree(*(void **)p);
    union rt_val v = gen_val(&t->data[k]);
    p = rt_data_ptr(trav, k);
    store_val(&t->data[k], p, v);
    fmt_val(b, sizeof b, &t->data[k], p);
    EV("DW %d %d %s", trav, k, b);
}
void rt_init(int trav) {
    data_event("I", trav, "");
    if (sim_choose(2)) data_write(trav);
}
void rt_fini(int trav) {
    data_event("F", trav, "");
    const struct rt_trav *t = &rt_travs[trav];
    if (rt_cur_trav() != t->id) return;
    for (int k = 0; k < t->ndata; k++)
        if (t->data[k].kind == RK_STR) MEMfree(*(void **)rt_data_ptr(trav, k));
}

/* ---- what callbacks do ---- */
static const char OPS[] = "ckonmbxyNEPISwrdgtzLAXpQ";
static int pick_op(bool in_trav) {
    unsigned tot = 0;
    for (const char *p = OPS; *p; p++) {
        if (!in_trav && strchr("ckowr", *p)) continue;
        tot += feat[(int)*p];
    }
    if (!tot) return 0;
    unsigned v = sim_choose(tot);
    for (const char *p = OPS; *p; p++) {
        if (!in_trav && strchr("ckowr", *p)) continue;
        if (v < feat[(int)*p]) return *p;
        v -= feat[(int)*p];
    }
    return 0;
}
static void *do_op(int op, int trav, void *n) {
    int ty = n ? rt_node_type(n) : 0;
    const struct rt_type *t = &rt_types[ty];
    switch (op) {
    case 'c':
        if (!n) break;
        EV("CH %u", seq(n));
        n = TRAVchildren(n);
        EV("/CH %u", seq(n));
        break;
    case 'k': {
        if (!n || !t->nch) break;
        int k = sim_choose(t->nch);
        EV("TK %u %d", seq(n), k);
        n = t->ch[k].trav(n);
        EV("/TK %u", seq(n));
        break;
    }
    case 'o': {
        if (!n || !t->nch) break;
        int k = sim_choose(t->nch);
        void *c = *rt_child_ptr(n, ty, k);
        EV("TO %u %d", seq(n), k);
        c = c && sim_choose(2) ? TRAVdo(c) : TRAVopt(c);
        EV("/TO %u", seq(c));
        *rt_child_ptr(n, ty, k) = c;
        break;
    }
    case 'n': {
        if (!n || !rt_ntravs || depth > 4) break;
        int x = sim_choose(rt_ntravs);
        if (t->nch && sim_choose(2)) {
            int k = sim_choose(t->nch);
            void *c = *rt_child_ptr(n, ty, k);
            EV("TS %u %d %d", seq(n), k, x);
            depth++;
            c = TRAVstart(c, rt_travs[x].id);
            depth--;
            EV("/TS %u", seq(c));
            *rt_child_ptr(n, ty, k) = c;
        } else {
            EV("TS %u -1 %d", seq(n), x);
            depth++;
            n = TRAVstart(n, rt_travs[x].id);
            depth--;
            EV("/TS %u", seq(n));
        }
        break;
    }
    case 'p': { /* a traversal put on the stack by hand */
        if (!rt_ntravs || depth > 4) break;
        int x = sim_choose(rt_ntravs);
        EV("PU %d", x);
        depth++;
        TRAVpush(rt_travs[x].id);
        for (int k = sim_choose(3); k > 0; k--) {
            int o = sim_choose(4);
            if (o == 0) data_write(x);
            else if (o == 1) n = do_op('c', x, n);
            else n = do_op('o', x, n);
        }
        EV("PO");
        TRAVpop();
        depth--;
        EV("/PU");
        break;
    }
    case 'Q': { /* a pass started by hand */
        if (!n || !rt_npasses || depth > 4) break;
        int x = sim_choose(rt_npasses);
        EV("PS %u %d", seq(n), x);
        depth++;
        n = PASSstart(n, rt_pass_ids[x]);
        depth--;
        EV("/PS %u", seq(n));
        break;
    }
    case 'm':
        if (n) set_attr(n);
        break;
    case 'b':
    case 'x':
        if (n) set_child(n, op == 'x');
        break;
    case 'y':
        if (n) copy_to_forest(n);
        break;
    case 'N':
        EV("NO");
        CCNcycleNotify();
        break;
    case 'E':
        EV("EA");
        CCNerrorAction();
        break;
    case 'P':
        EV("EP");
        CCNerrorPhase();
        break;
    case 'I': {
        int k = sim_choose(4);
        EV("CTI %d", k);
        CTI(k, sim_choose(2), "message %d of kind %d", sim_choose(100), k);
        EV("/CTI %d %d", CTIgetErrors(), CTIgetWarnings());
        break;
    }
    case 'L': {
        /* a long message */
        char b[600];
        int len = 100 + sim_choose(480), k = sim_choose(4);
        for (int i = 0; i < len; i++) b[i] = sim_choose(7) ? 'a' + sim_choose(26) : " \n\t@ "[sim_choose(5)];
        b[len] = 0;
        EV("CTI %d", k);
        CTI(k, sim_choose(2), "%s", b);
        EV("/CTI %d %d", CTIgetErrors(), CTIgetWarnings());
        break;
    }
    case 'S': {
        int k = 1 + sim_choose(4);
        EV("SM %d", k);
        CCNsetCycles(k);
        break;
    }
    case 'g': {
        int k = sim_choose(2);
        EV("TC %d", k);
        CCNsetTreeCheck(k);
        break;
    }
    case 'w':
        data_write(trav);
        break;
    case 'A':
        if (n) access_field(n);
        break;
    case 'X':
        if (n) access_wrong(n);
        break;
    case 'd':
        if (n) {
            EV("DU %u", seq(n));
            dump("D", n);
            EV("/DU");
        }
        break;
    case 't': /* traverse a tree of the forest */
    {
        int s = sim_choose(NFOREST);
        if (!forest[s] || !rt_ntravs || depth > 4) break;
        int x = sim_choose(rt_ntravs);
        void *c = forest[s];
        forest[s] = NULL;
        EV("TF %u %d", seq(c), x);
        depth++;
        c = TRAVstart(c, rt_travs[x].id);
        depth--;
        EV("/TF %u", seq(c));
        if (c) {
            if (!forest[s]) forest[s] = c;
            else free_tree(c);
        }
        break;
    }
    case 'z': {
        int s = sim_choose(NFOREST);
        if (forest[s]) {
            void *o = forest[s];
            forest[s] = NULL;
            free_tree(o);
        }
        break;
    }
    }
    return n;
}

static int max_ops_cb = 3, level;
static void *body(bool in_trav, int trav, void *n) {
    int k = sim_choose(max_ops_cb + 1);
    if (in_trav && feat['c'] && sim_choose(4)) n = do_op('c', trav, n);
    while (k-- > 0 && budget > 0) {
        budget--;
        int op = pick_op(in_trav);
        if (op == 'r') {
            if (!n) continue;
            if (sim_choose(3) == 0 && (depth > 0 || level > 1)) {
                free_tree(n);
                n = NULL;
            } else {
                int ty = rt_node_type(n);
                free_tree(n);
                n = build_tree(ty, 1 + sim_choose(5));
            }
            break;
        }
        if (op) n = do_op(op, trav, n);
    }
    return n;
}

void *rt_trav(int trav, int type, void *n) {
    char b[64];
    snprintf(b, sizeof b, " %u %d %d %zu %d", seq(n), type, n && seq(n) ? rt_node_type(n) : -1, CCNgetCurrentActionId(), rt_cur_trav() == rt_travs[trav].id);
    data_event("T", trav, b);
    if (budget <= 0) {
        /* out of budget: keep walking, decide nothing */
        if (feat['c']) {
            EV("CH %u", seq(n));
            n = TRAVchildren(n);
            EV("/CH %u", seq(n));
        }
    } else {
        budget--;
        level++;
        n = body(true, trav, n);
        level--;
    }
    EV("R %u", seq(n));
    return n;
}
void *rt_pass(int pass, void *n) {
    EV("P %d %u %zu", pass, seq(n), CCNgetCurrentActionId());
    if (budget > 0) {
        budget--;
        int ty = n ? rt_node_type(n) : rt_root_type;
        n = body(false, -1, n);
        if (n && feat['r'] && sim_choose(12) == 0) {
            free_tree(n);
            n = build_tree(ty, treemax);
        }
    }
    EV("R %u", seq(n));
    return n;
}
static int gate_pct = 50, gate_ops;
bool rt_gate(int gate) {
    bool v = (int)sim_choose(100) < gate_pct;
    EV("G %d %d %zu", gate, v, CCNgetCurrentActionId());
    /* a gate may do what needs no tree; errors only when the phase is skipped, else their scope is open */
    if (gate_ops && budget > 0 && sim_choose(2)) {
        budget--;
        int op = pick_op(false);
        if (op && strchr(v ? "NSILg" : "NSILgEP", op)) do_op(op, -1, NULL);
    }
    EV("/G");
    return v;
}
void BreakpointHandler(void *n) {
    EV("B %u %zu", seq(n), CCNgetCurrentActionId());
    if (n) {
        dump("D", n);
        EV("/DU");
    }
}

uint64_t rt_ag_mix(const char *fn, int n, const uint64_t *v) {
    uint64_t h = 1469598103934665603ULL;
    for (const char *p = fn; *p; p++) h = (h ^ (unsigned char)*p) * 1099511628211ULL;
    for (int i = 0; i < n; i++) {
        h = (h ^ v[i]) * 1099511628211ULL;
        h ^= h >> 29;
    }
    h ^= h >> 32;
    char b[400];
    int o = 0;
    b[0] = 0;
    for (int i = 0; i < n; i++) o += snprintf(b + o, sizeof b - o, " %llu", (unsigned long long)v[i]);
    EV("EV %s%s", fn, b);
    return h;
}

/* values of grammar attributes, through the accessors of nodesets too */
static void ag_accs(void *n) {
    if (!n) return;
    int ty = rt_node_type(n);
    char b[128];
    for (int i = 0; i < rt_naccs; i++)
        if (rt_accs[i].a.ag && rt_accs[i].mask >> ty & 1) {
            fmt_val(b, sizeof b, &rt_accs[i].a, rt_acc_ptr(i, n));
            EV("AV %u %d %s", seq(n), i, b);
        }
    for (int k = 0; k < rt_types[ty].nch; k++) ag_accs(*rt_child_ptr(n, ty, k));
}
static void ag_dump(void *n) {
    if (!n) return;
    int ty = rt_node_type(n);
    const struct rt_type *t = &rt_types[ty];
    char b[1500];
    int o = 0;
    b[0] = 0;
    for (int k = 0; k < t->nat; k++)
        if (t->at[k].ag) {
            o += snprintf(b + o, sizeof b - o, " %d:", k);
            o += fmt_val(b + o, sizeof b - o, &t->at[k], rt_attr_ptr(n, ty, k));
        }
    EV("AG %u%s", seq(n), b);
    for (int k = 0; k < t->nch; k++) ag_dump(*rt_child_ptr(n, ty, k));
}

static long argl(const char *s) { return strtol(s, NULL, 10); }

/* argv: scenario key=value... */
int sim_target_main(int argc, char **argv) {
    int runs = 1, cycles = -1, check = 0, verb = 0, show = 0, warm = 1, ops = 40, accs = 0, early = 0;
    long bpid = 0;
    char *bp = NULL;
    const char *scen = argv[1];
    budget = 200;
    treemax = 12;
    for (int i = 2; i < argc; i++) {
        char *e = strchr(argv[i], '=');
        if (!e) continue;
        size_t l = e - argv[i];
        char *v = e + 1;
#define K(s) (l == strlen(s) && !memcmp(argv[i], s, l))
        if (K("runs")) runs = argl(v);
        else if (K("cycles")) cycles = argl(v);
        else if (K("check")) check = argl(v);
        else if (K("verb")) verb = argl(v);
        else if (K("bpid")) bpid = argl(v);
        else if (K("bp")) bp = v;
        else if (K("budget")) budget = argl(v);
        else if (K("tree")) treemax = argl(v);
        else if (K("gate")) gate_pct = argl(v);
        else if (K("gops")) gate_ops = argl(v);
        else if (K("show")) show = argl(v);
        else if (K("warm")) warm = argl(v);
        else if (K("ops")) ops = argl(v);
        else if (K("cb")) max_ops_cb = argl(v);
        else if (K("wrong")) opt_wrong = argl(v);
        else if (K("accs")) accs = argl(v);
        else if (K("early")) early = argl(v);
        else if (K("mand")) opt_mand = argl(v);
        else if (K("feat"))
            for (char *p = v; *p; p += 2)
                if (p[1]) feat[(int)p[0]] = p[1] - '0';
    }
    sim_armed = 1;
    if (warm) {
        CTI(0, false, "warm");
    }
    int base = sim_live_blocks();
    int budget0 = budget;
    if (!strcmp(scen, "drive")) {
        /* the harness leaves the default in place unless it changes it */
        if (check != 2) CCNsetTreeCheck(check);
        if (cycles >= 0) CCNsetCycles(cycles);
        CCNsetVerbosity(verb);
        if (bp) CCNsetBreakpoint(bp);
        if (bpid) CCNsetBreakpointWithID(bpid);
        if (show) CCNshowTree();
        for (int r = 0; r < runs; r++) {
            budget = budget0;
            void *n = build_tree(rt_root_type, 1 + sim_choose(treemax));
            EV("RUN %u", seq(n));
            CCNrun(n);
            EV("RAN %zu", (size_t)0);
        }
    } else if (!strcmp(scen, "tree")) {
        for (int i = 0; i < ops; i++) {
            budget = budget0;
            int s = sim_choose(NFOREST);
            if (!forest[s]) {
                forest[s] = build_tree(1 + sim_choose(rt_ntypes), 1 + sim_choose(treemax));
                EV("NT %u", seq(forest[s]));
                continue;
            }
            int c = count_nodes(forest[s]), at = sim_choose(c);
            void *n = nth_node(forest[s], &at);
            if (accs && (int)sim_choose(10) < accs) {
                access_field(n);
                continue;
            }
            switch (sim_choose(9)) {
            case 0: set_attr(n); break;
            case 1: set_child(n, false); break;
            case 2:
            case 3: copy_to_forest(n); break;
            case 4: do_op('d', -1, forest[s]); break;
            case 5: do_op('t', -1, NULL); break;
            case 6: {
                void *o = forest[s];
                forest[s] = NULL;
                free_tree(o);
                break;
            }
            case 7: { /* move a subtree to an empty slot */
                int e = -1;
                for (int j = 0; j < NFOREST; j++)
                    if (!forest[j]) e = j;
                int ty = rt_node_type(n);
                if (e < 0 || !rt_types[ty].nch) break;
                int k = sim_choose(rt_types[ty].nch);
                void **slot = rt_child_ptr(n, ty, k);
                if (*slot) {
                    forest[e] = *slot;
                    *slot = NULL;
                    EV("SC %u %d 0", seq(n), k);
                    EV("NT %u", seq(forest[e]));
                }
                break;
            }
            case 8: { /* all trees are as the model says */
                for (int j = 0; j < NFOREST; j++)
                    if (forest[j]) do_op('d', -1, forest[j]);
                break;
            }
            }
        }
        for (int j = 0; j < NFOREST; j++)
            if (forest[j]) do_op('d', -1, forest[j]);
        if (early) {
            void *n = build_tree(1 + sim_choose(rt_ntypes), 1);
            access_wrong(n);
            free_tree(n);
        }
    } else if (!strcmp(scen, "ag")) {
        for (int r = 0; r < runs; r++) {
            void *n = build_tree(rt_root_type, 1 + sim_choose(treemax));
            if (early && sim_choose(2)) access_early(n);
            EV("RUN %u", seq(n));
            rt_eval_root(n);
            EV("RAN 0");
            ag_dump(n);
            if (accs) ag_accs(n);
            if (sim_choose(3) == 0) { /* copies start without values */
                EV("CP %u", seq(n));
                void *c = CCNcopy(n);
                EV("/CP %u", seq(c));
                dump("C", c);
                if (early && sim_choose(2)) access_early(c);
                EV("RUN %u", seq(c));
                rt_eval_root(c);
                EV("RAN 0");
                ag_dump(c);
                free_tree(c);
            }
            free_tree(n);
        }
    }
    for (int j = 0; j < NFOREST; j++)
        if (forest[j]) {
            void *o = forest[j];
            forest[j] = NULL;
            free_tree(o);
        }
    sim_heap_check();
    EV("END live=%ld err=%d warn=%d", (long)sim_live_blocks() - base, CTIgetErrors(), CTIgetWarnings());
    if ((long)sim_live_blocks() != base) sim_live_report(5);
    return 0;
}

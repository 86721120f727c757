/* Runtime library workload: hash tables and diagnostics of palm under the
 * simulator.  Every call and its result is an event; dst/palmk.py holds the
 * reference models. */
#include <signal.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "palm/ctinfo.h"
#include "palm/dbug.h"
#include "palm/filesystem.h"
#include "palm/hash_table.h"
#include "palm/memory.h"
#include "palm/str.h"
#include "sim.h"

#define EV sim_event
#define NT 4
#define NK 40
static htable_st *tab[NT];
static int kind[NT];
static int nk = 24, spread;
static char skey[2][NK][24];
static int ikey[2][NK];

static void mkkeys(void) {
    static const char *frag[] = {"", "a", "b", "ab", "\xe9", "node", "Node", "z", "0", "aa"};
    for (int i = 0; i < NK; i++) {
        char b[24];
        int n = snprintf(b, sizeof b, "%s%s%d", frag[sim_choose(10)], frag[sim_choose(10)], i);
        if (i == 0) b[0] = 0, n = 0;
        memcpy(skey[0][i], b, n + 1);
        memcpy(skey[1][i], b, n + 1);
        int v = i;
        if (spread == 1) v = i * 50;
        else if (spread == 2) v = (int)(i * 2654435761u);
        else if (spread == 3) v = -i;
        ikey[0][i] = ikey[1][i] = v;
    }
}
static void *ptr_of(int k) {
    return (void *)(uintptr_t)(spread == 0 ? 0x10000 + k * 8 : spread == 1 ? 0x10000 + k * 32 : spread == 2 ? 0x10000 + (uintptr_t)k * 1024 : k ? 0x7f0000000000 + (uintptr_t)k * 4096 : 0);
}
static void *key(int kd, int k) {
    int a = sim_choose(2);
    return kd == 0 ? (void *)skey[a][k] : kd == 1 ? ptr_of(k) : (void *)&ikey[a][k];
}
static int id_of(int kd, void *p) {
    if (kd == 1) {
        for (int i = 0; i < nk; i++)
            if (ptr_of(i) == p) return i;
        return -1;
    }
    for (int a = 0; a < 2; a++)
        for (int i = 0; i < NK; i++)
            if (p == (kd == 0 ? (void *)skey[a][i] : (void *)&ikey[a][i])) return i;
    return -1;
}
static size_t myhash(void *p) { return (size_t)*(int *)p / 3; }
static bool myeq(void *a, void *b) { return *(int *)a == *(int *)b; }

static unsigned long num(void *v) { return (unsigned long)(uintptr_t)v; }
static int cb_kind;
static unsigned long cb_add;
static void *m1(void *v) {
    EV("c - %lu", num(v));
    return (void *)(uintptr_t)(num(v) + cb_add);
}
static void *m2(void *k, void *v) {
    EV("c %d %lu", id_of(cb_kind, k), num(v));
    return (void *)(uintptr_t)(num(v) + cb_add);
}
static int token;
static void *m3(void *d, void *k, void *v) {
    EV("c %d %lu%s", id_of(cb_kind, k), num(v), d == &token ? "" : " BADDATA");
    return (void *)(uintptr_t)(num(v) + cb_add);
}
static void *f1(void *acc, void *v) {
    EV("c - %lu%s", num(v), acc == &token ? "" : " BADDATA");
    return acc;
}
static void *cpk(void *k) {
    int i = id_of(cb_kind, k);
    EV("ck %d", i);
    if (cb_kind == 1 || i < 0) return k;
    return cb_kind == 0 ? (void *)skey[1][i] : (void *)&ikey[1][i];
}
static void *cpv(void *v) {
    EV("cv %lu", num(v));
    return (void *)(uintptr_t)(num(v) + cb_add);
}

static void newtab(int t) {
    static const int sizes[] = {1, 2, 3, 7, 20, 50};
    int sz = sizes[sim_choose(6)];
    kind[t] = sim_choose(4);
    EV("new %d %d %d", t, kind[t], sz);
    switch (kind[t]) {
    case 0: tab[t] = HTnew_String(sz); break;
    case 1: tab[t] = HTnew_Ptr(sz); break;
    case 2: tab[t] = HTnew_Int(sz); break;
    case 3: tab[t] = HTnew(sz, myhash, myeq); break;
    }
}
static void iterate(int t, int mode) {
    EV("it %d %d", t, mode);
    for (htable_iter_st *i = HTiterate(tab[t]); i; i = HTiterateNext(i)) {
        EV("e %d %lu", id_of(kind[t], HTiterKey(i)), num(HTiterValue(i)));
        if (mode == 1 && sim_choose(3) == 0) {
            unsigned long v = sim_choose(1000);
            HTiterSetValue(i, (void *)(uintptr_t)v);
            EV("s %lu %lu", v, num(HTiterValue(i)));
        }
        if (mode == 2 && sim_choose(3) == 0) {
            EV("x");
            HTiterateCancel(i);
            break;
        }
    }
    EV("/it");
}
static void map_run(int ops) {
    mkkeys();
    for (int n = 0; n < ops; n++) {
        int t = sim_choose(NT);
        if (!tab[t]) {
            newtab(t);
            continue;
        }
        int kd = kind[t], k = sim_choose(nk);
        unsigned op = sim_choose(40);
        if (op < 14) {
            unsigned long v = sim_choose(8) ? 1 + sim_choose(1000) : 0;
            bool r = HTinsert(tab[t], key(kd, k), (void *)(uintptr_t)v);
            EV("ins %d %d %lu %d", t, k, v, r);
        } else if (op < 20) {
            EV("get %d %d %lu", t, k, num(HTlookup(tab[t], key(kd, k))));
        } else if (op < 28) {
            void *v = HTremove(tab[t], key(kd, k));
            EV("rem %d %d %lu", t, k, num(v));
        } else if (op < 29) {
            HTclear(tab[t]);
            EV("clr %d", t);
        } else if (op < 30) {
            HTdelete(tab[t]);
            tab[t] = NULL;
            EV("del %d", t);
        } else if (op < 32) {
            int u = sim_choose(NT);
            if (tab[u]) continue;
            EV("cpy %d %d", t, u);
            tab[u] = HTcpy(tab[t]);
            kind[u] = kd;
        } else if (op < 33) {
            int u = sim_choose(NT);
            if (tab[u]) continue;
            cb_kind = kd;
            cb_add = 1 + sim_choose(5);
            EV("dcp %d %d %lu", t, u, cb_add);
            tab[u] = HTdeep_copy(tab[t], cpk, cpv);
            kind[u] = kd;
            EV("/dcp");
        } else if (op < 36) {
            cb_kind = kd;
            cb_add = sim_choose(5);
            int w = sim_choose(4);
            EV("map %d %d %lu", t, w, cb_add);
            if (w == 0) HTmap(tab[t], m1);
            else if (w == 1) HTmapWithKey(tab[t], m2);
            else if (w == 2) HTmapWithDataAndKey(tab[t], &token, m3);
            else HTfold(tab[t], f1, &token);
            EV("/map");
        } else if (op < 38) {
            iterate(t, sim_choose(3));
        } else {
            EV("cnt %d %zu", t, HTelementCount(tab[t]));
        }
    }
    for (int t = 0; t < NT; t++)
        if (tab[t]) {
            iterate(t, 0);
            for (int k = 0; k < nk; k++) EV("get %d %d %lu", t, k, num(HTlookup(tab[t], key(kind[t], k))));
            EV("cnt %d %zu", t, HTelementCount(tab[t]));
            HTdelete(tab[t]);
            EV("del %d", t);
        }
}

static void text(char *b, int max) {
    static const char punct[] = "@%\\\"'*{}[]().,;:!?~^|<>=+-_#$&/0123456789";
    int n = 0, words = 1 + sim_choose(sim_choose(6) == 0 ? sim_choose(4) ? 60 : 600 : 8);
    bool lng = sim_choose(3) == 0;
    for (int w = 0; w < words && n < max - 40; w++) {
        int len = 1 + sim_choose(lng && sim_choose(20) == 0 ? 200 : 9);
        for (int i = 0; i < len && n < max - 4; i++) b[n++] = sim_choose(5) ? 'a' + sim_choose(26) : punct[sim_choose(sizeof punct - 1)];
        static const char *sep[] = {" ", " ", " ", "  ", "\n", "\n\n", "\t", " \n "};
        if (w + 1 < words) n += sprintf(b + n, "%s", sep[sim_choose(8)]);
    }
    b[n] = 0;
}
static void ev_text(const char *tag, const char *s) {
    char b[8200];
    int n = 0;
    for (; *s && n < 8100; s++) {
        if (*s == '\n') b[n++] = '\\', b[n++] = 'n';
        else if (*s == '\\') b[n++] = '\\', b[n++] = '\\';
        else b[n++] = *s;
    }
    b[n] = 0;
    /* events are limited in length */
    for (int i = 0; i < n || i == 0; i += 1200) EV("%s%s %.1200s", i ? "+" : "", tag, b + i);
}
static void cti_run(int ops) {
    char b[4000], c[4000], all[8100];
    bool sig = sim_choose(2);
    if (sig) CTIinstallInterruptHandlers();
    for (int n = 0; n < ops; n++) {
        int ty = sim_choose(4);
        bool nl = sim_choose(2);
        switch (sim_choose(8)) {
        case 0:
        case 1:
        case 2:
            text(b, sim_choose(3) ? 200 : 3900);
            EV("M %d %d", ty, nl);
            ev_text("t", b);
            CTI(ty, nl, "%s", b);
            break;
        case 3: {
            int x = (int)sim_choose(100000) - 50000;
            text(b, 300);
            text(c, 2000);
            snprintf(all, sizeof all, "%s %d: %s", b, x, c);
            EV("M %d %d", ty, nl);
            ev_text("t", all);
            CTI(ty, nl, "%s %d: %s", b, x, c);
            break;
        }
        case 4:
        case 5: {
            struct ctinfo o = {0};
            char f[32], l[200];
            snprintf(f, sizeof f, "f%u.src", sim_choose(50));
            o.filename = f;
            o.first_line = 1 + sim_choose(300);
            o.first_column = sim_choose(40);
            o.last_line = sim_choose(2) ? o.first_line + sim_choose(3) : 0;
            o.last_column = sim_choose(2) ? o.first_column + sim_choose(20) : 0;
            if (sim_choose(2)) {
                text(l, 150);
                for (char *p = l; *p; p++)
                    if (*p == '\n') *p = ' ';
                o.line = l;
            }
            text(b, 400);
            EV("M %d %d", ty, nl);
            ev_text("t", b);
            EV("O %s %d %d %d %d", f, o.first_line, o.first_column, o.last_line, o.last_column);
            if (o.line) ev_text("l", o.line);
            CTIobj(ty, nl, o, "%s", b);
            break;
        }
        case 6:
            if (sim_choose(3) == 0) {
                EV("A");
                CTIabortOnError();
                EV("/A");
            }
            break;
        case 7:
            if (sim_choose(12) == 0) {
                EV("AC");
                CTIabortCompilation();
                EV("/AC");
            } else if (sim_choose(12) == 0) {
                unsigned r = sim_choose(1u << 20) * 4096u + sim_choose(4096);
                EV("AM %u", r);
                CTIabortOutOfMemory(r);
                EV("/AM");
            } else if (sig && sim_choose(12) == 0) {
                static const int sigs[] = {SIGSEGV, SIGBUS, SIGINT};
                int g = sim_choose(3);
                EV("SIG %d", g);
                raise(sigs[g]);
                EV("/SIG");
            }
            break;
        }
        EV("Q %d %d", CTIgetErrors(), CTIgetWarnings());
    }
}

/* ---- strings: a pool of live strings, every one checked again and again ---- */
#define NS 10
static char *str[NS];
static size_t room[NS]; /* bytes of the block, 0: as long as the string needs */
static void ev_hex(const char *tag, const char *s) {
    static char b[1300];
    if (!s) {
        EV("%s NULL", tag);
        return;
    }
    size_t l = strlen(s);
    for (size_t i = 0; i < l || i == 0; i += 600) {
        int n = 0;
        b[0] = 0;
        for (size_t j = i; j < l && j < i + 600; j++) n += sprintf(b + n, "%02x", (unsigned char)s[j]);
        EV("%s%s %s", i ? "+" : "", tag, b);
    }
}
static void word(char *b, int max) {
    static const char *alpha[] = {"ab", "aAbB", "abc,;", "%s%d\\\n\t ", "\xe9\xc9\xff\x80z"};
    const char *a = alpha[sim_choose(5)];
    int l = strlen(a), n = sim_choose(12) ? sim_choose(12) : sim_choose(max);
    for (int i = 0; i < n; i++) b[i] = sim_choose(10) ? a[sim_choose(l)] : 1 + sim_choose(255);
    b[n] = 0;
}
/* an argument: a pool string, a piece of one, or one nobody owns for long */
static char argb[4][4000];
static const char *arg(int a, bool null, const char *of) {
    unsigned c = sim_choose(10);
    if (c == 0 && null) {
        ev_hex("a", NULL);
        return NULL;
    }
    if (c < 5) {
        int i = sim_choose(NS);
        if (str[i]) {
            ev_hex("a", str[i]);
            return str[i];
        }
    }
    if (c < 7 && of && *of) {
        int o = sim_choose(strlen(of)), l = sim_choose(2) ? 1 + sim_choose(4) : 4000;
        snprintf(argb[a], l < 3999 ? l + 1 : 3999, "%s", of + o);
    } else {
        word(argb[a], 600);
    }
    ev_hex("a", argb[a]);
    return argb[a];
}
/* the caller's memory goes away or changes after the call */
static void scramble(void) {
    for (int a = 0; a < 4; a++) memset(argb[a], sim_choose(2) ? 0 : 'Z', sizeof argb[a] - 1);
}
static void put(int i, char *p) {
    if (str[i]) {
        EV("f %d", i);
        if (MEMfree(str[i])) EV("BAD MEMfree");
    }
    str[i] = p;
    room[i] = 0;
    for (int j = 0; p && j < NS; j++)
        if (j != i && str[j] == p) EV("BAD shared %d %d", i, j);
    EV("r %d", i);
    ev_hex("v", p);
}
static void str_run(int ops) {
    for (int n = 0; n < ops; n++) {
        int i = sim_choose(NS);
        unsigned op = sim_choose(30);
        const char *a, *b, *c;
        char *r;
        int k, l;
        switch (op) {
        case 0:
        case 1:
            EV("op cpy");
            a = arg(0, true, NULL);
            put(i, STRcpy(a));
            break;
        case 2:
            k = sim_choose(sim_choose(3) ? 14 : 700);
            EV("op ncpy %d", k);
            a = arg(0, true, NULL);
            put(i, STRncpy(a, k));
            break;
        case 3:
        case 4:
            EV("op cat");
            a = arg(0, true, NULL);
            b = arg(1, true, NULL);
            put(i, STRcat(a, b));
            break;
        case 5:
            k = 3 + sim_choose(2);
            EV("op catn");
            a = arg(0, true, NULL);
            b = arg(1, true, NULL);
            c = arg(2, true, NULL);
            if (k == 3) put(i, STRcatn(3, a, b, c));
            else put(i, STRcatn(4, a, b, c, arg(3, true, NULL)));
            break;
        case 6:
            k = (int)sim_choose(2000000) - 1000000;
            EV("op fmt %d", k);
            a = arg(0, false, NULL);
            b = arg(1, false, NULL);
            put(i, STRfmt("%s<%d>%5.3s|%%", a, k, b));
            break;
        case 7: {
            static const int ex[] = {0, -1, 2147483647, -2147483647 - 1, 9, 10, -10, 99999};
            k = sim_choose(2) ? ex[sim_choose(8)] : (int)sim_choose(2000000) - 1000000;
            EV("op itoa %d", k);
            put(i, STRitoa(k));
            break;
        }
        case 8:
            EV("op lower");
            put(i, STRlower(arg(0, true, NULL)));
            break;
        case 9:
            EV("op upper");
            put(i, STRupper(arg(0, true, NULL)));
            break;
        case 10:
            EV("op tolower %d", i);
            STRtoLower(str[i]);
            EV("r %d", i);
            ev_hex("v", str[i]);
            break;
        case 11:
            EV("op toupper %d", i);
            STRtoUpper(str[i]);
            EV("r %d", i);
            ev_hex("v", str[i]);
            break;
        case 12:
            EV("op tok0");
            a = arg(0, false, NULL);
            b = arg(1, sim_choose(4) == 0, a);
            put(i, STRtok(a, b));
            break;
        case 13:
        case 14:
        case 15:
        case 16:
            EV("op tok");
            b = arg(1, false, ",;ab");
            put(i, STRtok(NULL, b));
            break;
        case 17:
            EV("op eq");
            a = arg(0, true, NULL);
            b = arg(1, true, a);
            EV("= %d", STReq(a, b));
            break;
        case 18:
            EV("op eqci");
            a = arg(0, true, NULL);
            b = arg(1, true, a);
            if (sim_choose(3) == 0 && a) {
                EV("flip");
                snprintf(argb[1], sizeof argb[1], "%s", a);
                for (char *p = argb[1]; *p; p++)
                    if (*p >= 'a' && *p <= 'z') *p -= 32;
                    else if (*p >= 'A' && *p <= 'Z') *p += 32;
                b = argb[1];
                ev_hex("a", b);
            }
            EV("= %d", STReqci(a, b));
            break;
        case 19:
            k = sim_choose(8);
            EV("op eqn %d", k);
            a = arg(0, true, NULL);
            b = arg(1, true, a);
            EV("= %d", STReqn(a, b, k));
            break;
        case 20:
            EV("op len");
            EV("= %zu", STRlen(arg(0, true, NULL)));
            break;
        case 21:
            EV("op prefix");
            a = arg(0, true, NULL);
            b = arg(1, true, a);
            EV("= %d", STRprefix(b, a));
            break;
        case 22:
            EV("op suffix");
            a = arg(0, false, NULL);
            b = arg(1, false, a);
            EV("= %d", STRsuffix(b, a));
            break;
        case 23:
            EV("op sub");
            a = arg(0, true, NULL);
            b = arg(1, true, a);
            EV("= %d", STRsub(b, a));
            break;
        case 24:
            a = arg(0, false, NULL);
            k = sim_choose(strlen(a) + (sim_choose(8) == 0 ? 3 : 1));
            l = (int)sim_choose(strlen(a) + 4);
            if (sim_choose(3) == 0) l = -(int)sim_choose((int)strlen(a) - k > 0 ? strlen(a) - k + 1 : 1);
            EV("op substr %d %d", k, l);
            put(i, STRsubStr(a, k, l));
            break;
        case 25:
        case 26:
            EV("op subst");
            a = arg(0, true, NULL);
            do b = arg(1, false, a);
            while (!*b);
            c = arg(2, false, NULL);
            put(i, STRsubstToken(a, b, c));
            break;
        case 27:
            EV("op null");
            put(i, STRnull());
            if (sim_choose(2)) {
                int j = sim_choose(NS), h = sim_choose(NS);
                r = STRonNull(str[j], str[h]);
                EV("op onnull %d %d %s", j, h, r == str[h] && r ? "str" : r == str[j] ? "alt" : "?");
            }
            break;
        case 28: { /* a block of raw memory */
            if (!str[i]) break;
            size_t sz = strlen(str[i]) + 1;
            EV("op memcopy");
            ev_hex("a", str[i]);
            put(i, MEMcopy(sz, str[i]));
            break;
        }
        case 29: { /* grow and shrink; what fits is kept, fresh room is writable */
            if (!str[i]) break;
            size_t old = strlen(str[i]) + 1, sz = 1 + sim_choose(2 * old + 20);
            EV("op realloc %d %zu", i, sz);
            str[i] = MEMrealloc(str[i], sz);
            if (sz < old) str[i][sz - 1] = 0;
            else memset(str[i] + old, 'R', sz - old);
            EV("r %d", i);
            ev_hex("v", str[i]);
            break;
        }
        }
        scramble();
        if (sim_choose(3) == 0) {
            int j = sim_choose(NS);
            EV("s %d", j);
            ev_hex("v", str[j]);
        }
    }
    for (int j = 0; j < NS; j++) {
        EV("s %d", j);
        ev_hex("v", str[j]);
        str[j] = MEMfree(str[j]);
    }
    /* the last call releases what the tokenizer holds */
    char *r;
    while ((r = STRtok(NULL, ""))) {
        EV("op tok");
        EV("a ");
        EV("r 0");
        ev_hex("v", r);
        MEMfree(r);
        EV("f 0");
    }
}

/* ---- debug output and directories ---- */
int dbg_evals_on(void), dbg_evals_off(void);
void dbg_op_on(int, int, char *), dbg_op_off(int, int, char *), dbg_mod_on(int, int, char *), dbg_mod_off(int, int, char *);
static void dbg_run(int ops) {
    static const char *const path[] = {"d0", "d1", "d0/e0", "d0/e1", "d0/e0/g", "f0", "f0/x", "d1/", "./d1", "n/n", "d2", "."};
    char b[1100];
    for (int n = 0; n < ops; n++) {
        switch (sim_choose(8)) {
        default: {
            int op = sim_choose(40) ? sim_choose(6) : 6, off = !sim_choose(3), mod = sim_choose(2), x = (int)sim_choose(2000) - 1000;
            text(b, 1000);
            EV("D %d %d %d %d", op, mod, off, x);
            ev_text("t", b);
            (off ? mod ? dbg_mod_off : dbg_op_off : mod ? dbg_mod_on : dbg_op_on)(op, x, b);
            EV("/D %d", off ? dbg_evals_off() : dbg_evals_on());
            break;
        }
        case 0:
            if (sim_choose(6) == 0) {
                EV("O");
                DBUGoff();
            }
            break;
        case 1:
        case 2:
        case 3: {
            char *p = (char *)path[sim_choose(sizeof path / sizeof *path)];
            EV("F %s", p);
            FSensureDirExists(p, 0755);
            EV("/F");
            break;
        }
        case 4: {
            const char *p = path[sim_choose(6)];
            int k = sim_choose(3);
            if (k == 0) {
                FILE *f = fopen(p, "wx");
                EV("W %s %d", p, f != NULL);
                if (f) fclose(f);
            } else if (k == 1) {
                EV("R %s %d", p, rmdir(p) == 0);
            } else {
                EV("U %s %d", p, unlink(p) == 0);
            }
            break;
        }
        }
        fflush(stdout);
    }
}

int sim_target_main(int argc, char **argv) {
    int ops = 40;
    for (int i = 2; i < argc; i++) {
        if (!strncmp(argv[i], "ops=", 4)) ops = atoi(argv[i] + 4);
        if (!strncmp(argv[i], "keys=", 5)) nk = atoi(argv[i] + 5);
        if (!strncmp(argv[i], "spread=", 7)) spread = atoi(argv[i] + 7);
    }
    sim_armed = 1;
    int base = sim_live_blocks();
    if (!strcmp(argv[1], "map")) {
        map_run(ops);
        EV("END live=%ld", (long)sim_live_blocks() - base);
    } else if (!strcmp(argv[1], "str")) {
        str_run(ops);
        EV("END live=%ld", (long)sim_live_blocks() - base);
    } else if (!strcmp(argv[1], "dbg")) {
        dbg_run(ops);
        EV("END");
    } else {
        cti_run(ops);
        EV("END");
    }
    sim_heap_check();
    return 0;
}

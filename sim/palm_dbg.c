/* Debug output of palm, with (DBG_OFF) and without NDEBUG; included and compiled once each. */
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#undef NDEBUG
#ifdef DBG_OFF
#define NDEBUG
#define FN(n) n##_off
#else
#define FN(n) n##_on
#endif
#include "palm/dbug.h"
#include "sim.h"

static int evals;
static int cond(int v) {
    evals++;
    return v;
}
int FN(dbg_evals)(void);
void FN(dbg_op)(int op, int x, char *b);
void FN(dbg_mod)(int op, int x, char *b);
int FN(dbg_evals)(void) {
    int n = evals;
    evals = 0;
    return n;
}
#define OPS                                                    \
    switch (op) {                                              \
    case 0:                                                    \
        DBUG("%s", b);                                         \
        break;                                                 \
    case 1:                                                    \
        DBUG("%s %d: %c\n", b, x, 'z');                        \
        break;                                                 \
    case 2:                                                    \
        DBUG("all of 100%%\n");                                \
        break;                                                 \
    case 3:                                                    \
        DBUGF("he%d", "%s %d\n", b, x);                        \
        break;                                                 \
    case 4:                                                    \
        if (x & 1) DBUG_ASSERT(cond(x), "%s", b);              \
        else                                                   \
            sim_event("else");                                 \
        break;                                                 \
    case 5:                                                    \
        DBUG_ASSERTF(cond(1 + (x & 3)), "%s %d", b, x);        \
        break;                                                 \
    case 6:                                                    \
        sim_event("at %s %d %s", __FILE__, __LINE__, __func__); \
        DBUG_ASSERT(cond(0), "%s %d", b, x);                   \
        break;                                                 \
    }
void FN(dbg_op)(int op, int x, char *b) {
    (void)x, (void)b, (void)cond;
    OPS
}
#undef MODULE
#define MODULE "mo%d of"
void FN(dbg_mod)(int op, int x, char *b) {
    (void)x, (void)b, (void)cond;
    OPS
}

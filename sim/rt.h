/* Runtime workload: drives one generated compiler (cocogen output + copra +
 * palm, all real) under the simulator.  Every call the harness makes into the
 * code under test and every callback it receives is recorded as an event; all
 * decisions come from sim_choose.  The reference model (dst/rtmodel.py) reads
 * the recorded history. */
#pragma once
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include "sim.h"

enum { RK_BOOL, RK_STR, RK_INT, RK_UINT, RK_FLOAT, RK_DOUBLE, RK_ENUM, RK_NODE, RK_USER };
struct rt_attr { const char *name; int kind, size; bool cons; int nenum; int ag; };
struct rt_child { const char *name; uint64_t mask; bool cons; void *(*trav)(void *); bool mand; };
struct rt_type { const char *name; int nch, nat; const struct rt_child *ch; const struct rt_attr *at; };
struct rt_trav { const char *uid; int id; int ndata; const struct rt_attr *data; };
union rt_val { int64_t i; uint64_t u; double d; void *p; };

/* every accessor of a node field: of the node type itself and of nodesets */
struct rt_acc { const char *name; uint64_t mask; const struct rt_attr a; int child; };
extern const struct rt_acc rt_accs[];
extern const int rt_naccs;
void *rt_acc_ptr(int acc, void *n);

extern const struct rt_type rt_types[]; /* 1-based */
extern const int rt_ntypes, rt_root_type;
extern const struct rt_trav rt_travs[];
extern const int rt_npasses, rt_pass_ids[];
extern const int rt_ntravs;
extern const uint64_t rt_typemask_all;
void *rt_attr_ptr(void *n, int type, int k);
void **rt_child_ptr(void *n, int type, int k);
void *rt_construct(int type, void **ch, union rt_val *at);
int rt_node_type(void *n); /* 0 when unknown */
long rt_node_numchildren(void *n);
void **rt_node_children(void *n);
char **rt_node_file(void *n);
uint32_t *rt_node_loc(void *n, int k);
void *rt_data_ptr(int trav, int k);
int rt_cur_trav(void);
int rt_eval_root(void *n); /* attribute grammar evaluation, if any */

/* called by the generated wrappers */
void *rt_trav(int trav, int type, void *n);
void *rt_pass(int pass, void *n);
bool rt_gate(int gate);
void rt_init(int trav);
void rt_fini(int trav);
uint64_t rt_ag_mix(const char *fn, int n, const uint64_t *v);

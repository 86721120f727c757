/* Deterministic simulator core: PRNG, run server, simulated heap, simulated
 * disk, fault plan, event trace.  Everything the code under test can observe
 * from its environment goes through this file. */
#pragma once
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>

#define SIM_MAXFAULTS 64
#define SIM_TRACE_MAX (8u << 20)
#define SIM_CON_MAX (256u << 10)
#define SIM_MAXDEC (1u << 18)
#define SIM_MAXPROF (1u << 20)
#define SIM_MAXSTEPS 6
#define SIM_MAXARGS 16

/* fault kinds */
enum {
    FK_NONE = 0,
    FK_ALLOC,        /* one allocation fails */
    FK_ALLOC_STICKY, /* this and every later allocation fails */
    FK_FS,           /* one file system operation fails with errno arg */
    FK_FS_STICKY,    /* this and all later ops of the same class fail */
    FK_TORN,         /* write persists a prefix, then fails with errno arg */
    FK_CON,          /* console (stdout/stderr) write fails */
    FK_CRASH,        /* process dies before fs op */
    FK_CRASH_TORN,   /* process dies in the middle of fs op (write prefix) */
    FK_CRASH_ALLOC,  /* process dies at allocation */
    FK_DISKFULL,     /* disk capacity is arg bytes above the current usage */
    FK_SYMKILL,      /* spare */
    FK_NKINDS
};

struct sim_fault {
    int kind;
    uint64_t index; /* 1-based op number in its class */
    int64_t arg;
    int fired;
};

/* special exit codes used by the simulator itself */
#define SIM_EXIT_CRASH 240
#define SIM_EXIT_STEPS 241
#define SIM_EXIT_HEAP 242   /* heap misuse detected */
#define SIM_EXIT_SIMERR 243 /* simulator limit: result unusable */
#define SIM_EXIT_HARNESS 244

struct sim_cfg {
    uint64_t seed;
    uint64_t heap_seed; /* layout */
    int heap_mode;      /* 0 compact, 1 gaps, 2 scattered regions */
    int heap_reuse;     /* percent chance that a freed block is reused */
    int heap_fill;      /* 0..255 fill byte, 256 random, 257 zero */
    int realloc_move;
    int readchunk; /* max bytes per read, 0 = unlimited */
    int shortwrite; /* max bytes per write, 0 = unlimited */
    int profile;
    uint64_t max_ops;
    int powerloss; /* apply lost write model after a crash */
    int dumpfiles;
    int nfaults;
    struct sim_fault faults[SIM_MAXFAULTS];
};

void sim_event(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
uint32_t sim_choose(uint32_t n); /* environment decision, recorded */
uint64_t sim_rand(void);         /* unrecorded stream; workload generation only */
extern int sim_armed;            /* target code is running: count and fault */
extern struct sim_cfg sim_cfg;
void sim_fail(const char *what, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
bool sim_fault_fired(void);

/* heap introspection */
uint32_t sim_block_seq(const void *p); /* 0 when p is not a live block start */
uint64_t sim_block_size(const void *p);
uint64_t sim_live_blocks(void);
void sim_live_report(int max); /* emits LEAK events */
void sim_heap_check(void);     /* verify all canaries */
void *sim_raw_malloc(size_t n); /* harness memory, never counted/faulted */

/* supplied by each workload: argv for step k */
int sim_target_main(int argc, char **argv);

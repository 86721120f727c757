#define _GNU_SOURCE
#include "sim.h"
#include <regex.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <time.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

/* ------------------------------------------------------------------ */
/* shared state                                                       */
/* ------------------------------------------------------------------ */
#define MAXFILES 1024
#define PATHLEN 240
#define DISKPOOL (512ull << 20)
#define MAXFD 256
#define FD_BASE 5000

struct vfile {
    char path[PATHLEN];
    uint8_t used, isdir, touched, synced, preexisting;
    uint16_t mode;
    uint64_t size, cap, off; /* off: offset in pool */
};

struct shm {
    volatile uint32_t trace_len;
    volatile uint32_t out_len, err_len;
    volatile uint32_t ndec;
    volatile uint64_t n_alloc, n_fs, n_con, n_ops, n_events;
    volatile uint64_t disk_used;
    volatile uint32_t fired[FK_NKINDS];
    volatile uint32_t nprof_a, nprof_f;
    volatile uint32_t simerr;
    volatile uint32_t eff_errs;
    uint64_t pool_used;
    int nfiles;
    struct vfile files[MAXFILES];
    uint32_t dec_n[SIM_MAXDEC];
    uint32_t dec_v[SIM_MAXDEC];
    uint32_t prof_a[SIM_MAXPROF];
    uint32_t prof_f[SIM_MAXPROF];
    uint8_t prof_k[SIM_MAXPROF];
    char out[SIM_CON_MAX], err[SIM_CON_MAX];
    char trace[SIM_TRACE_MAX];
};
static struct shm *S;
static uint8_t *pool; /* shared disk contents */
struct sim_cfg sim_cfg;
int sim_armed;
static int in_sim; /* guard against recursion */

/* explicit decisions */
static uint32_t *dec_in;
static uint32_t dec_in_n;
static int dec_in_set;

/* ------------------------------------------------------------------ */
/* PRNG                                                               */
/* ------------------------------------------------------------------ */
static uint64_t splitmix(uint64_t *s) {
    uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static uint64_t st_env, st_heap, st_io, st_work;
static void seed_streams(void) {
    uint64_t s = sim_cfg.seed;
    st_env = splitmix(&s) ^ 0x1111;
    st_io = splitmix(&s) ^ 0x2222;
    st_work = splitmix(&s) ^ 0x3333;
    uint64_t h = sim_cfg.heap_seed;
    st_heap = splitmix(&h) ^ 0x4444;
}
uint64_t sim_rand(void) { return splitmix(&st_work); }

/* ------------------------------------------------------------------ */
/* raw output without stdio / malloc                                  */
/* ------------------------------------------------------------------ */
static long raw_write(int fd, const void *p, size_t n) { return syscall(SYS_write, fd, p, n); }
static void die_now(int code) __attribute__((noreturn));
static void die_now(int code) {
    syscall(SYS_exit_group, code);
    __builtin_unreachable();
}

/* tiny vsnprintf wrapper: glibc's vsnprintf does not malloc for simple formats */
void sim_event(const char *fmt, ...) {
    char buf[2048];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf - 1, fmt, ap);
    va_end(ap);
    if (n < 0) return;
    if (n > (int)sizeof buf - 2) n = sizeof buf - 2;
    buf[n++] = '\n';
    uint32_t l = S->trace_len;
    if (l + n >= SIM_TRACE_MAX) {
        die_now(SIM_EXIT_STEPS); /* more than any sound run needs */
    }
    memcpy(S->trace + l, buf, n);
    S->trace_len = l + n;
    S->n_events++;
    if (sim_cfg.max_ops && S->n_events > sim_cfg.max_ops) die_now(SIM_EXIT_STEPS);
}
void sim_fail(const char *what, const char *fmt, ...) {
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    sim_event("SIMFAIL %s %s", what, buf);
    die_now(SIM_EXIT_HEAP);
}
bool sim_fault_fired(void) {
    for (int i = 0; i < sim_cfg.nfaults; i++)
        if (sim_cfg.faults[i].fired) return true;
    return false;
}
uint32_t sim_choose(uint32_t n) {
    if (n <= 1) return 0;
    uint32_t k = S->ndec;
    uint32_t v;
    if (dec_in_set) {
        v = k < dec_in_n ? dec_in[k] % n : 0;
    } else {
        v = (uint32_t)((splitmix(&st_env) >> 11) % n);
    }
    if (k >= SIM_MAXDEC) {
        die_now(SIM_EXIT_STEPS); /* more than any sound run needs */
    }
    S->dec_n[k] = n;
    S->dec_v[k] = v;
    S->ndec = k + 1;
    return v;
}

/* ------------------------------------------------------------------ */
/* call-site hashing via frame pointers (for fault placement)         */
/* ------------------------------------------------------------------ */
static uintptr_t stack_lo, stack_hi;
extern char __executable_start, etext;
__attribute__((noinline)) static uint32_t site_hash(void) {
    uintptr_t *fp = __builtin_frame_address(0);
    uint32_t h = 2166136261u;
    int got = 0;
    stack_lo = (uintptr_t)fp;
    for (int i = 0; i < 24 && got < 5; i++) {
        uintptr_t a = (uintptr_t)fp;
        if (a < stack_lo || a + 16 > stack_hi || (a & 7)) break;
        uintptr_t ret = fp[1];
        uintptr_t *next = (uintptr_t *)fp[0];
        if (ret >= (uintptr_t)&__executable_start && ret < (uintptr_t)&etext) {
            h = (h ^ (uint32_t)(ret - (uintptr_t)&__executable_start)) * 16777619u;
            got++;
        }
        if (next <= fp) break;
        fp = next;
    }
    return h;
}

/* ------------------------------------------------------------------ */
/* faults                                                             */
/* ------------------------------------------------------------------ */
static void tick(void) {
    S->n_ops++;
    if (sim_cfg.max_ops && S->n_ops > sim_cfg.max_ops) die_now(SIM_EXIT_STEPS);
}
static int libc_inner, libc_failed;
static int alloc_fault(void) {
    /* called for each counted allocation, returns 1 to fail it */
    uint64_t k = ++S->n_alloc;
    tick();
    if (sim_cfg.profile && S->nprof_a < SIM_MAXPROF) S->prof_a[S->nprof_a++] = site_hash();
    int fail = 0;
    for (int i = 0; i < sim_cfg.nfaults; i++) {
        struct sim_fault *f = &sim_cfg.faults[i];
        if (f->kind == FK_ALLOC && f->index == k) fail = 1;
        else if (f->kind == FK_ALLOC_STICKY && k >= f->index) fail = 1;
        else if (f->kind == FK_CRASH_ALLOC && f->index == k) {
            f->fired++;
            S->fired[f->kind]++;
            die_now(SIM_EXIT_CRASH);
        } else continue;
        f->fired++;
        S->fired[f->kind]++;
    }
    if (fail && libc_inner) {
        /* glibc's regcomp frees twice when its own allocations fail: the call
         * as a whole reports the lack of memory instead */
        libc_failed = 1;
        return 0;
    }
    return fail;
}

int __real_regcomp(regex_t *, const char *, int);
int __real_regexec(const regex_t *, const char *, size_t, regmatch_t *, int);
int __wrap_regcomp(regex_t *r, const char *p, int f) {
    libc_inner++;
    libc_failed = 0;
    int x = __real_regcomp(r, p, f);
    if (libc_failed && x == 0) {
        regfree(r);
        x = REG_ESPACE;
    }
    libc_inner--;
    return x;
}
int __wrap_regexec(const regex_t *r, const char *s, size_t n, regmatch_t *m, int f) {
    libc_inner++;
    libc_failed = 0;
    int x = __real_regexec(r, s, n, m, f);
    if (libc_failed) x = REG_ESPACE;
    libc_inner--;
    return x;
}

/* ------------------------------------------------------------------ */
/* simulated heap                                                     */
/* ------------------------------------------------------------------ */
#define ARENA_BASE ((uint8_t *)0x500000000000ull)
#define ARENA_SIZE (2ull << 30)
#define NREG 8
#define MAGIC_LIVE 0x51AB1E5u
#define MAGIC_DEAD 0xDEADB10Cu
struct hdr {
    uint32_t magic, seq;
    uint64_t size;
    struct hdr *prev, *next;
    uint64_t rsize; /* reserved bytes for user data */
    uint64_t canary;
    uint64_t pad[2];
};
_Static_assert(sizeof(struct hdr) == 64, "hdr");
static uint8_t *reg_cur[NREG], *reg_end[NREG];
static struct hdr *live_head;
static uint64_t live_n;
static uint32_t seq_ctr;
#define NCLS 128
static struct hdr *freelist[NCLS];
static int arena_ready;

/* boot/harness memory: bump, never freed */
#define BOOT_BASE ((uint8_t *)0x400000000000ull)
#define BOOT_SIZE (1ull << 30)
static uint8_t *boot_cur;
void *sim_raw_malloc(size_t n) {
    if (!boot_cur) {
        void *p = mmap(BOOT_BASE, BOOT_SIZE, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != BOOT_BASE) {
            raw_write(2, "boot mmap\n", 10);
            die_now(SIM_EXIT_SIMERR);
        }
        boot_cur = BOOT_BASE;
    }
    n = (n + 31) & ~(size_t)15;
    uint8_t *p = boot_cur + 16;
    *(size_t *)boot_cur = n;
    boot_cur += n + 16;
    if (boot_cur > BOOT_BASE + BOOT_SIZE) {
        raw_write(2, "boot full\n", 10);
        die_now(SIM_EXIT_SIMERR);
    }
    return p;
}
static void arena_reset(void) {
    if (!arena_ready) {
        void *p = mmap(ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != ARENA_BASE) {
            raw_write(2, "arena mmap\n", 11);
            die_now(SIM_EXIT_SIMERR);
        }
        arena_ready = 1;
    }
    int order[NREG];
    for (int i = 0; i < NREG; i++) order[i] = i;
    for (int i = NREG - 1; i > 0; i--) {
        int j = splitmix(&st_heap) % (i + 1), t = order[i];
        order[i] = order[j];
        order[j] = t;
    }
    uint64_t rs = ARENA_SIZE / NREG;
    for (int i = 0; i < NREG; i++) {
        reg_cur[i] = ARENA_BASE + rs * order[i] + 16 * (splitmix(&st_heap) % 64);
        reg_end[i] = ARENA_BASE + rs * (order[i] + 1);
    }
    live_head = NULL;
    live_n = 0;
    seq_ctr = 0;
    memset(freelist, 0, sizeof freelist);
}
static int in_arena(const void *p) {
    return (const uint8_t *)p >= ARENA_BASE && (const uint8_t *)p < ARENA_BASE + ARENA_SIZE;
}
static uint64_t tail_canary(struct hdr *h) { return 0xC0FFEE5EED000000ull ^ (uint64_t)(uintptr_t)h; }
static void fill_block(uint8_t *p, size_t n) {
    if (sim_cfg.heap_fill == 256) {
        for (size_t i = 0; i < n; i += 8) {
            uint64_t r = splitmix(&st_heap);
            memcpy(p + i, &r, n - i < 8 ? n - i : 8);
        }
    } else memset(p, sim_cfg.heap_fill == 257 ? 0 : sim_cfg.heap_fill, n);
}
static void *arena_alloc(size_t n) {
    uint64_t rs = (n + 8 + 15) & ~15ull;
    struct hdr *h = NULL;
    int cls = rs / 16;
    if (sim_cfg.heap_reuse && cls < NCLS && freelist[cls] &&
        (int)(splitmix(&st_heap) % 100) < sim_cfg.heap_reuse) {
        h = freelist[cls];
        freelist[cls] = h->next;
    } else {
        int r = sim_cfg.heap_mode == 2 ? (int)(splitmix(&st_heap) % NREG) : 0;
        uint64_t gap = sim_cfg.heap_mode >= 1 ? 16 * (splitmix(&st_heap) % 24) : 0;
        h = (struct hdr *)(reg_cur[r] + gap);
        reg_cur[r] = (uint8_t *)h + sizeof *h + rs;
        if (reg_cur[r] > reg_end[r]) {
            die_now(SIM_EXIT_STEPS);
        }
        h->rsize = rs;
    }
    h->magic = MAGIC_LIVE;
    h->seq = ++seq_ctr;
    h->size = n;
    h->canary = tail_canary(h);
    h->prev = NULL;
    h->next = live_head;
    if (live_head) live_head->prev = h;
    live_head = h;
    live_n++;
    uint8_t *u = (uint8_t *)(h + 1);
    fill_block(u, n);
    uint64_t c = tail_canary(h);
    memcpy(u + n, &c, 8);
    return u;
}
static void check_block(struct hdr *h, const char *when) {
    uint64_t c;
    memcpy(&c, (uint8_t *)(h + 1) + h->size, 8);
    if (c != tail_canary(h) || h->canary != tail_canary(h))
        sim_fail("overflow", "block seq=%u size=%lu at %s", h->seq, (unsigned long)h->size, when);
}
static struct hdr *get_hdr(void *p, const char *op) {
    struct hdr *h = (struct hdr *)p - 1;
    if (((uintptr_t)p & 15) || h->magic != MAGIC_LIVE) {
        if (!((uintptr_t)p & 15) && h->magic == MAGIC_DEAD)
            sim_fail("doublefree", "%s of freed block seq=%u", op, h->seq);
        sim_fail("badfree", "%s of non-block pointer", op);
    }
    check_block(h, op);
    return h;
}
static void arena_free(void *p) {
    struct hdr *h = get_hdr(p, "free");
    if (h->prev) h->prev->next = h->next;
    else live_head = h->next;
    if (h->next) h->next->prev = h->prev;
    live_n--;
    h->magic = MAGIC_DEAD;
    memset(p, 0xDD, h->size);
    int cls = h->rsize / 16;
    if (sim_cfg.heap_reuse && cls < NCLS) {
        h->next = freelist[cls];
        freelist[cls] = h;
    }
}
uint32_t sim_block_seq(const void *p) {
    if (!in_arena(p) || ((uintptr_t)p & 15)) return 0;
    const struct hdr *h = (const struct hdr *)p - 1;
    return h->magic == MAGIC_LIVE ? h->seq : 0;
}
uint64_t sim_block_size(const void *p) {
    return sim_block_seq(p) ? ((const struct hdr *)p - 1)->size : 0;
}
uint64_t sim_live_blocks(void) { return live_n; }
void sim_heap_check(void) {
    for (struct hdr *h = live_head; h; h = h->next) check_block(h, "scan");
}
void sim_live_report(int max) {
    int k = 0;
    for (struct hdr *h = live_head; h && k < max; h = h->next, k++)
        sim_event("LEAK seq=%u size=%lu", h->seq, (unsigned long)h->size);
}

void *malloc(size_t n) {
    if (!sim_armed || in_sim) return sim_raw_malloc(n);
    if (alloc_fault()) {
        errno = ENOMEM;
        return NULL;
    }
    return arena_alloc(n);
}
void free(void *p) {
    if (!p || !in_arena(p)) return;
    arena_free(p);
}
void *calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return NULL;
    }
    void *p = malloc(n);
    if (p) memset(p, 0, n);
    return p;
}
void *realloc(void *p, size_t n) {
    if (!p) return malloc(n);
    if (!in_arena(p)) {
        size_t old = *(size_t *)((uint8_t *)p - 16);
        void *q = malloc(n);
        if (q) memcpy(q, p, old < n ? old : n);
        return q;
    }
    struct hdr *h = get_hdr(p, "realloc");
    if (sim_armed && !in_sim && alloc_fault()) {
        errno = ENOMEM;
        return NULL;
    }
    uint64_t old = h->size;
    void *q = arena_alloc(n);
    memcpy(q, p, old < n ? old : n);
    arena_free(p);
    return q;
}
void *memalign(size_t al, size_t n) {
    (void)al;
    return malloc(n);
}
void *aligned_alloc(size_t al, size_t n) {
    (void)al;
    return malloc(n);
}
int posix_memalign(void **o, size_t al, size_t n) {
    (void)al;
    void *p = malloc(n);
    if (!p) return ENOMEM;
    *o = p;
    return 0;
}
void *reallocarray(void *p, size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return NULL;
    }
    return realloc(p, n);
}
size_t malloc_usable_size(void *p) { return p ? (in_arena(p) ? ((struct hdr *)p - 1)->size : *(size_t *)((uint8_t *)p - 16)) : 0; }

/* ------------------------------------------------------------------ */
/* simulated disk                                                     */
/* ------------------------------------------------------------------ */
struct vfd {
    int used, file, flags, isdir, append, is_con;
    uint64_t pos;
    int dirpos;
};
static struct vfd fds[MAXFD];

enum { OP_OPENR = 1, OP_OPENW, OP_READ, OP_WRITE, OP_CLOSE, OP_MKDIR, OP_OPENDIR, OP_STAT, OP_UNLINK, OP_RENAME, OP_SYNC, OP_TRUNC, OP_RMDIR };
static const char *const opname[] = {"?", "openr", "openw", "read", "write", "close", "mkdir", "opendir", "stat", "unlink", "rename", "fsync", "trunc", "rmdir"};

static uint64_t fnv(const void *p, size_t n) {
    const uint8_t *b = p;
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull;
    return h;
}
static void normpath(char *dst, const char *src) {
    /* textual normalisation: collapse // and ./ and trailing / ; relative paths stay relative to the simulated cwd */
    char parts[40][PATHLEN];
    int n = 0;
    int abs = src[0] == '/';
    const char *p = src;
    while (*p) {
        while (*p == '/') p++;
        const char *e = p;
        while (*e && *e != '/') e++;
        size_t l = e - p;
        if (l == 0) break;
        if (l == 1 && p[0] == '.') {
        } else if (l == 2 && p[0] == '.' && p[1] == '.') {
            if (n > 0 && strcmp(parts[n - 1], "..")) n--;
            else if (!abs) strcpy(parts[n++], "..");
        } else {
            if (l >= PATHLEN) l = PATHLEN - 1;
            memcpy(parts[n], p, l);
            parts[n][l] = 0;
            n++;
        }
        if (n >= 39) break;
        p = e;
    }
    size_t o = 0;
    if (abs) dst[o++] = '/';
    for (int i = 0; i < n; i++) {
        size_t l = strlen(parts[i]);
        if (o + l + 2 >= PATHLEN) break;
        if (i) dst[o++] = '/';
        memcpy(dst + o, parts[i], l);
        o += l;
    }
    if (o == 0) dst[o++] = '.';
    dst[o] = 0;
    if (!strncmp(dst, "/simcwd", 7)) {
        /* an absolute name below the simulated working directory */
        char *r = dst + 7;
        while (*r && *r != '/') r++;
        if (*r) memmove(dst, r + 1, strlen(r));
        else strcpy(dst, ".");
    }
}
/* device files: exist always, keep nothing */
enum { DEV_NULL = -3, DEV_ZERO = -4, DEV_FULL = -5, DEV_RANDOM = -6 };
static int devlookup(const char *np) {
    if (!strcmp(np, "/dev/null")) return DEV_NULL;
    if (!strcmp(np, "/dev/zero")) return DEV_ZERO;
    if (!strcmp(np, "/dev/full")) return DEV_FULL;
    if (!strcmp(np, "/dev/urandom") || !strcmp(np, "/dev/random")) return DEV_RANDOM;
    return -1;
}
static int vlookup(const char *np) {
    for (int i = 0; i < S->nfiles; i++)
        if (S->files[i].used == 1 && !strcmp(S->files[i].path, np)) return i;
    return -1;
}
static int is_root_dir(const char *np) { return !strcmp(np, ".") || !strcmp(np, "/") || !strcmp(np, "/tmp") || !strcmp(np, "/dev"); }
static void forget(int i);
static int parent_state(const char *np) {
    /* 0 ok, else errno */
    char par[PATHLEN];
    strcpy(par, np);
    char *s = strrchr(par, '/');
    if (!s) return 0;
    if (s == par) return 0;
    *s = 0;
    if (is_root_dir(par) || !strcmp(par, "..")) return 0;
    int i = vlookup(par);
    if (i < 0) return ENOENT;
    return S->files[i].isdir ? 0 : ENOTDIR;
}
static int vcreate(const char *np, int isdir, int mode) {
    int i;
    for (i = 0; i < S->nfiles; i++)
        if (!S->files[i].used) break;
    if (i == S->nfiles) {
        if (S->nfiles >= MAXFILES) {
            die_now(SIM_EXIT_STEPS);
        }
        S->nfiles++;
    }
    struct vfile *f = &S->files[i];
    memset(f, 0, sizeof *f);
    strcpy(f->path, np);
    f->used = 1;
    f->isdir = isdir;
    f->mode = mode;
    f->touched = 1;
    return i;
}
static void vreserve(struct vfile *f, uint64_t need) {
    if (need <= f->cap) return;
    uint64_t nc = f->cap ? f->cap : 256;
    while (nc < need) nc *= 2;
    if (S->pool_used + nc > DISKPOOL) {
        die_now(SIM_EXIT_STEPS); /* more than any sound run needs */
    }
    uint64_t no = S->pool_used;
    S->pool_used += nc;
    memcpy(pool + no, pool + f->off, f->size);
    f->off = no;
    f->cap = nc;
}
static uint64_t disk_cap = UINT64_MAX;

/* Decide the fate of one fs op. Returns errno to inject (0 none).
 * For writes *len may be shortened; *torn set => persist *len then fail. */
static int fs_fault(int op, const char *path, uint64_t *len, int *torn, int *crash_after) {
    uint64_t k = ++S->n_fs;
    tick();
    if (sim_cfg.profile && S->nprof_f < SIM_MAXPROF) {
        S->prof_k[S->nprof_f] = op;
        S->prof_f[S->nprof_f++] = site_hash();
    }
    int e = 0;
    for (int i = 0; i < sim_cfg.nfaults; i++) {
        struct sim_fault *f = &sim_cfg.faults[i];
        switch (f->kind) {
        case FK_FS:
            if (f->index != k) continue;
            e = (int)f->arg;
            break;
        case FK_FS_STICKY:
            if (k < f->index) continue;
            if (f->index != k && op == OP_CLOSE) continue;
            e = (int)f->arg;
            break;
        case FK_TORN:
            if (f->index != k || !len) continue;
            *len = *len ? *len / 2 : 0;
            *torn = 1;
            e = (int)f->arg;
            break;
        case FK_CRASH:
            if (f->index != k) continue;
            f->fired++;
            S->fired[f->kind]++;
            die_now(SIM_EXIT_CRASH);
        case FK_CRASH_TORN:
            if (f->index != k) continue;
            if (len && *len) *len = (uint64_t)(f->arg < 0 ? 0 : f->arg) % (*len + 1);
            *crash_after = 1;
            break;
        default: continue;
        }
        f->fired++;
        S->fired[f->kind]++;
        sim_event("IOFAULT %s %s op=%lu", opname[op], path ? path : "-", (unsigned long)k);
    }
    return e;
}

static int fd_new(int file, int flags) {
    for (int i = 0; i < MAXFD; i++)
        if (!fds[i].used) {
            memset(&fds[i], 0, sizeof fds[i]);
            fds[i].used = 1;
            fds[i].file = file;
            fds[i].flags = flags;
            return FD_BASE + i;
        }
    errno = EMFILE;
    return -1;
}
static struct vfd *fd_get(int fd) {
    if (fd < FD_BASE || fd >= FD_BASE + MAXFD || !fds[fd - FD_BASE].used) return NULL;
    return &fds[fd - FD_BASE];
}

static int v_open(const char *path, int flags, int mode) {
    char np[PATHLEN];
    normpath(np, path);
    int acc = flags & O_ACCMODE;
    int op = (acc == O_RDONLY && !(flags & (O_CREAT | O_TRUNC))) ? OP_OPENR : OP_OPENW;
    int torn = 0, ca = 0;
    int e = fs_fault(op, np, NULL, &torn, &ca);
    if (e) {
        errno = e;
        return -1;
    }
    int i = is_root_dir(np) ? -2 : vlookup(np);
    if (path[0] == 0) {
        errno = ENOENT;
        return -1;
    }
    if (devlookup(np) != -1) {
        int fd = fd_new(devlookup(np), flags);
        if (ca) die_now(SIM_EXIT_CRASH);
        return fd;
    }
    if (i == -1) {
        if (!(flags & O_CREAT)) {
            errno = ENOENT;
            return -1;
        }
        int pe = parent_state(np);
        if (pe) {
            errno = pe;
            return -1;
        }
        if (disk_cap != UINT64_MAX && S->disk_used >= disk_cap) {
            /* no space left for the directory entry */
            for (int q = 0; q < sim_cfg.nfaults; q++)
                if (sim_cfg.faults[q].kind == FK_DISKFULL) sim_cfg.faults[q].fired++, S->fired[FK_DISKFULL]++;
            sim_event("IOFAULT openw %s full", np);
            errno = ENOSPC;
            return -1;
        }
        i = vcreate(np, 0, mode);
    } else if (i == -2 || S->files[i].isdir) {
        if (acc != O_RDONLY) {
            errno = EISDIR;
            return -1;
        }
        if (i == -2) {
            int fd = fd_new(-2, flags);
            if (fd >= 0) fds[fd - FD_BASE].isdir = 1;
            return fd;
        }
    } else {
        if ((flags & O_CREAT) && (flags & O_EXCL)) {
            errno = EEXIST;
            return -1;
        }
        if (acc != O_RDONLY && !(S->files[i].mode & 0200)) {
            errno = EACCES;
            return -1;
        }
        if (flags & O_DIRECTORY) {
            errno = ENOTDIR;
            return -1;
        }
    }
    struct vfile *f = &S->files[i];
    if (!f->isdir && (flags & O_TRUNC)) {
        S->disk_used -= f->size;
        f->size = 0;
        f->touched = 1;
        f->synced = 0;
    }
    int fd = fd_new(i, flags);
    if (fd < 0) return -1;
    fds[fd - FD_BASE].isdir = f->isdir;
    fds[fd - FD_BASE].append = !!(flags & O_APPEND);
    if (ca) die_now(SIM_EXIT_CRASH);
    return fd;
}
static ssize_t v_read(int fd, void *buf, size_t n) {
    struct vfd *d = fd_get(fd);
    if (!d) {
        errno = EBADF;
        return -1;
    }
    int torn = 0, ca = 0;
    if (d->isdir) {
        errno = EISDIR;
        return -1;
    }
    static struct vfile devf;
    struct vfile *f = d->file >= 0 ? &S->files[d->file] : &devf;
    int e = fs_fault(OP_READ, f->path, NULL, &torn, &ca);
    if (e) {
        errno = e;
        return -1;
    }
    if (ca) die_now(SIM_EXIT_CRASH);
    if ((d->flags & O_ACCMODE) == O_WRONLY) {
        errno = EBADF;
        return -1;
    }
    if (d->file == DEV_NULL) return 0;
    if (d->file == DEV_ZERO || d->file == DEV_FULL) {
        memset(buf, 0, n);
        return n;
    }
    if (d->file == DEV_RANDOM) {
        for (size_t i = 0; i < n; i++) ((uint8_t *)buf)[i] = splitmix(&st_io);
        return n;
    }
    uint64_t left = d->pos < f->size ? f->size - d->pos : 0;
    if (n > left) n = left;
    if (sim_cfg.readchunk && n > 1) {
        uint64_t m = 1 + splitmix(&st_io) % sim_cfg.readchunk;
        if (n > m) n = m;
    }
    memcpy(buf, pool + f->off + d->pos, n);
    d->pos += n;
    return (ssize_t)n;
}
static ssize_t v_write(int fd, const void *buf, size_t n) {
    struct vfd *d = fd_get(fd);
    if (!d || d->isdir || (d->flags & O_ACCMODE) == O_RDONLY) {
        errno = EBADF;
        return -1;
    }
    static struct vfile devf;
    struct vfile *f = d->file >= 0 ? &S->files[d->file] : &devf;
    uint64_t len = n;
    int torn = 0, ca = 0;
    int e = fs_fault(OP_WRITE, f->path, &len, &torn, &ca);
    if (d->file < 0) {
        if (ca) die_now(SIM_EXIT_CRASH);
        if (!e && d->file == DEV_FULL) e = ENOSPC;
        if (!e) return (ssize_t)n;
        errno = e;
        return -1;
    }
    if (e && !torn) {
        errno = e;
        return -1;
    }
    if (!torn && !ca && sim_cfg.shortwrite && len > 1) {
        uint64_t m = 1 + splitmix(&st_io) % sim_cfg.shortwrite;
        if (len > m) len = m;
    }
    if (d->append) d->pos = f->size;
    uint64_t end = d->pos + len;
    uint64_t grow = end > f->size ? end - f->size : 0;
    if (disk_cap != UINT64_MAX && S->disk_used + grow > disk_cap) {
        uint64_t room = disk_cap > S->disk_used ? disk_cap - S->disk_used : 0;
        uint64_t cut = grow - room;
        for (int q = 0; q < sim_cfg.nfaults; q++)
            if (sim_cfg.faults[q].kind == FK_DISKFULL) sim_cfg.faults[q].fired++, S->fired[FK_DISKFULL]++;
        sim_event("IOFAULT write %s full", f->path);
        if (cut >= len) {
            errno = ENOSPC;
            return -1;
        }
        len -= cut;
        end = d->pos + len;
        grow = end > f->size ? end - f->size : 0;
    }
    vreserve(f, end);
    if (d->pos > f->size) memset(pool + f->off + f->size, 0, d->pos - f->size);
    memcpy(pool + f->off + d->pos, buf, len);
    if (end > f->size) {
        f->size = end;
        S->disk_used += grow;
    }
    d->pos = end;
    f->touched = 1;
    f->synced = 0;
    if (ca) die_now(SIM_EXIT_CRASH);
    if (torn) {
        errno = e;
        return -1;
    }
    return (ssize_t)len;
}
static int v_close(int fd) {
    struct vfd *d = fd_get(fd);
    if (!d) {
        errno = EBADF;
        return -1;
    }
    int torn = 0, ca = 0;
    int e = fs_fault(OP_CLOSE, d->file >= 0 ? S->files[d->file].path : ".", NULL, &torn, &ca);
    /* a close that reports a write-back error has lost the tail of the data,
     * as NFS or quota enforcement does */
    if (e && d->file >= 0 && !d->isdir && (d->flags & O_ACCMODE) != O_RDONLY) {
        struct vfile *f = &S->files[d->file];
        uint64_t lose = f->size / 2;
        f->size -= lose;
        S->disk_used -= lose;
    }
    d->used = 0;
    if (d->file >= 0 && S->files[d->file].used == 2) forget(d->file);
    if (ca) die_now(SIM_EXIT_CRASH);
    if (e) {
        errno = e;
        return -1;
    }
    return 0;
}
/* the last name of a file is gone; its data stays while it is open */
static void forget(int i) {
    struct vfile *f = &S->files[i];
    for (int k = 0; k < MAXFD; k++)
        if (fds[k].used && fds[k].file == i) {
            f->used = 2;
            return;
        }
    S->disk_used -= f->size;
    f->used = 0;
}

/* ---- stdio over the simulated disk ---- */
struct ck {
    int fd;
    FILE *fp;
};
static struct ck cks[MAXFD];
static ssize_t ck_read(void *c, char *b, size_t n) { return v_read(((struct ck *)c)->fd, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
    /* glibc retries short writes on real files, so do the same here */
    size_t done = 0;
    while (done < n) {
        ssize_t r = v_write(((struct ck *)c)->fd, b + done, n - done);
        if (r < 0) return (ssize_t)done == 0 ? 0 : (ssize_t)done; /* glibc: short count == error */
        done += r;
    }
    return (ssize_t)done;
}
static int ck_seek(void *c, off64_t *o, int w) {
    struct vfd *d = fd_get(((struct ck *)c)->fd);
    if (!d) return -1;
    int64_t base = w == SEEK_SET ? 0 : w == SEEK_CUR ? (int64_t)d->pos : d->file < 0 ? 0 : (int64_t)S->files[d->file].size;
    if (base + *o < 0) {
        errno = EINVAL;
        return -1;
    }
    d->pos = base + *o;
    *o = d->pos;
    return 0;
}
static int ck_close(void *c) {
    struct ck *k = c;
    int fd = k->fd;
    k->fp = NULL;
    return v_close(fd);
}
static FILE *mk_file(int fd, const char *mode) {
    struct ck *c = &cks[fd - FD_BASE];
    c->fd = fd;
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    char m[8];
    int n = 0;
    for (const char *p = mode; *p && n < 6; p++)
        if (*p != 'x' && *p != 'e' && *p != 'm' && *p != 'c') m[n++] = *p;
    m[n] = 0;
    FILE *fp = fopencookie(c, m, io); /* may fail: its allocation is faultable */
    if (!fp) {
        fds[fd - FD_BASE].used = 0;
        errno = ENOMEM;
        return NULL;
    }
    c->fp = fp;
    return fp;
}
static int mode_flags(const char *m) {
    int f;
    int plus = strchr(m, '+') != NULL;
    switch (m[0]) {
    case 'r': f = plus ? O_RDWR : O_RDONLY; break;
    case 'w': f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
    case 'a': f = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
    default: return -1;
    }
    if (strchr(m, 'x')) f |= O_EXCL;
    return f;
}
#define REALFS (!sim_armed)
FILE *fopen(const char *path, const char *mode) {
    int f = mode_flags(mode);
    if (f < 0) {
        errno = EINVAL;
        return NULL;
    }
    if (REALFS) {
        int fd = syscall(SYS_openat, AT_FDCWD, path, f, 0666);
        return fd < 0 ? NULL : fdopen(fd, mode);
    }
    int fd = v_open(path, f, 0644);
    return fd < 0 ? NULL : mk_file(fd, mode);
}
FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }
extern FILE *__real_fdopen(int, const char *);
FILE *__wrap_fdopen(int fd, const char *mode) {
    if (fd_get(fd)) return mk_file(fd, mode);
    return __real_fdopen(fd, mode);
}
extern int __real_fileno(FILE *);
int __wrap_fileno(FILE *fp) {
    for (int i = 0; i < MAXFD; i++)
        if (cks[i].fp == fp && fds[i].used) return FD_BASE + i;
    if (sim_armed && fp == stdout) return 1;
    if (sim_armed && fp == stderr) return 2;
    return __real_fileno(fp);
}
FILE *freopen(const char *path, const char *mode, FILE *fp) {
    (void)path;
    (void)mode;
    (void)fp;
    S->simerr = 6;
    die_now(SIM_EXIT_SIMERR);
}
int open(const char *path, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0;
    va_end(ap);
    if (REALFS) return syscall(SYS_openat, AT_FDCWD, path, flags, mode);
    return v_open(path, flags, mode);
}
int open64(const char *path, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0;
    va_end(ap);
    return open(path, flags, mode);
}
int openat(int dfd, const char *path, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0;
    va_end(ap);
    if (REALFS) return syscall(SYS_openat, dfd, path, flags, mode);
    return v_open(path, flags, mode);
}
int creat(const char *path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
static void con_put(int fd, const char *b, size_t n);
static ssize_t con_write(int fd, const char *b, size_t n);
ssize_t read(int fd, void *b, size_t n) {
    if (fd_get(fd)) return v_read(fd, b, n);
    return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
    if (fd_get(fd)) return v_write(fd, b, n);
    if (sim_armed && (fd == 1 || fd == 2)) return con_write(fd, b, n);
    return syscall(SYS_write, fd, b, n);
}
int close(int fd) {
    if (fd_get(fd)) return v_close(fd);
    return syscall(SYS_close, fd);
}
off_t lseek(int fd, off_t o, int w) {
    struct vfd *d = fd_get(fd);
    if (!d) return syscall(SYS_lseek, fd, o, w);
    struct ck c = {fd, NULL};
    off64_t x = o;
    return ck_seek(&c, &x, w) ? -1 : (off_t)x;
}
int fsync(int fd) {
    struct vfd *d = fd_get(fd);
    if (!d) return syscall(SYS_fsync, fd);
    int t = 0, ca = 0;
    int e = fs_fault(OP_SYNC, d->file >= 0 ? S->files[d->file].path : ".", NULL, &t, &ca);
    if (e) {
        errno = e;
        return -1;
    }
    if (d->file >= 0) S->files[d->file].synced = 1;
    return 0;
}
int fdatasync(int fd) { return fsync(fd); }
int ftruncate(int fd, off_t n) {
    struct vfd *d = fd_get(fd);
    if (!d) return syscall(SYS_ftruncate, fd, n);
    if (d->file < 0 || d->isdir) {
        errno = EINVAL;
        return -1;
    }
    struct vfile *f = &S->files[d->file];
    int t = 0, ca = 0;
    int e = fs_fault(OP_TRUNC, f->path, NULL, &t, &ca);
    if (e) {
        errno = e;
        return -1;
    }
    vreserve(f, n);
    if ((uint64_t)n > f->size) memset(pool + f->off + f->size, 0, n - f->size);
    S->disk_used += n - f->size;
    f->size = n;
    f->touched = 1;
    return 0;
}
int mkdir(const char *path, mode_t mode) {
    if (REALFS) return syscall(SYS_mkdir, path, mode);
    char np[PATHLEN];
    normpath(np, path);
    int t = 0, ca = 0;
    int e = fs_fault(OP_MKDIR, np, NULL, &t, &ca);
    if (e) {
        errno = e;
        return -1;
    }
    if (path[0] == 0) {
        errno = ENOENT;
        return -1;
    }
    if (is_root_dir(np) || vlookup(np) >= 0) {
        errno = EEXIST;
        return -1;
    }
    int pe = parent_state(np);
    if (pe) {
        errno = pe;
        return -1;
    }
    vcreate(np, 1, mode);
    if (ca) die_now(SIM_EXIT_CRASH);
    return 0;
}
int rmdir(const char *path) {
    if (REALFS) return syscall(SYS_rmdir, path);
    char np[PATHLEN];
    normpath(np, path);
    int t = 0, ca = 0;
    int e = fs_fault(OP_RMDIR, np, NULL, &t, &ca);
    int i = vlookup(np);
    if (!e && (i < 0 || !S->files[i].isdir)) e = i < 0 ? ENOENT : ENOTDIR;
    if (!e) {
        size_t l = strlen(np);
        for (int k = 0; k < S->nfiles; k++)
            if (S->files[k].used && !strncmp(S->files[k].path, np, l) && S->files[k].path[l] == '/') e = ENOTEMPTY;
    }
    if (e) {
        errno = e;
        return -1;
    }
    sim_event("REMOVE %s", np);
    S->files[i].used = 0;
    return 0;
}
int unlink(const char *path) {
    if (REALFS) return syscall(SYS_unlink, path);
    char np[PATHLEN];
    normpath(np, path);
    int t = 0, ca = 0;
    int e = fs_fault(OP_UNLINK, np, NULL, &t, &ca);
    int i = vlookup(np);
    if (!e && (i < 0 || S->files[i].isdir)) e = i < 0 ? ENOENT : EISDIR;
    if (e) {
        errno = e;
        return -1;
    }
    sim_event("REMOVE %s", np);
    forget(i);
    return 0;
}
int remove(const char *path) {
    char np[PATHLEN];
    if (REALFS) return syscall(SYS_unlink, path);
    normpath(np, path);
    int i = vlookup(np);
    return i >= 0 && S->files[i].isdir ? rmdir(path) : unlink(path);
}
int rename(const char *a, const char *b) {
    if (REALFS) return syscall(SYS_rename, a, b);
    char na[PATHLEN], nb[PATHLEN];
    normpath(na, a);
    normpath(nb, b);
    int t = 0, ca = 0;
    int e = fs_fault(OP_RENAME, nb, NULL, &t, &ca);
    int i = vlookup(na);
    if (!e && i < 0) e = ENOENT;
    if (!e) e = parent_state(nb);
    int j = vlookup(nb);
    if (!e && j >= 0 && S->files[j].isdir) e = EISDIR;
    if (!e && S->files[i].isdir) {
        S->simerr = 7;
        die_now(SIM_EXIT_SIMERR);
    }
    if (e) {
        errno = e;
        return -1;
    }
    if (j >= 0 && j != i) forget(j);
    strcpy(S->files[i].path, nb);
    S->files[i].touched = 1;
    if (ca) die_now(SIM_EXIT_CRASH);
    return 0;
}
static int fill_stat(int i, struct stat *st) {
    memset(st, 0, sizeof *st);
    st->st_nlink = 1;
    st->st_ino = i + 10;
    st->st_dev = 1;
    if (i == -2) {
        st->st_mode = S_IFDIR | 0755;
        return 0;
    }
    if (i < 0) {
        st->st_mode = S_IFCHR | 0666;
        return 0;
    }
    struct vfile *f = &S->files[i];
    st->st_mode = (f->isdir ? S_IFDIR : S_IFREG) | (f->mode & 07777);
    st->st_size = f->isdir ? 4096 : f->size;
    st->st_blksize = 4096;
    return 0;
}
static int v_stat(const char *path, struct stat *st) {
    char np[PATHLEN];
    normpath(np, path);
    int t = 0, ca = 0;
    int e = fs_fault(OP_STAT, np, NULL, &t, &ca);
    int i = is_root_dir(np) ? -2 : vlookup(np);
    if (i == -1) i = devlookup(np);
    if (!e && i == -1) {
        e = parent_state(np);
        if (!e) e = ENOENT;
    }
    if (e) {
        errno = e;
        return -1;
    }
    return st ? fill_stat(i, st) : 0;
}
int stat(const char *restrict p, struct stat *restrict st) {
    if (REALFS) return syscall(SYS_newfstatat, AT_FDCWD, p, st, 0);
    return v_stat(p, st);
}
int lstat(const char *restrict p, struct stat *restrict st) {
    if (REALFS) return syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW);
    return v_stat(p, st);
}
int stat64(const char *restrict p, struct stat64 *restrict st) { return stat(p, (struct stat *)st); }
int fstat(int fd, struct stat *st) {
    struct vfd *d = fd_get(fd);
    if (!d) return syscall(SYS_fstat, fd, st);
    return fill_stat(d->file, st);
}
int access(const char *p, int m) {
    if (REALFS) return syscall(SYS_faccessat, AT_FDCWD, p, m);
    struct stat st;
    if (v_stat(p, &st)) return -1;
    if ((m & W_OK) && !(st.st_mode & 0200)) {
        errno = EACCES;
        return -1;
    }
    return 0;
}
int chmod(const char *p, mode_t m) {
    if (REALFS) return syscall(SYS_fchmodat, AT_FDCWD, p, m);
    char np[PATHLEN];
    normpath(np, p);
    int t = 0, ca = 0;
    int e = fs_fault(OP_STAT, np, NULL, &t, &ca);
    if (e) {
        errno = e;
        return -1;
    }
    int i = vlookup(np);
    if (i < 0) {
        errno = ENOENT;
        return -1;
    }
    S->files[i].mode = m;
    S->files[i].touched = 1;
    return 0;
}
/* directories: DIR* is an opaque pointer into this table */
static struct {
    int used, file, pos;
    struct dirent de;
} vdirs[32];
DIR *opendir(const char *path) {
    char np[PATHLEN];
    if (REALFS) {
        errno = EACCES;
        return NULL;
    }
    normpath(np, path);
    int t = 0, ca = 0;
    int e = fs_fault(OP_OPENDIR, np, NULL, &t, &ca);
    int i = is_root_dir(np) ? -2 : vlookup(np);
    if (!e && i == -1) e = ENOENT;
    if (!e && i >= 0 && !S->files[i].isdir) e = ENOTDIR;
    if (e) {
        errno = e;
        return NULL;
    }
    for (int k = 0; k < 32; k++)
        if (!vdirs[k].used) {
            vdirs[k].used = 1;
            vdirs[k].file = i;
            vdirs[k].pos = 0;
            return (DIR *)&vdirs[k];
        }
    errno = EMFILE;
    return NULL;
}
int closedir(DIR *d) {
    for (int k = 0; k < 32; k++)
        if ((DIR *)&vdirs[k] == d && vdirs[k].used) {
            vdirs[k].used = 0;
            return 0;
        }
    errno = EBADF;
    return -1;
}
struct dirent *readdir(DIR *d) {
    for (int k = 0; k < 32; k++)
        if ((DIR *)&vdirs[k] == d && vdirs[k].used) {
            const char *base = vdirs[k].file == -2 ? "" : S->files[vdirs[k].file].path;
            size_t l = strlen(base);
            while (vdirs[k].pos < S->nfiles) {
                struct vfile *f = &S->files[vdirs[k].pos++];
                if (f->used != 1 || (l && (strncmp(f->path, base, l) || f->path[l] != '/'))) continue;
                const char *rest = f->path + (l ? l + 1 : 0);
                if (strchr(rest, '/') || rest[0] == 0) continue;
                strncpy(vdirs[k].de.d_name, rest, sizeof vdirs[k].de.d_name - 1);
                vdirs[k].de.d_type = f->isdir ? DT_DIR : DT_REG;
                return &vdirs[k].de;
            }
            return NULL;
        }
    return NULL;
}

/* ---- clock, identity, randomness, environment ---- */
static uint64_t clock_ns;
static uint64_t now_ns(void) {
    if (!clock_ns) {
        uint64_t c = sim_cfg.seed ^ 0x7777;
        clock_ns = (splitmix(&c) % 4000000000ull) * 1000000000ull + splitmix(&c) % 1000000000ull;
    }
    clock_ns += 1000 + splitmix(&st_io) % 1000000;
    return clock_ns;
}
time_t time(time_t *t) {
    time_t v = sim_armed ? (time_t)(now_ns() / 1000000000ull) : (time_t)syscall(SYS_time, 0);
    if (t) *t = v;
    return v;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!sim_armed) return syscall(SYS_clock_gettime, id, ts);
    uint64_t v = now_ns();
    ts->tv_sec = v / 1000000000ull;
    ts->tv_nsec = v % 1000000000ull;
    return 0;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    (void)tz;
    if (!sim_armed) return syscall(SYS_gettimeofday, tv, 0);
    uint64_t v = now_ns();
    tv->tv_sec = v / 1000000000ull;
    tv->tv_usec = v % 1000000000ull / 1000;
    return 0;
}
clock_t clock(void) { return now_ns() / 1000; }
pid_t getpid(void) {
    if (!sim_armed) return syscall(SYS_getpid);
    uint64_t c = sim_cfg.seed ^ 0x8888;
    return 2 + splitmix(&c) % 30000;
}
static uint64_t st_libc;
static uint64_t libc_rand(void) { return splitmix(&st_libc); }
/* an unseeded rand() is a fixed sequence in C; a seeded one follows its seed */
int rand(void) { return libc_rand() & 0x7fffffff; }
long random(void) { return libc_rand() & 0x7fffffff; }
void srand(unsigned s) { st_libc = s; }
void srandom(unsigned s) { st_libc = s; }
long getrandom_impl(void *p, size_t n) {
    uint8_t *b = p;
    for (size_t i = 0; i < n; i++) b[i] = splitmix(&st_io);
    return n;
}
ssize_t getrandom(void *p, size_t n, unsigned f) { return sim_armed ? getrandom_impl(p, n) : syscall(SYS_getrandom, p, n, f); }
char *getenv(const char *name) {
    /* the simulated environment: some variables are set, differently per seed */
    static char buf[32][24];
    if (!sim_armed || !strcmp(name, "TMPDIR") || !strcmp(name, "HOME")) return NULL;
    uint64_t h = fnv(name, strlen(name)), c = sim_cfg.seed ^ h;
    if (splitmix(&c) % 2) return NULL;
    snprintf(buf[h % 32], 24, "sim%x", (unsigned)(splitmix(&c) & 0xffff));
    return buf[h % 32];
}
char *secure_getenv(const char *name) { return getenv(name); }
char *getcwd(char *b, size_t n) {
    char p[64];
    uint64_t c = sim_cfg.seed ^ 0x6666;
    snprintf(p, sizeof p, "/simcwd%x", (unsigned)(splitmix(&c) & 0xfff));
    if (!b) return strdup(p);
    if (n < strlen(p) + 1) {
        errno = ERANGE;
        return NULL;
    }
    return strcpy(b, p);
}
int isatty(int fd) {
    if (!sim_armed) return 0;
    (void)fd;
    errno = ENOTTY;
    return 0;
}
/* anything that would leave the simulation */
static void escape(const char *nm) {
    S->simerr = 8;
    sim_event("ESCAPE %s", nm);
    die_now(SIM_EXIT_SIMERR);
}
int system(const char *c) { (void)c; escape("system"); return 0; }
FILE *popen(const char *c, const char *m) { (void)c; (void)m; escape("popen"); return 0; }
int execv(const char *c, char *const a[]) { (void)c; (void)a; escape("execv"); return 0; }
int execvp(const char *c, char *const a[]) { (void)c; (void)a; escape("execvp"); return 0; }
int chdir(const char *c) { (void)c; escape("chdir"); return 0; }
int symlink(const char *c, const char *d) { (void)c; (void)d; escape("symlink"); return 0; }
int link(const char *a, const char *b) {
    if (REALFS) return syscall(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0);
    char na[PATHLEN], nb[PATHLEN];
    normpath(na, a);
    normpath(nb, b);
    int t = 0, ca = 0;
    int e = fs_fault(OP_RENAME, nb, NULL, &t, &ca);
    int i = vlookup(na);
    if (!e && i < 0) e = ENOENT;
    if (!e && S->files[i].isdir) e = EPERM;
    if (!e && vlookup(nb) >= 0) e = EEXIST;
    if (!e) e = parent_state(nb);
    if (e) {
        errno = e;
        return -1;
    }
    /* no inode table: the second name gets its own copy */
    int j = vcreate(nb, 0, S->files[i].mode);
    vreserve(&S->files[j], S->files[i].size + 1);
    memcpy(pool + S->files[j].off, pool + S->files[i].off, S->files[i].size);
    S->files[j].size = S->files[i].size;
    S->disk_used += S->files[j].size;
    if (ca) die_now(SIM_EXIT_CRASH);
    return 0;
}
static uint64_t tmp_n;
static int tmp_fill(char *tpl, int suf) {
    static const char al[] = "abcdefghijklmnopqrstuvwxyz0123456789";
    size_t l = strlen(tpl);
    if (l < (size_t)suf + 6 || strncmp(tpl + l - suf - 6, "XXXXXX", 6)) {
        errno = EINVAL;
        return -1;
    }
    uint64_t c = sim_cfg.seed ^ 0x5555 ^ (++tmp_n << 20);
    for (int i = 0; i < 6; i++) tpl[l - suf - 6 + i] = al[splitmix(&c) % 36];
    return 0;
}
int mkostemps(char *tpl, int suf, int flags) {
    char keep[PATHLEN];
    for (int k = 0; k < 20; k++) {
        snprintf(keep, sizeof keep, "%s", tpl);
        if (tmp_fill(tpl, suf)) return -1;
        int fd = v_open(tpl, (flags & ~O_ACCMODE) | O_RDWR | O_CREAT | O_EXCL, 0600);
        if (fd >= 0 || errno != EEXIST) return fd;
        strcpy(tpl, keep);
    }
    return -1;
}
int mkstemp(char *tpl) { return mkostemps(tpl, 0, 0); }
int mkstemp64(char *tpl) { return mkostemps(tpl, 0, 0); }
int mkostemp(char *tpl, int flags) { return mkostemps(tpl, 0, flags); }
int mkstemps(char *tpl, int suf) { return mkostemps(tpl, suf, 0); }
char *mkdtemp(char *tpl) {
    if (tmp_fill(tpl, 0)) return NULL;
    return mkdir(tpl, 0700) ? NULL : tpl;
}
FILE *tmpfile(void) {
    char n[32] = "/tmp/tfXXXXXX";
    int fd = mkstemp(n);
    if (fd < 0) return NULL;
    unlink(n);
    return mk_file(fd, "w+");
}
FILE *tmpfile64(void) { return tmpfile(); }
int truncate(const char *p, off_t n) {
    int fd = v_open(p, O_WRONLY, 0);
    if (fd < 0) return -1;
    int r = ftruncate(fd, n);
    int er = errno;
    fds[fd - FD_BASE].used = 0;
    errno = er;
    return r;
}
static int at_ok(int fd, const char *p) { return fd == AT_FDCWD || p[0] == '/'; }
int renameat(int fa, const char *a, int fb, const char *b) {
    if (!at_ok(fa, a) || !at_ok(fb, b)) escape("renameat");
    return rename(a, b);
}
int renameat2(int fa, const char *a, int fb, const char *b, unsigned fl) {
    if (fl) escape("renameat2");
    return renameat(fa, a, fb, b);
}
int linkat(int fa, const char *a, int fb, const char *b, int fl) {
    (void)fl;
    if (!at_ok(fa, a) || !at_ok(fb, b)) escape("linkat");
    return link(a, b);
}
int unlinkat(int fd, const char *p, int fl) {
    if (!at_ok(fd, p)) escape("unlinkat");
    return (fl & AT_REMOVEDIR) ? rmdir(p) : unlink(p);
}
int mkdirat(int fd, const char *p, mode_t m) {
    if (!at_ok(fd, p)) escape("mkdirat");
    return mkdir(p, m);
}
int fchmodat(int fd, const char *p, mode_t m, int fl) {
    (void)fl;
    if (!at_ok(fd, p)) escape("fchmodat");
    return chmod(p, m);
}
int fchmod(int fd, mode_t m) {
    struct vfd *d = fd_get(fd);
    if (!d) return syscall(SYS_fchmod, fd, m);
    if (d->file >= 0) S->files[d->file].mode = m;
    return 0;
}
int fstatat(int fd, const char *restrict p, struct stat *restrict st, int fl) {
    (void)fl;
    if (!at_ok(fd, p)) escape("fstatat");
    return stat(p, st);
}
int faccessat(int fd, const char *p, int m, int fl) {
    (void)fl;
    if (!at_ok(fd, p)) escape("faccessat");
    return access(p, m);
}
int euidaccess(const char *p, int m) { return access(p, m); }
int eaccess(const char *p, int m) { return access(p, m); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    struct vfd *d = fd_get(fd);
    if (!d) return syscall(SYS_pwrite64, fd, b, n, o);
    uint64_t keep = d->pos;
    d->pos = o;
    ssize_t r = v_write(fd, b, n);
    d->pos = keep;
    return r;
}
ssize_t pread(int fd, void *b, size_t n, off_t o) {
    struct vfd *d = fd_get(fd);
    if (!d) return syscall(SYS_pread64, fd, b, n, o);
    uint64_t keep = d->pos;
    d->pos = o;
    ssize_t r = v_read(fd, b, n);
    d->pos = keep;
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    ssize_t t = 0;
    for (int i = 0; i < n; i++) {
        ssize_t r = write(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) return t ? t : r;
        t += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return t;
}
ssize_t readv(int fd, const struct iovec *v, int n) {
    ssize_t t = 0;
    for (int i = 0; i < n; i++) {
        ssize_t r = read(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) return t ? t : r;
        t += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return t;
}
int fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    struct vfd *d = fd_get(fd);
    if (!d) return sim_armed ? 0 : syscall(SYS_fcntl, fd, cmd, a);
    if (cmd == F_GETFL) return d->flags;
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) escape("fcntl(F_DUPFD)");
    return 0;
}
int fcntl64(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long a = va_arg(ap, long);
    va_end(ap);
    return fcntl(fd, cmd, a);
}
int flock(int fd, int op) {
    (void)fd;
    (void)op;
    return 0;
}
int posix_fallocate(int fd, off_t o, off_t n) {
    (void)fd;
    (void)o;
    (void)n;
    return 0;
}
void sync(void) {}
char *realpath(const char *restrict p, char *restrict out) {
    char np[PATHLEN];
    struct stat st;
    normpath(np, p);
    if (v_stat(p, &st)) return NULL;
    char b[4096] = "";
    if (np[0] != '/') {
        if (!getcwd(b, 64)) return NULL;
        if (strcmp(np, ".")) strcat(b, "/");
    }
    if (strcmp(np, ".")) strcat(b, np);
    return out ? strcpy(out, b) : strdup(b);
}
char *canonicalize_file_name(const char *p) { return realpath(p, NULL); }
ssize_t readlink(const char *restrict p, char *restrict b, size_t n) {
    if (!sim_armed) return syscall(SYS_readlink, p, b, n);
    (void)b;
    (void)n;
    errno = EINVAL;
    return -1;
}
int utimes(const char *p, const struct timeval t[2]) {
    (void)p;
    (void)t;
    return 0;
}
/* who and where: different in every simulated environment */
int gethostname(char *b, size_t n) {
    uint64_t c = sim_cfg.seed ^ 0x4441;
    snprintf(b, n, "host%x", (unsigned)(splitmix(&c) & 0xffff));
    return 0;
}
char *getlogin(void) {
    static char b[24];
    uint64_t c = sim_cfg.seed ^ 0x4442;
    snprintf(b, sizeof b, "user%x", (unsigned)(splitmix(&c) & 0xffff));
    return b;
}
uid_t getuid(void) {
    uint64_t c = sim_cfg.seed ^ 0x4443;
    return 1000 + splitmix(&c) % 1000;
}
uid_t geteuid(void) { return getuid(); }
unsigned sleep(unsigned s) {
    now_ns();
    clock_ns += s * 1000000000ull;
    return 0;
}
int usleep(useconds_t u) {
    now_ns();
    clock_ns += u * 1000ull;
    return 0;
}
int nanosleep(const struct timespec *t, struct timespec *r) {
    (void)r;
    now_ns();
    clock_ns += t->tv_sec * 1000000000ull + t->tv_nsec;
    return 0;
}

/* ---- console ---- */
static void con_put(int fd, const char *b, size_t n) {
    char *dst = fd == 1 ? S->out : S->err;
    volatile uint32_t *len = fd == 1 ? &S->out_len : &S->err_len;
    size_t room = SIM_CON_MAX - *len;
    if (n > room) n = room;
    memcpy(dst + *len, b, n);
    *len += n;
}
static ssize_t con_write(int fd, const char *b, size_t n) {
    uint64_t k = ++S->n_con;
    tick();
    for (int i = 0; i < sim_cfg.nfaults; i++) {
        struct sim_fault *f = &sim_cfg.faults[i];
        if (f->kind == FK_CON && k >= f->index && fd == 1) {
            f->fired++;
            S->fired[FK_CON]++;
            errno = (int)f->arg;
            return -1;
        }
    }
    con_put(fd, b, n);
    return n;
}
static ssize_t con_ck_write(void *c, const char *b, size_t n) {
    ssize_t r = con_write((int)(intptr_t)c, b, n);
    return r < 0 ? 0 : r;
}
static char out_buf[4096];

static void con_setup(void) {
    cookie_io_functions_t io = {NULL, con_ck_write, NULL, NULL};
    FILE *o = fopencookie((void *)1, "w", io);
    FILE *e = fopencookie((void *)2, "w", io);
    setvbuf(o, out_buf, _IOFBF, sizeof out_buf);
    setvbuf(e, NULL, _IONBF, 0);
    stdout = o;
    stderr = e;
}

/* power loss: files changed and not synced may lose any suffix, become empty
 * or vanish; decided by the io stream of the run's seed */
static void apply_powerloss(void) {
    uint64_t st = sim_cfg.seed ^ 0x9999;
    for (int i = 0; i < S->nfiles; i++) {
        struct vfile *f = &S->files[i];
        if (!f->used || f->isdir || !f->touched || f->synced || f->preexisting) continue;
        switch (splitmix(&st) % 5) {
        case 0: break;
        case 1: S->disk_used -= f->size; f->size = 0; break;
        case 2: {
            uint64_t n = f->size ? splitmix(&st) % (f->size + 1) : 0;
            S->disk_used -= f->size - n;
            f->size = n;
            break;
        }
        case 3:
            /* tail block of zeros / garbage */
            for (uint64_t k = f->size - f->size / 3; k < f->size; k++) pool[f->off + k] = (uint8_t)splitmix(&st);
            break;
        case 4: S->disk_used -= f->size; f->used = 0; break;
        }
    }
}

/* ------------------------------------------------------------------ */
/* run server                                                         */
/* ------------------------------------------------------------------ */
static void emit(int fd, const char *fmt, ...) {
    char b[4096];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    raw_write(fd, b, n);
}
static void emit_blob(int fd, const char *tag, const void *p, size_t n) {
    emit(fd, "BLOB %s %lu\n", tag, (unsigned long)n);
    const char *b = p;
    while (n) {
        long r = raw_write(fd, b, n);
        if (r <= 0) die_now(99);
        b += r;
        n -= r;
    }
    raw_write(fd, "\n", 1);
}

struct step {
    int argc;
    char *argv[SIM_MAXARGS + 1];
    int nfaults;
    struct sim_fault faults[SIM_MAXFAULTS];
    int heal;
    uint64_t heap_seed;
    int has_heap_seed;
};

static unsigned hung; /* runs of this plan stopped for want of progress */
static void child(struct step *st) {
    /* no sound run takes a second; a plan full of runs that never end is cut short */
    struct rlimit rl;
    rl.rlim_cur = hung < 2 ? 6 : hung < 6 ? 3 : 1;
    rl.rlim_max = rl.rlim_cur + 1;
    setrlimit(RLIMIT_CPU, &rl);
    struct rlimit rc = {0, 0};
    setrlimit(RLIMIT_CORE, &rc);
    rl.rlim_cur = rl.rlim_max = 64ull << 20;
    setrlimit(RLIMIT_STACK, &rl);
    sim_cfg.nfaults = st->nfaults;
    memcpy(sim_cfg.faults, st->faults, sizeof st->faults);
    if (st->has_heap_seed) sim_cfg.heap_seed = st->heap_seed;
    seed_streams();
    arena_reset();
    disk_cap = UINT64_MAX;
    for (int i = 0; i < st->nfaults; i++)
        if (st->faults[i].kind == FK_DISKFULL) disk_cap = S->disk_used + st->faults[i].arg;
    con_setup();
    uintptr_t here = (uintptr_t)__builtin_frame_address(0);
    stack_hi = here + 64;
    stack_lo = 0; /* raised to the current frame on use */
    sim_armed = 1;
    atexit(sim_heap_check);
    int rc2 = sim_target_main(st->argc, st->argv);
    exit(rc2);
}

#ifdef SIM_COV
static uint8_t *cov_map;
#define COV_SIZE (8u << 20)
void __sanitizer_cov_trace_pc(void) {
    uintptr_t a = (uintptr_t)__builtin_return_address(0) - 0x400000;
    if (cov_map && a < COV_SIZE) cov_map[a] = 1;
}
static void cov_setup(const char *self) {
    char p[600];
    snprintf(p, sizeof p, "%s.cov", self);
    int fd = syscall(SYS_openat, AT_FDCWD, p, O_CREAT | O_RDWR, 0644);
    syscall(SYS_ftruncate, fd, COV_SIZE);
    cov_map = mmap(NULL, COV_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
}
#endif

static struct shm *Sinit;
int main(int argc, char **argv) {
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
        char *envp[] = {NULL};
        personality(ADDR_NO_RANDOMIZE);
        int stuck = !(personality(0xffffffff) & ADDR_NO_RANDOMIZE);
        char self[512];
        long l = syscall(SYS_readlink, "/proc/self/exe", self, sizeof self - 1);
        if (l > 0 && !stuck) {
            self[l] = 0;
            syscall(SYS_execve, self, argv, envp);
        }
    }
    if (argc < 3) {
        raw_write(2, "usage: sim plan out\n", 20);
        return 2;
    }
    S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    pool = mmap(NULL, DISKPOOL, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED || pool == MAP_FAILED) return 98;
    prctl(PR_SET_PDEATHSIG, 9);
#ifdef SIM_COV
    cov_setup(argv[0]);
#endif
    (void)Sinit;
    int ofd = syscall(SYS_openat, AT_FDCWD, argv[2], O_CREAT | O_TRUNC | O_WRONLY, 0644);
    int pfd = syscall(SYS_openat, AT_FDCWD, argv[1], O_RDONLY);
    if (ofd < 0 || pfd < 0) return 97;
    struct stat sb;
    syscall(SYS_fstat, pfd, &sb);
    char *plan = mmap(NULL, sb.st_size + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for (off_t o = 0; o < sb.st_size;) {
        long r = syscall(SYS_read, pfd, plan + o, sb.st_size - o);
        if (r <= 0) return 96;
        o += r;
    }
    /* boot memory used while parsing is rewound for every run */
    static struct step steps[SIM_MAXSTEPS];
    int nsteps = 0;
    char rid[64] = "";
    char *p = plan, *end = plan + sb.st_size;
    sim_raw_malloc(16);
    uint8_t *boot_mark = boot_cur;
    while (p < end) {
        char *nl = memchr(p, '\n', end - p);
        if (!nl) nl = end;
        *nl = 0;
        char *line = p;
        p = nl + 1;
        char *sp = strchr(line, ' ');
        char *rest = sp ? sp + 1 : (char *)"";
        if (sp) *sp = 0;
        if (!strcmp(line, "RUN")) {
            snprintf(rid, sizeof rid, "%s", rest);
            memset(&sim_cfg, 0, sizeof sim_cfg);
            sim_cfg.max_ops = 20000000;
            nsteps = 0;
            memset(steps, 0, sizeof steps);
            dec_in_set = 0;
            dec_in_n = 0;
            boot_cur = boot_mark;
            S->nfiles = 0;
            S->pool_used = 0;
            S->disk_used = 0;
        } else if (!strcmp(line, "SET")) {
            char *v = strchr(rest, ' ');
            if (!v) continue;
            *v++ = 0;
            uint64_t x = strtoull(v, NULL, 0);
            if (!strcmp(rest, "seed")) sim_cfg.seed = x;
            else if (!strcmp(rest, "heap_seed")) sim_cfg.heap_seed = x;
            else if (!strcmp(rest, "heap_mode")) sim_cfg.heap_mode = x;
            else if (!strcmp(rest, "heap_reuse")) sim_cfg.heap_reuse = x;
            else if (!strcmp(rest, "heap_fill")) sim_cfg.heap_fill = x;
            else if (!strcmp(rest, "readchunk")) sim_cfg.readchunk = x;
            else if (!strcmp(rest, "shortwrite")) sim_cfg.shortwrite = x;
            else if (!strcmp(rest, "profile")) sim_cfg.profile = x;
            else if (!strcmp(rest, "max_ops")) sim_cfg.max_ops = x;
            else if (!strcmp(rest, "powerloss")) sim_cfg.powerloss = x;
            else if (!strcmp(rest, "dumpfiles")) sim_cfg.dumpfiles = x;
            else return 90;
        } else if (!strcmp(line, "DEC")) {
            dec_in_set = 1;
            dec_in = sim_raw_malloc(sizeof(uint32_t) * (strlen(rest) + 2));
            dec_in_n = 0;
            char *q = rest;
            while (*q) {
                char *e;
                uint32_t v = strtoul(q, &e, 10);
                if (e == q) break;
                dec_in[dec_in_n++] = v;
                q = e;
            }
        } else if (!strcmp(line, "FILE") || !strcmp(line, "ROFILE")) {
            /* FILE <len> <path> ; raw bytes follow, then newline */
            char *e;
            uint64_t n = strtoull(rest, &e, 10);
            char np[PATHLEN];
            normpath(np, e + 1);
            int i = vcreate(np, 0, line[0] == 'R' ? 0444 : 0644);
            struct vfile *f = &S->files[i];
            f->touched = 0;
            f->preexisting = 1;
            vreserve(f, n + 1);
            memcpy(pool + f->off, p, n);
            f->size = n;
            S->disk_used += n;
            p += n + 1;
        } else if (!strcmp(line, "DIR")) {
            char np[PATHLEN];
            normpath(np, rest);
            int i = vcreate(np, 1, 0755);
            S->files[i].touched = 0;
            S->files[i].preexisting = 1;
        } else if (!strcmp(line, "STEP")) {
            struct step *st = &steps[nsteps++];
            char *q = rest;
            while (*q && st->argc < SIM_MAXARGS) {
                while (*q == ' ') q++;
                if (!*q) break;
                st->argv[st->argc++] = q;
                q = strchr(q, ' ');
                if (q) *q++ = 0;
                if (!strcmp(st->argv[st->argc - 1], "%empty")) st->argv[st->argc - 1] += 6;
                if (!q) break;
            }
        } else if (!strcmp(line, "SHEAP")) {
            steps[nsteps - 1].has_heap_seed = 1;
            steps[nsteps - 1].heap_seed = strtoull(rest, NULL, 0);
        } else if (!strcmp(line, "FAULT")) {
            struct step *st = &steps[nsteps - 1];
            struct sim_fault *f = &st->faults[st->nfaults++];
            char *e;
            f->kind = strtol(rest, &e, 10);
            f->index = strtoull(e, &e, 10);
            f->arg = strtoll(e, &e, 10);
        } else if (!strcmp(line, "GO")) {
            emit(ofd, "RES %s %d\n", rid, nsteps);
            for (int s = 0; s < nsteps; s++) {
                S->trace_len = S->out_len = S->err_len = S->ndec = 0;
                S->n_alloc = S->n_fs = S->n_con = S->n_ops = S->n_events = 0;
                memset((void *)S->fired, 0, sizeof S->fired);
                S->nprof_a = S->nprof_f = 0;
                S->simerr = 0;
                for (int i = 0; i < S->nfiles; i++) S->files[i].touched = 0;
                struct timeval t0, t1;
                gettimeofday(&t0, NULL);
                pid_t pid = fork();
                if (pid == 0) child(&steps[s]);
                int status = 0;
                syscall(SYS_wait4, pid, &status, 0, NULL);
                gettimeofday(&t1, NULL);
                int code = WIFEXITED(status) ? WEXITSTATUS(status) : -WTERMSIG(status);
                if (code == -SIGXCPU) hung++;
                emit(ofd, "STEPRES code=%d alloc=%lu fs=%lu con=%lu ops=%lu events=%lu ndec=%u simerr=%u us=%ld\n", code,
                     (unsigned long)S->n_alloc, (unsigned long)S->n_fs, (unsigned long)S->n_con, (unsigned long)S->n_ops,
                     (unsigned long)S->n_events, S->ndec, S->simerr,
                     (long)((t1.tv_sec - t0.tv_sec) * 1000000 + t1.tv_usec - t0.tv_usec));
                emit(ofd, "FIRED");
                for (int i = 0; i < FK_NKINDS; i++) emit(ofd, " %u", S->fired[i]);
                emit(ofd, "\n");
                emit_blob(ofd, "out", S->out, S->out_len);
                emit_blob(ofd, "err", S->err, S->err_len);
                emit_blob(ofd, "trace", S->trace, S->trace_len);
                if (S->ndec) emit_blob(ofd, "dec", S->dec_v, S->ndec * 4ul);
                if (sim_cfg.profile) {
                    emit_blob(ofd, "prof_a", S->prof_a, S->nprof_a * 4ul);
                    emit_blob(ofd, "prof_f", S->prof_f, S->nprof_f * 4ul);
                    emit_blob(ofd, "prof_k", S->prof_k, S->nprof_f);
                }
                for (int i = 0; i < S->nfiles; i++) {
                    struct vfile *f = &S->files[i];
                    if (f->used != 1) continue;
                    emit(ofd, "VF %d %d %lu %016lx %s\n", f->isdir, f->touched, (unsigned long)f->size,
                         (unsigned long)fnv(pool + f->off, f->isdir ? 0 : f->size), f->path);
                    if (!f->isdir && (sim_cfg.dumpfiles == 1 || (sim_cfg.dumpfiles == 2 && f->touched)))
                        emit_blob(ofd, "file", pool + f->off, f->size);
                }
                emit(ofd, "ENDSTEP\n");
                if (code == SIM_EXIT_CRASH && sim_cfg.powerloss) apply_powerloss();
            }
            emit(ofd, "ENDRES\n");
        } else if (*line) {
            return 91;
        }
    }
    emit(ofd, "DONE\n");
    die_now(0);
}

/* Internal interface between the engine (sim.c), the search (mc.c) and the
 * memory back ends (be_asan.c, be_tsan.c). */
#ifndef ENG_H
#define ENG_H
#include "sim.h"
#include <pthread.h>

#define ARENA_BASE  0x200000000000ull
#define HEAP_SIZE   (256ull << 20)
#define STACK_SIZE  (512ull << 10)
#define MAX_THR     40
#define STACKS_BASE (ARENA_BASE + HEAP_SIZE + (1 << 20))
#define STACKS_SIZE (MAX_THR * STACK_SIZE)

#define MAXD        24000          /* choices in one execution */
#define NSLOT       512            /* queued work items */
#define MAXW        64

typedef struct { uint16_t pick, n, lim; uint16_t kind; } pent_t;

typedef struct {
    int base, len;
    pent_t p[MAXD];
} item_t;

typedef struct {
    volatile uint64_t execs, nodes, edges, points, count, cut, pruned;
    volatile uint64_t beat;
    volatile int pid, in_exec;
    volatile int failed;           /* message is set */
    char sig[512];
    char msg[8192];
    int  depth;                    /* choices made in the current execution */
    int  plen;                     /* valid entries of path */
    item_t it;
} wrk_t;

#define NOUT (1 << 18)
#define NRACE 1500
typedef struct {
    volatile int lock;
    volatile int stop, timed_out;
    volatile int waiting, nworkers;
    volatile int qhead, qtail;     /* ring */
    volatile uint64_t distinct;
    volatile uint64_t out[NOUT];
    volatile int nsamples;
    char samples[16][600];
    volatile int nknown;
    struct { char sig[512]; volatile uint64_t hits; } known[64];
    volatile int nrace, race_new, race_n0; /* race_n0: those that are scheduling points in this run */
    volatile uint64_t race_pc[NRACE];
    volatile uint64_t max_depth;
    wrk_t w[MAXW];
    item_t q[NSLOT];
} glob_t;

extern glob_t *G;                  /* shared, never restored */
extern wrk_t *W;                   /* this worker */

int  eng_choose(int n, const char *label, int kind);
void eng_execution_over(int how) __attribute__((noreturn)); /* 0 done, 1 pruned, 2 known finding */
void eng_run_scenario(void);       /* in a worker: explores until no work is left */

/* sim side */
void sim_boot_world(scenario_fn fn, long arg);
void sim_engine_enter(void);       /* switch from the engine to the world, returns at the end of the execution */
void sim_engine_leave(void) __attribute__((noreturn));
bool sim_snapshot_taken(void);
void sim_snapshot(void);
void sim_restore(void);
void sim_start_execution(void);
const char *sim_describe_addr(uint64_t a, char *buf, size_t n);

/* memory back end */
enum { PK_RED = 0xfa, PK_FREED = 0xfd, PK_OUT = 0xf7 };
void be_init(void);
void be_poison(void *p, size_t n, int kind);
void be_free(void *p, size_t n, void *pc);             /* the end of a block counts as an access */
void be_unpoison(void *p, size_t n);
void be_check(const void *p, size_t n, bool write, const char *what);
void be_snapshot(void *heap, size_t heap_used, int nst, void **sp, void **top);
void be_restore(size_t heap_used_now);
void be_switch(int to_thr, void *bottom, size_t size); /* before switching */
void be_switched(void);                               /* after */
void be_thread_new(int tid, int parent);
void be_acquire(void *obj);
void be_release(void *obj);
void be_new_execution(void);
int  sim_cur(void);
void sim_spin(void);
void sim_progress(void);

extern void *host_alloc(size_t n);
void cp_bytes(void *d, const void *s, size_t n);
void set_bytes(void *d, int c, size_t n);
#endif

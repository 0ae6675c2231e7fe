/* The simulated world: threads as fibers under a controlled scheduler, a
 * simulated kernel, a private heap, and snapshot/restore of all of it. */
#define _GNU_SOURCE
#include "eng.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>
#include <poll.h>
#include <regex.h>
#include <sys/mman.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include <sys/uio.h>
#include <sys/time.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <libgen.h>

sim_cfg_t sim_cfg;
bool sim_faults_on, sim_sched_on;
const char *harness_rule __attribute__((weak));

/* ================================================================= heap */
typedef struct {
    uint32_t magic;      /* LIVE, FREED */
    uint32_t seq;
    uint64_t size;
    uint32_t kind;       /* 0 server, 1 simulator/harness */
    uint32_t tid;
    void *ra;            /* caller */
} blk_t;                 /* 32 bytes */
#define B_LIVE 0xB10C11FEu
#define B_FREED 0xB10CDEADu
#define HEAP ((char *)ARENA_BASE)

static size_t heap_used;             /* restored */
static struct { size_t poisoned; } *hs; /* not restored */
static uint64_t live_blocks, live_bytes;
static uint32_t alloc_seq;
static uint64_t malloc_count;
long sim_fail_malloc_at;

static const char *sym(void *pc, char *b, size_t n);
static void *heap_alloc(size_t n, int kind, void *ra) {
    if (n > HEAP_SIZE / 2) return NULL;
    size_t need = sizeof(blk_t) + ((n + 15) & ~15ull) + 32;
    if (heap_used + need > HEAP_SIZE - 4096) {
        if (kind) { fprintf(stderr, "ENGINE ERROR: simulated heap exhausted\n"); _exit(2); }
        return NULL;
    }
    while (hs->poisoned < heap_used + need + (1 << 20) && hs->poisoned < HEAP_SIZE) {
        be_poison(HEAP + hs->poisoned, 1 << 20, PK_RED);
        hs->poisoned += 1 << 20;
    }
    blk_t *b = (blk_t *)(HEAP + heap_used);
    heap_used += need;
    b->magic = B_LIVE; b->seq = ++alloc_seq; b->size = n; b->kind = kind; b->tid = sim_cur(); b->ra = ra;
    void *p = b + 1;
    /* zlib is not instrumented: what it writes behind a block is noticed when the block is freed */
    for (volatile char *q = (char *)p + n; q < (char *)b + need; q++) *q = (char)0xca;
    be_unpoison(p, n);
    if (!kind) { live_blocks++; live_bytes += n; }
    return p;
}
static bool in_heap(const void *p) { return (char *)p >= HEAP && (char *)p < HEAP + HEAP_SIZE; }
static void heap_free(void *p, void *ra) {
    blk_t *b = (blk_t *)p - 1;
    if (b->magic == B_LIVE && !b->kind) be_free(p, b->size, ra);
    if (b->magic != B_LIVE) {
        char d[512];
        sim_describe_addr((uint64_t)p, d, sizeof d);
        mc_fail(b->magic == B_FREED ? "memory:double-free" : "memory:invalid-free", "free of %p, called from %p: %s\n%s", p, ra, d, sim_threads_text());
    }
    for (char *q = (char *)p + b->size, *e = (char *)p + ((b->size + 15) & ~15ull) + 32; q < e; q++) if (*q != (char)0xca) {
        char s[128];
        mc_fail("memory:overflow", "the bytes behind a block of %lu bytes, allocated by %s, are changed", (unsigned long)b->size, sym(b->ra, s, sizeof s));
    }
    b->magic = B_FREED;
    if (!b->kind) { live_blocks--; live_bytes -= b->size; }
    be_poison(p, (b->size + 7) & ~7ull, PK_FREED);
    b->ra = ra;
    b->tid = sim_cur();
}

void *sim_xalloc(size_t n) { void *p = heap_alloc(n, 1, __builtin_return_address(0)); return p; }
void sim_xfree(void *p) { if (p) heap_free(p, __builtin_return_address(0)); }
sim_mem_t sim_live(void) { return (sim_mem_t){ live_blocks, live_bytes }; }
uint64_t sim_alloc_seq(void) { return alloc_seq; }
uint64_t sim_malloc_count(void) { return malloc_count; }
void sim_heap_check(const void *p, size_t n, bool w, const char *what) { be_check(p, n, w, what); }

static const char *sym(void *pc, char *b, size_t n);
const char *sim_live_text(uint64_t since) {
    static char t[3000];
    size_t o = 0;
    t[0] = 0;
    for (size_t a = 0; a < heap_used && o + 200 < sizeof t;) {
        blk_t *b = (blk_t *)(HEAP + a);
        if (b->magic == B_LIVE && !b->kind && b->seq > since) {
            char s[128];
            o += snprintf(t + o, sizeof t - o, "  %lu bytes, allocation %u by %s\n", (unsigned long)b->size, b->seq, sym(b->ra, s, sizeof s));
        }
        a += sizeof(blk_t) + ((b->size + 15) & ~15ull) + 32;
    }
    return t;
}
void sim_live_dump(uint64_t since) { fputs(sim_live_text(since), stderr); }

const char *sim_describe_addr(uint64_t ad, char *buf, size_t n) {
    if (ad >= STACKS_BASE && ad < STACKS_BASE + STACKS_SIZE) {
        snprintf(buf, n, "address on the stack of thread %d", (int)((ad - STACKS_BASE) / STACK_SIZE));
        return buf;
    }
    if (!in_heap((void *)ad)) { snprintf(buf, n, "address outside the heap"); return buf; }
    size_t off = ad - ARENA_BASE;
    for (size_t a = 0; a < heap_used;) {
        blk_t *b = (blk_t *)(HEAP + a);
        size_t next = a + sizeof(blk_t) + ((b->size + 15) & ~15ull) + 32;
        if (off < next) {
            long d = (long)off - (long)(a + sizeof(blk_t));
            char s[128];
            snprintf(buf, n, "offset %ld of a block of %lu bytes, %s, %s by %s (thread %u), allocation %u", d, (unsigned long)b->size,
                b->magic == B_LIVE ? "live" : "FREED", b->magic == B_LIVE ? "allocated" : "freed", sym(b->ra, s, sizeof s), b->tid, b->seq);
            return buf;
        }
        a = next;
    }
    snprintf(buf, n, "unallocated heap");
    return buf;
}

#define RA __builtin_return_address(0)
static bool oom(void) {
    malloc_count++;
    if (sim_fail_malloc_at > 0 && --sim_fail_malloc_at == 0) { sim_trace("allocation fails"); return true; }
    if (sim_cfg.f_malloc && mc_fault(2, "malloc")) { sim_trace("allocation fails"); return true; }
    return false;
}
void *__wrap_malloc(size_t n) {
    if (oom()) { errno = ENOMEM; return NULL; }
    void *p = heap_alloc(n, 0, RA);
    if (!p) { errno = ENOMEM; return NULL; }
    set_bytes(p, 0xa5, n);
    return p;
}
void *__wrap_calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n) || oom()) { errno = ENOMEM; return NULL; }
    void *p = heap_alloc(n, 0, RA);
    if (!p) { errno = ENOMEM; return NULL; }
    set_bytes(p, 0, n);
    return p;
}
void __real_free(void *);
void __wrap_free(void *p) {
    if (!p) return;
    if (!in_heap(p)) { 
        if ((uint64_t)p < 65536 || ((uint64_t)p >= STACKS_BASE && (uint64_t)p < STACKS_BASE + STACKS_SIZE)) mc_fail("memory:invalid-free", "free of %p, which was never allocated", p);
        __real_free(p); return; }
    heap_free(p, RA);
}
void *__real_realloc(void *, size_t);
void *__wrap_realloc(void *p, size_t n) {
    if (!p) {
        if (oom()) { errno = ENOMEM; return NULL; }
        void *q = heap_alloc(n, 0, RA);
        if (q) set_bytes(q, 0xa5, n); else errno = ENOMEM;
        return q;
    }
    if (!in_heap(p)) return __real_realloc(p, n);
    if (n == 0) { heap_free(p, RA); return NULL; }
    blk_t *b = (blk_t *)p - 1;
    if (b->magic != B_LIVE) heap_free(p, RA); /* reports */
    if (oom()) { errno = ENOMEM; return NULL; }
    void *q = heap_alloc(n, 0, RA);
    if (!q) { errno = ENOMEM; return NULL; }
    size_t m = b->size < n ? b->size : n;
    cp_bytes(q, p, m);
    if (n > m) set_bytes((char *)q + m, 0xa5, n - m);
    heap_free(p, RA);
    return q;
}
char *__wrap_strdup(const char *s) {
    size_t n = strlen(s) + 1;
    be_check(s, n, false, "strdup");
    if (oom()) { errno = ENOMEM; return NULL; }
    char *p = heap_alloc(n, 0, RA);
    if (p) cp_bytes(p, s, n);
    return p;
}
char *__wrap_strndup(const char *s, size_t m) {
    size_t n = strnlen(s, m);
    if (oom()) { errno = ENOMEM; return NULL; }
    char *p = heap_alloc(n + 1, 0, RA);
    if (p) { cp_bytes(p, s, n); p[n] = 0; }
    return p;
}

/* memory of libraries that are not the subject: tracked, never refused */
void *sim_alloc_lib(size_t n) { void *p = heap_alloc(n, 0, RA); if (p) set_bytes(p, 0, n); return p; }

/* =============================================================== threads */
enum { T_FREE, T_RUN, T_BLOCKED, T_DONE };
enum { K_NONE, K_MUTEX, K_RD, K_WR, K_COND, K_JOIN, K_EPOLL, K_POLL, K_READ, K_WRITE, K_SLEEP, K_QUIESCE, K_UNTIL, K_ACCEPT, K_EVER };
static const char *kname[] = { "-", "mutex", "rwlock (read)", "rwlock (write)", "condition variable", "join", "epoll_wait", "poll", "read", "write", "sleep", "quiesce", "wait_until", "accept", "nothing" };
typedef struct {
    void *sp, *top;
    int state, wk;
    void *wobj; int wfd; int wn;
    int64_t deadline;            /* -1 none */
    bool signaled, timed_out, harness, joined, detached;
    const char *name;
    void *(*fn)(void *); void (*hfn)(void *);
    void *arg, *ret;
    bool (*until)(void *);
    int err;
    uint64_t sleeps;
} thr_t;
static thr_t T[MAX_THR];
static int nthr, cur = -1;
static int64_t now_ns;
static void *eng_sp;
static int sched_used, fault_used;
static long steps, sleeps;
static struct { bool taken; size_t heap_used; uint8_t *heap, *glob; int nst; void *sp[MAX_THR], *top[MAX_THR]; uint8_t *stk[MAX_THR]; size_t stk_n[MAX_THR]; } *snap; /* not restored */
static char *glob_lo, *glob_hi;
extern char __data_start[], _end[];
static int snap_request;
static void *idle_conds[16]; static int nidle;
static unsigned last_time_seq;

int sim_cur(void) { return cur; }

__asm__(
".text\n.globl sim_switch\n.type sim_switch,@function\nsim_switch:\n"
" pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
" movq %rsp,(%rdi)\n movq %rsi,%rsp\n"
" popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n.size sim_switch,.-sim_switch\n");
void sim_switch(void **save, void *to);

static char *host_bottom; static size_t host_size;

static void to_engine(void) {
    be_switch(-1, host_bottom, host_size);
    sim_switch(cur >= 0 ? &T[cur].sp : &eng_sp, eng_sp);
    be_switched();
}
void sim_engine_leave(void) {
    static void *dummy;
    be_switch(-1, host_bottom, host_size);
    sim_switch(&dummy, eng_sp);
    __builtin_unreachable();
}

static void switch_to(int t) {
    if (t == cur) return;
    int from = cur;
    T[from].err = errno;
    cur = t;
    be_switch(t, (char *)T[t].top - STACK_SIZE + 4096, STACK_SIZE - 4096);
    sim_switch(&T[from].sp, T[t].sp);
    be_switched();
    errno = T[cur].err;
}

static void thread_end(void *ret);
static void thread_main(void) {
    be_switched();
    errno = 0;
    thr_t *t = &T[cur];
    void *r = NULL;
    if (t->fn) r = t->fn(t->arg); else t->hfn(t->arg);
    thread_end(r);
}

static int new_thread(const char *name, void *(*fn)(void *), void (*hfn)(void *), void *arg) {
    int i = nthr++;
    if (i >= MAX_THR) { fprintf(stderr, "ENGINE ERROR: too many threads\n"); _exit(2); }
    thr_t *t = &T[i];
    memset(t, 0, sizeof *t);
    t->state = T_RUN; t->deadline = -1; t->fn = fn; t->hfn = hfn; t->arg = arg; t->name = name; t->harness = fn == NULL;
    t->top = (void *)(STACKS_BASE + (uint64_t)(i + 1) * STACK_SIZE);
    be_unpoison((char *)t->top - STACK_SIZE + 4096, STACK_SIZE - 4096);
    uint64_t *s = (uint64_t *)t->top - 9; /* as after a call: 8 modulo 16 */
    s[0] = 0;
    *--s = (uint64_t)thread_main;
    s -= 6;
    memset(s, 0, 48);
    t->sp = s;
    be_thread_new(i, cur);
    return i;
}

static bool fd_readable(int fd);
static bool fd_writable(int fd);
static bool ep_any(int fd);
static bool poll_any(struct pollfd *p, int n);
typedef struct { uint32_t magic; int owner; int cnt; int type; } smutex;   /* owner: tid+1 */
typedef struct { uint32_t magic; int writer; int readers; int pad; } srw;
typedef struct { uint32_t magic; int pad[3]; } scond;
#define M_DESTROYED 0xDE57u

static bool runnable(int i) {
    thr_t *t = &T[i];
    if (t->state == T_RUN) return true;
    if (t->state != T_BLOCKED) return false;
    switch (t->wk) {
        case K_MUTEX: return ((smutex *)t->wobj)->owner == 0;
        case K_RD: return ((srw *)t->wobj)->writer == 0;
        case K_WR: return ((srw *)t->wobj)->writer == 0 && ((srw *)t->wobj)->readers == 0;
        case K_COND: if (t->signaled) return true; break;
        case K_JOIN: return T[t->wfd].state == T_DONE;
        case K_EPOLL: if (ep_any(t->wfd)) return true; break;
        case K_POLL: if (poll_any(t->wobj, t->wn)) return true; break;
        case K_READ: case K_ACCEPT: return fd_readable(t->wfd);
        case K_WRITE: return fd_writable(t->wfd);
        case K_QUIESCE: return t->signaled;
        case K_UNTIL: return t->until(t->wobj);
        default: break;
    }
    if (t->deadline >= 0 && t->deadline <= now_ns) { t->timed_out = true; return true; }
    return false;
}

const char *sim_threads_text(void) {
    static char b[6000];
    size_t o = 0;
    for (int i = 0; i < nthr && o + 200 < sizeof b; i++) {
        thr_t *t = &T[i];
        if (t->state == T_DONE || t->state == T_FREE) continue;
        o += snprintf(b + o, sizeof b - o, "  thread %d (%s)%s: %s %s %p fd %d\n", i, t->name, i == cur ? " *" : "", t->state == T_RUN ? "running" : "waiting for", t->state == T_RUN ? "" : kname[t->wk], t->wobj, t->wfd);
        if (t->state == T_BLOCKED && t->wk == K_MUTEX && o + 200 < sizeof b) o += snprintf(b + o, sizeof b - o, "     held by thread %d\n", ((smutex *)t->wobj)->owner - 1);
        if (t->state == T_BLOCKED && (t->wk == K_RD || t->wk == K_WR) && o + 200 < sizeof b) o += snprintf(b + o, sizeof b - o, "     writer: thread %d, readers: %d\n", ((srw *)t->wobj)->writer - 1, ((srw *)t->wobj)->readers);
    }
    return b;
}
void sim_dump(void) { fputs(sim_threads_text(), stderr); }

static int eagain_release(void);

/* nothing can run: lets the environment move on. */
static void idle(void) {
    if (eagain_release()) return;
    int64_t best = -1;
    for (int i = 0; i < nthr; i++)
        if (T[i].state == T_BLOCKED && T[i].wk == K_SLEEP && (best < 0 || T[i].deadline < best)) best = T[i].deadline;
    if (best >= 0) {
        if (++sleeps > sim_cfg.max_sleeps)
            mc_fail("livelock", "threads wait by polling for something that never happens\n%s", sim_threads_text());
        if (best > now_ns) now_ns = best;
        return;
    }
    for (int i = 0; i < nthr; i++)
        if (T[i].state == T_BLOCKED && T[i].wk == K_QUIESCE) {
            if (!sim_cfg.no_idle_check && nidle)
                for (int j = 0; j < nthr; j++) {
                    thr_t *t = &T[j];
                    if (t->harness || t->state != T_BLOCKED) continue;
                    bool bad = t->wk == K_MUTEX || t->wk == K_RD || t->wk == K_WR || t->wk == K_READ || t->wk == K_WRITE || t->wk == K_ACCEPT;
                    if (t->wk == K_COND) {
                        bad = true;
                        for (int k = 0; k < nidle; k++) if (idle_conds[k] == t->wobj) bad = false;
                    }
                    if (bad) mc_fail("deadlock", "nothing can happen any more, but thread %d (%s) waits for a %s\n%s", j, t->name, kname[t->wk], sim_threads_text());
                }
            T[i].signaled = true;
            sleeps = 0;
            return;
        }
    if (sim_cfg.auto_time) {
        best = -1;
        for (int i = 0; i < nthr; i++)
            if (T[i].state == T_BLOCKED && T[i].deadline >= 0 && (best < 0 || T[i].deadline < best)) best = T[i].deadline;
        if (best >= 0) {
            if (++sleeps > sim_cfg.max_sleeps) mc_fail("livelock", "only time-outs happen\n%s", sim_threads_text());
            if (best > now_ns) now_ns = best;
            return;
        }
    }
    mc_fail("deadlock", "no thread can run\n%s", sim_threads_text());
}

static int sched_pick(const int *cand, int n, bool blocking) {
    if (n == 1 || !sim_cfg.mc || !sim_sched_on) return cand[0];
    int k;
    if (sim_cfg.delay_bound) {
        int m = sim_cfg.sched_budget - sched_used + 1;
        if (m > n) m = n;
        k = eng_choose(m, "schedule", 1);
        sched_used += k;
    } else if (blocking) {
        k = eng_choose(n, "schedule (blocked)", 1);
    } else {
        if (sched_used >= sim_cfg.sched_budget) return cand[0];
        k = eng_choose(n, "schedule", 1);
        if (k) sched_used++;
    }
    return cand[k];
}

static void step(void) {
    W->points++;
    if (++steps > sim_cfg.max_steps) mc_fail("livelock", "an execution does not come to rest within %ld steps\n%s", sim_cfg.max_steps, sim_threads_text());
}

/* the current thread cannot go on */
static void schedule(void) {
    int cand[MAX_THR], n;
    for (;;) {
        n = 0;
        for (int k = 1; k <= nthr; k++) {
            int i = (cur + k) % nthr;
            if (runnable(i)) cand[n++] = i;
        }
        if (n) break;
        idle();
    }
    step();
    int t = sched_pick(cand, n, true);
    if (T[t].state == T_BLOCKED) { T[t].state = T_RUN; }
    switch_to(t);
}

static bool block(int kind, void *obj, int fd, int64_t deadline) {
    thr_t *t = &T[cur];
    t->state = T_BLOCKED; t->wk = kind; t->wobj = obj; t->wfd = fd; t->deadline = deadline; t->timed_out = false; t->signaled = false;
    schedule();
    t->wk = K_NONE;
    t->deadline = -1;
    return !t->timed_out;
}

void sim_point(void) {
    if (!sim_cfg.mc || !sim_sched_on || cur < 0) return;
    step();
    if (sched_used >= sim_cfg.sched_budget) return;
    int cand[MAX_THR], n = 0;
    cand[n++] = cur;
    for (int k = 1; k < nthr; k++) {
        int i = (cur + k) % nthr;
        if (runnable(i)) cand[n++] = i;
    }
    if (n == 1) return;
    int t = sched_pick(cand, n, false);
    if (t != cur) {
        if (T[t].state == T_BLOCKED) T[t].state = T_RUN;
        if (sim_verbose) sim_trace("preempted by thread %d (%s)", t, T[t].name);
        switch_to(t);
    }
}
static void sp_sync(void) { if (sim_cfg.sp_sync) sim_point(); }
extern int sim_trylocks; /* does the code try to get locks? set by build.py */
static void sp_sys(void) { if (sim_cfg.sp_sys) sim_point(); }
void sim_tls_point(void) { sp_sys(); }
int sim_self(void) { return cur; }
/* gives the processor to others (a thread that spins) */
void sim_yield(void) {
    if (cur < 0) return;
    step();
    int cand[MAX_THR], n = 0;
    for (int k = 1; k < nthr; k++) {
        int i = (cur + k) % nthr;
        if (runnable(i)) cand[n++] = i;
    }
    if (n == 0) {
        /* spinning alone: only time can help */
        now_ns += 1000;
        return;
    }
    int t = sched_pick(cand, n, true);
    if (T[t].state == T_BLOCKED) T[t].state = T_RUN;
    switch_to(t);
}

/* The thread waits in a loop for a change of memory: threads that do not are
 * preferred, so that loops that wait for one another come to an end. */
static bool spinning[MAX_THR];
void sim_progress(void) { set_bytes(spinning, 0, sizeof spinning); }
void sim_spin(void) {
    if (cur < 0) return;
    step();
    int cand[MAX_THR], n = 0;
    spinning[cur] = true;
    for (int round = 0; round < 2 && !n; round++) {
        if (round) sim_progress();
        for (int k = 1; k < nthr; k++) {
            int i = (cur + k) % nthr;
            if (!spinning[i] && runnable(i)) cand[n++] = i;
        }
    }
    if (n == 0) { now_ns += 1000; return; }
    int t = sched_pick(cand, n, true);
    if (T[t].state == T_BLOCKED) T[t].state = T_RUN;
    switch_to(t);
}

static void thread_end(void *ret) {
    thr_t *t = &T[cur];
    t->ret = ret;
    t->state = T_DONE;
    be_release(t);
    if (cur == 0) { /* the scenario is over */
        eng_execution_over(0);
    }
    schedule();
    __builtin_unreachable();
}

int mc_fault(int n, const char *label) {
    if (!sim_faults_on || fault_used >= sim_cfg.fault_budget) return 0;
    int k = eng_choose(n, label, 2);
    if (k) fault_used++;
    return k;
}

/* -------------------------------------------------------- harness threads */
int sim_spawn(const char *name, void (*fn)(void *), void *arg) { return new_thread(name, NULL, fn, arg); }
void sim_join(int tid) { if (T[tid].state != T_DONE) block(K_JOIN, NULL, tid, -1); be_acquire(&T[tid]); }
void sim_quiesce(void) { block(K_QUIESCE, NULL, -1, -1); }
void sim_wait_until(bool (*c)(void *), void *arg) {
    if (c(arg)) return;
    T[cur].until = c;
    block(K_UNTIL, arg, -1, -1);
}
int64_t sim_now_ms(void) { return now_ns / 1000000; }
void sim_advance(long ms) {
    int64_t target = now_ns + (int64_t)ms * 1000000;
    for (;;) {
        sim_quiesce();
        int64_t best = -1;
        for (int i = 0; i < nthr; i++)
            if (T[i].state == T_BLOCKED && T[i].deadline >= 0 && (best < 0 || T[i].deadline < best)) best = T[i].deadline;
        if (best < 0 || best > target) break;
        if (best > now_ns) now_ns = best;
        if (++sleeps > sim_cfg.max_sleeps) mc_fail("livelock", "time-outs never end\n%s", sim_threads_text());
    }
    if (now_ns < target) now_ns = target;
    sim_quiesce();
}
int sim_live_threads(void) {
    int n = 0;
    for (int i = 0; i < nthr; i++) if (!T[i].harness && T[i].state != T_DONE) n++;
    return n;
}
bool sim_joining(int tid) { return T[tid].state == T_BLOCKED && T[tid].wk == K_JOIN; }
void sim_mark_idle(void) {
    nidle = 0;
    for (int i = 0; i < nthr; i++)
        if (T[i].state == T_BLOCKED && T[i].wk == K_COND && nidle < 16) idle_conds[nidle++] = T[i].wobj;
    if (nidle < 16 && !nidle) idle_conds[nidle++] = &T[0];
}

void sim_trace(const char *fmt, ...) {
    if (!sim_verbose) return;
    va_list ap;
    char b[2000];
    int o = snprintf(b, sizeof b, "[%6ld %lldms t%d %s] ", steps, (long long)(now_ns / 1000000), cur, cur >= 0 ? T[cur].name : "engine");
    va_start(ap, fmt); vsnprintf(b + o, sizeof b - o, fmt, ap); va_end(ap);
    fprintf(stderr, "%s\n", b);
}

typedef struct { char *pat; int fl; regex_t re; } rx_t;
static struct { int n; rx_t r[4096]; } *rxs; /* not restored */
/* ------------------------------------------------------------ world/engine */
static scenario_fn scen_fn; static long scen_arg;
static void scen_main(void *a) { (void)a; scen_fn(scen_arg); }

void sim_boot_world(scenario_fn fn, long arg) {
    pthread_attr_t at;
    void *sb; size_t ss;
    pthread_getattr_np(pthread_self(), &at);
    pthread_attr_getstack(&at, &sb, &ss);
    host_bottom = sb; host_size = ss;
    void *p = mmap((void *)ARENA_BASE, HEAP_SIZE + (1 << 20) + STACKS_SIZE, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)ARENA_BASE) { perror("arena"); _exit(2); }
    for (int i = 0; i < MAX_THR; i++) mprotect((void *)(STACKS_BASE + i * STACK_SIZE), 4096, PROT_NONE);
    hs = host_alloc(sizeof *hs);
    if (!rxs) rxs = host_alloc(sizeof *rxs);
    snap = host_alloc(sizeof *snap);
    glob_lo = (char *)(((uint64_t)__data_start + 7) & ~7ull); glob_hi = _end;
    now_ns = 1000ll * 1000000000;
    scen_fn = fn; scen_arg = arg;
    cur = -1;
    new_thread("scenario", NULL, scen_main, NULL);
}

void sim_engine_enter(void) {
    /* (re)start: the first time at the beginning, later from the snapshot */
    if (!snap->taken) {
        /* run until the checkpoint is asked for */
        cur = 0;
        be_switch(0, (char *)T[0].top - STACK_SIZE + 4096, STACK_SIZE - 4096);
        sim_switch(&eng_sp, T[0].sp);
        be_switched();
        if (!snap_request) return; /* the scenario has no checkpoint: only one execution can be made */
        snap_request = 0;
        sim_snapshot();
    }
    be_new_execution();
    be_switch(cur, (char *)T[cur].top - STACK_SIZE + 4096, STACK_SIZE - 4096);
    sim_switch(&eng_sp, T[cur].sp);
    be_switched();
}

void mc_checkpoint(void) {
    if (W->depth) { fprintf(stderr, "ENGINE ERROR: choice before the checkpoint\n"); _exit(2); }
    sim_quiesce();
    snap_request = 1;
    to_engine();
    errno = 0;
}

void sim_snapshot(void) {
    snap->heap_used = heap_used;
    snap->heap = host_alloc(heap_used + 4096);
    cp_bytes(snap->heap, HEAP, heap_used);
    snap->nst = 0;
    for (int i = 0; i < nthr; i++) {
        if (T[i].state == T_DONE) continue;
        int k = snap->nst++;
        snap->sp[k] = (void *)((uint64_t)T[i].sp & ~63ull); snap->top[k] = T[i].top;
        snap->stk_n[k] = (char *)snap->top[k] - (char *)snap->sp[k];
        snap->stk[k] = host_alloc(snap->stk_n[k]);
        cp_bytes(snap->stk[k], snap->sp[k], snap->stk_n[k]);
    }
    snap->taken = true;
    steps = 0; sleeps = 0; sched_used = 0; fault_used = 0;
    be_snapshot(HEAP, heap_used, snap->nst, snap->sp, snap->top);
    snap->glob = host_alloc(glob_hi - glob_lo + 4096);
    cp_bytes(snap->glob, glob_lo, glob_hi - glob_lo);
}
void sim_restore(void) {
    if (!snap->taken) { fprintf(stderr, "ENGINE ERROR: scenario with choices but no checkpoint\n"); _exit(2); }
    void *keep = eng_sp;
    size_t used = heap_used;
    cp_bytes(glob_lo, snap->glob, glob_hi - glob_lo);
    eng_sp = keep;
    cp_bytes(HEAP, snap->heap, snap->heap_used);
    for (int k = 0; k < snap->nst; k++) cp_bytes(snap->sp[k], snap->stk[k], snap->stk_n[k]);
    be_restore(used);
}

/* ============================================================ pthreads */
static void chk_sync(void *p, uint32_t magic, const char *what) {
    be_check(p, 16, true, what);
    if (magic == M_DESTROYED) mc_fail("sync:destroyed", "%s on a destroyed object %p\n%s", what, p, sim_threads_text());
}
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
    be_check(m, sizeof *m, true, "pthread_mutex_init");
    memset(m, 0, sizeof *m);
    int ty = 0;
    if (a) pthread_mutexattr_gettype(a, &ty);
    ((smutex *)m)->type = ty;
    return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *mm) {
    smutex *m = (smutex *)mm;
    chk_sync(m, m->magic, "pthread_mutex_destroy");
    if (m->owner) return EBUSY;
    m->magic = M_DESTROYED;
    return 0;
}
static int mutex_lock(smutex *m, bool try) {
    chk_sync(m, m->magic, "pthread_mutex_lock");
    if (cur < 0) return 0;
    sp_sync();
    if (m->owner == cur + 1) {
        if (m->type == PTHREAD_MUTEX_RECURSIVE) { m->cnt++; return 0; }
        if (m->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        if (try) return EBUSY;
    }
    while (m->owner) {
        if (try) return EBUSY;
        block(K_MUTEX, m, -1, -1);
        chk_sync(m, m->magic, "pthread_mutex_lock");
    }
    m->owner = cur + 1;
    be_acquire(m);
    return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { return mutex_lock((smutex *)m, false); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { return mutex_lock((smutex *)m, true); }
static int mutex_unlock(smutex *m) {
    chk_sync(m, m->magic, "pthread_mutex_unlock");
    if (cur < 0) return 0;
    if (m->type != 0 && m->owner != cur + 1) return EPERM;
    if (m->cnt) { m->cnt--; return 0; }
    if (sim_trylocks) sp_sync();
    be_release(m);
    m->owner = 0;
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { return mutex_unlock((smutex *)m); }

int __wrap_pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *a) { (void)a; be_check(l, sizeof *l, true, "pthread_rwlock_init"); memset(l, 0, sizeof *l); return 0; }
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t *ll) { srw *l = (srw *)ll; chk_sync(l, l->magic, "pthread_rwlock_destroy"); l->magic = M_DESTROYED; return 0; }
static int rw(srw *l, bool wr, bool try) {
    chk_sync(l, l->magic, wr ? "pthread_rwlock_wrlock" : "pthread_rwlock_rdlock");
    if (cur < 0) return 0;
    sp_sync();
    if (l->writer == cur + 1) return try ? EBUSY : EDEADLK;
    while (l->writer || (wr && l->readers)) {
        if (try) return EBUSY;
        block(wr ? K_WR : K_RD, l, -1, -1);
        chk_sync(l, l->magic, "pthread_rwlock");
    }
    if (wr) l->writer = cur + 1; else l->readers++;
    be_acquire(l);
    if (wr) be_acquire((char *)l + 1); /* what readers did happens before what a writer does, not before what other readers do */
    return 0;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *l) { return rw((srw *)l, false, false); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *l) { return rw((srw *)l, true, false); }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { return rw((srw *)l, false, true); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *l) { return rw((srw *)l, true, true); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *ll) {
    srw *l = (srw *)ll;
    chk_sync(l, l->magic, "pthread_rwlock_unlock");
    if (cur < 0) return 0;
    if (sim_trylocks) sp_sync();
    be_release(l->writer == cur + 1 ? (void *)l : (char *)l + 1);
    if (l->writer == cur + 1) l->writer = 0;
    else if (l->readers > 0) l->readers--;
    else mc_fail("sync:unlock", "pthread_rwlock_unlock of a lock that is not held\n%s", sim_threads_text());
    return 0;
}

int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void)a; be_check(c, sizeof *c, true, "pthread_cond_init"); memset(c, 0, sizeof *c); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *cc) { scond *c = (scond *)cc; chk_sync(c, c->magic, "pthread_cond_destroy"); 
    for (int i = 0; i < nthr; i++) if (T[i].state == T_BLOCKED && T[i].wk == K_COND && T[i].wobj == c && !T[i].signaled) mc_fail("sync:cond-destroy", "condition variable destroyed while thread %d waits for it\n%s", i, sim_threads_text());
    c->magic = M_DESTROYED; return 0; }
static int cond_wait(scond *c, smutex *m, int64_t deadline) {
    chk_sync(c, c->magic, "pthread_cond_wait");
    chk_sync(m, m->magic, "pthread_cond_wait");
    sp_sync();
    if (sim_cfg.f_spurious && mc_fault(2, "spurious wake-up")) {
        mutex_unlock(m);
        sp_sync();
        mutex_lock(m, false);
        return 0;
    }
    int cnt = m->cnt;
    m->cnt = 0;
    be_release(m);
    m->owner = 0;
    bool ok = block(K_COND, c, -1, deadline);
    be_acquire(c);
    while (m->owner) block(K_MUTEX, m, -1, -1);
    chk_sync(m, m->magic, "pthread_cond_wait");
    m->owner = cur + 1; m->cnt = cnt;
    be_acquire(m);
    return ok ? 0 : ETIMEDOUT;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait((scond *)c, (smutex *)m, -1); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    return cond_wait((scond *)c, (smutex *)m, ts->tv_sec * 1000000000ll + ts->tv_nsec);
}
static int cond_wake(scond *c, bool all) {
    chk_sync(c, c->magic, all ? "pthread_cond_broadcast" : "pthread_cond_signal");
    if (cur < 0) return 0;
    sp_sync();
    be_release(c);
    int w[MAX_THR], n = 0;
    for (int i = 0; i < nthr; i++) if (T[i].state == T_BLOCKED && T[i].wk == K_COND && T[i].wobj == c && !T[i].signaled) w[n++] = i;
    if (!n) return 0;
    if (all) { for (int i = 0; i < n; i++) T[w[i]].signaled = true; return 0; }
    int k = sim_cfg.signal_choice && sim_cfg.mc && sim_sched_on ? eng_choose(n, "signal", 3) : 0;
    T[w[k]].signaled = true;
    return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { return cond_wake((scond *)c, false); }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { return cond_wake((scond *)c, true); }

static bool fail_create(void) { return false; }
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    (void)a;
    if (fail_create()) return EAGAIN;
    int i = new_thread("server", fn, NULL, arg);
    be_check(t, sizeof *t, true, "pthread_create");
    *t = (pthread_t)(i + 1);
    sp_sync();
    return 0;
}
int __wrap_pthread_join(pthread_t p, void **ret) {
    int i = (int)p - 1;
    if (i < 0 || i >= nthr) mc_fail("sync:join", "join of a thread that does not exist (%ld)", (long)p);
    if (T[i].joined) mc_fail("sync:join", "thread %d is joined twice\n%s", i, sim_threads_text());
    sp_sync();
    if (T[i].state != T_DONE) block(K_JOIN, NULL, i, -1);
    T[i].joined = true;
    be_acquire(&T[i]);
    if (ret) { be_check(ret, sizeof *ret, true, "pthread_join"); *ret = T[i].ret; }
    return 0;
}
int __wrap_pthread_detach(pthread_t p) { T[(int)p - 1].detached = true; return 0; }
void __wrap_pthread_exit(void *r) { thread_end(r); __builtin_unreachable(); }
pthread_t __real_pthread_self(void);
pthread_t __wrap_pthread_self(void) { return cur < 0 ? __real_pthread_self() : (pthread_t)(cur + 1); }
int __wrap_sched_yield(void) { sim_yield(); return 0; }
void __wrap_exit(int c) { mc_fail("exit", "the server calls exit(%d)", c); }
void __wrap_abort(void) { mc_fail("abort", "the server aborts"); }

/* ================================================================= time */
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) {
    (void)c;
    be_check(ts, sizeof *ts, true, "clock_gettime");
    ts->tv_sec = now_ns / 1000000000; ts->tv_nsec = now_ns % 1000000000;
    return 0;
}
int __wrap_gettimeofday(struct timeval *tv, void *z) { (void)z; tv->tv_sec = 1700000000 + now_ns / 1000000000; tv->tv_usec = now_ns / 1000 % 1000000; return 0; }
time_t __wrap_time(time_t *t) { time_t v = 1700000000 + now_ns / 1000000000; if (t) *t = v; return v; }
static void do_sleep(int64_t ns) {
    if (cur < 0) return;
    step();
    if (ns < 1000) ns = 1000;
    block(K_SLEEP, NULL, -1, now_ns + ns);
}
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { (void)b; do_sleep(a->tv_sec * 1000000000ll + a->tv_nsec); return 0; }
int __wrap_clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { (void)c; (void)f; (void)b; do_sleep(a->tv_sec * 1000000000ll + a->tv_nsec); return 0; }
int __wrap_usleep(unsigned us) { do_sleep(us * 1000ll); return 0; }
unsigned __wrap_sleep(unsigned s) { do_sleep(s * 1000000000ll); return 0; }
static unsigned rnd;
int __wrap_rand(void) { rnd = rnd * 1103515245 + 12345; return rnd >> 16 & 0x7fff; }
void __wrap_srand(unsigned s) { (void)s; rnd = 1; }
int __wrap_getpid(void) { return 4711; }

/* ============================================================== network */
enum { F_NONE, F_LISTEN, F_CONN, F_PIPER, F_PIPEW, F_EPOLL };
#define MAX_FD 96
#define MAX_CONN 40
#define MAX_PIPE 12
#define MAX_EP 6
typedef struct { int type, idx; bool nonblock; int domain; } fdent_t;
typedef struct {
    bool used, accepted, srv_closed, fin, cli_closed, rst, rst_read, srv_shut_wr, srv_shut_rd, eagain, later;
    size_t noop[16]; int nnoop;       /* bytes that only the TLS stand-in sees */
    int port, fd, closes;
    uint8_t *in; size_t in_n, in_cap, in_rd;
    uint8_t *out; size_t out_n, out_cap;
    long window;
} conn_t;
typedef struct { bool used; int port; int q[16]; int nq; int fd; } lst_t;
typedef struct { uint8_t b[256]; int n; int rfd, wfd; bool rclosed, wclosed; } pipe_t;
typedef struct { bool on, ready, disabled; uint32_t events; epoll_data_t data; uint64_t seq; } ent_t;
typedef struct { bool used; ent_t e[MAX_FD]; uint64_t seq; } ep_t;
static fdent_t F[MAX_FD];
static conn_t C[MAX_CONN]; static int nconn;
static lst_t L[8]; static int nlst;
static pipe_t P[MAX_PIPE]; static int npipe;
static ep_t E[MAX_EP]; static int nep;

static int fd_new(int type, int idx) {
    for (int i = 3; i < MAX_FD; i++) if (F[i].type == F_NONE) { F[i] = (fdent_t){ type, idx, false, 0 }; return i; }
    errno = EMFILE;
    return -1;
}
static fdent_t *fdp(int fd) { return fd >= 0 && fd < MAX_FD && F[fd].type ? &F[fd] : NULL; }
static void bad_fd(const char *what, int fd) { mc_fail("bad-fd", "%s on descriptor %d, which is not open\n%s", what, fd, sim_threads_text()); }
int sim_open_fds(void) { int n = 0; for (int i = 0; i < MAX_FD; i++) n += F[i].type != F_NONE; return n; }

static uint32_t mask(int fd) {
    fdent_t *f = fdp(fd);
    if (!f) return 0;
    uint32_t m = 0;
    switch (f->type) {
        case F_LISTEN: if (L[f->idx].nq) m |= EPOLLIN; break;
        case F_PIPER: if (P[f->idx].n) m |= EPOLLIN; if (P[f->idx].wclosed) m |= EPOLLHUP; break;
        case F_PIPEW: m |= EPOLLOUT; if (P[f->idx].rclosed) m |= EPOLLERR; break;
        case F_CONN: {
            conn_t *c = &C[f->idx];
            if (c->in_rd < c->in_n || c->fin || c->rst || c->srv_shut_rd) m |= EPOLLIN;
            if (c->fin || c->rst || c->srv_shut_rd) m |= EPOLLRDHUP;
            if (c->rst || (c->fin && c->srv_shut_wr)) m |= EPOLLHUP;
            if (c->rst && !c->rst_read) m |= EPOLLERR;
            if ((c->window != 0 && !c->eagain) || c->rst) m |= EPOLLOUT;
            break;
        }
    }
    return m;
}
static void notify(int fd) {
    uint32_t m = mask(fd);
    for (int i = 0; i < nep; i++) {
        ent_t *e = &E[i].e[fd];
        if (E[i].used && e->on && !e->disabled && (m & (e->events | EPOLLERR | EPOLLHUP))) {
            if (!e->ready) e->seq = ++E[i].seq;
            e->ready = true;
        }
    }
}
static bool ep_any(int ep) {
    fdent_t *f = fdp(ep);
    if (!f) return true;
    ep_t *p = &E[f->idx];
    for (int i = 0; i < MAX_FD; i++) if (p->e[i].on && p->e[i].ready && (mask(i) & (p->e[i].events | EPOLLERR | EPOLLHUP))) return true;
    return false;
}
static bool poll_any(struct pollfd *p, int n) {
    for (int i = 0; i < n; i++) {
        if (p[i].fd < 0) continue;
        if (!fdp(p[i].fd)) return true;
        if (mask(p[i].fd) & ((uint32_t)p[i].events | POLLERR | POLLHUP)) return true;
    }
    return false;
}
static bool fd_readable(int fd) { return !fdp(fd) || (mask(fd) & (EPOLLIN | EPOLLHUP | EPOLLERR)); }
static bool fd_writable(int fd) { return !fdp(fd) || (mask(fd) & (EPOLLOUT | EPOLLHUP | EPOLLERR)); }
static void buf_put(uint8_t **b, size_t *n, size_t *cap, const void *d, size_t m);
static void note(int c);
static int eagain_release(void) {
    int n = 0;
    for (int i = 0; i < nconn; i++) if (C[i].eagain) {
        C[i].eagain = false; n++;
        if (C[i].accepted && !C[i].srv_closed) notify(C[i].fd);
    }
    for (int i = 0; i < nconn; i++) if (C[i].later) {
        conn_t *c = &C[i];
        C[i].later = false;
        if (c->fin || c->rst || c->srv_closed || c->nnoop == 16) continue;
        c->noop[c->nnoop++] = c->in_n;
        sim_trace("client %d sends a byte for the TLS layer", i);
        buf_put(&c->in, &c->in_n, &c->in_cap, "\x16", 1);
        note(i);
        n++;
    }
    return n;
}

int __wrap_socket(int d, int t, int p) {
    (void)p;
    int k = nlst++;
    L[k] = (lst_t){ .used = true };
    int fd = fd_new(F_LISTEN, k);
    L[k].fd = fd;
    F[fd].domain = d;
    if (t & SOCK_NONBLOCK) F[fd].nonblock = true;
    return fd;
}
int __wrap_setsockopt(int fd, int l, int o, const void *v, socklen_t n) { (void)l; (void)o; if (!fdp(fd)) { errno = EBADF; return -1; } be_check(v, n, false, "setsockopt"); return 0; }
int __wrap_getsockopt(int fd, int l, int o, void *v, socklen_t *n) { (void)l; (void)o; if (!fdp(fd)) { errno = EBADF; return -1; } memset(v, 0, *n); return 0; }
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t n) {
    (void)n;
    if (!fdp(fd)) { errno = EBADF; return -1; }
    L[F[fd].idx].port = ntohs(a->sa_family == AF_INET6 ? ((struct sockaddr_in6 *)a)->sin6_port : ((struct sockaddr_in *)a)->sin_port);
    return 0;
}
int __wrap_listen(int fd, int n) { (void)n; if (!fdp(fd)) { errno = EBADF; return -1; } return 0; }
int __wrap_shutdown(int fd, int how) {
    fdent_t *f = fdp(fd);
    sp_sys();
    f = fdp(fd);
    if (!f) { errno = EBADF; return -1; }
    if (f->type == F_CONN) {
        conn_t *c = &C[f->idx];
        if (how == SHUT_WR || how == SHUT_RDWR) c->srv_shut_wr = true;
        if (how == SHUT_RD || how == SHUT_RDWR) c->srv_shut_rd = true;
        notify(fd);
    }
    sim_trace("shutdown(%d)", fd);
    return 0;
}
int __wrap_close(int fd) {
    sp_sys();
    fdent_t *f = fdp(fd);
    if (!f) bad_fd("close", fd);
    sim_trace("close(%d)", fd);
    switch (f->type) {
        case F_CONN: C[f->idx].srv_closed = true; C[f->idx].closes++; break;
        case F_LISTEN: L[f->idx].used = false; break;
        case F_PIPER: P[f->idx].rclosed = true; break;
        case F_PIPEW: P[f->idx].wclosed = true; break;
        case F_EPOLL: E[f->idx].used = false; break;
    }
    int wtype = f->type, widx = f->idx;
    f->type = F_NONE;
    for (int i = 0; i < nep; i++) E[i].e[fd].on = false;
    if (wtype == F_PIPEW) notify(P[widx].rfd);
    return 0;
}
/* client c: 127.0.0.1 (mapped on an IPv6 socket) or, every third one, an IPv6 address; see sim_ip */
static void set_addr(struct sockaddr *a, socklen_t *n, int dom, int c) {
    if (!a) return;
    struct sockaddr_in6 s6 = { .sin6_family = AF_INET6, .sin6_port = htons(40000 + c) };
    struct sockaddr_in s4 = { .sin_family = AF_INET, .sin_port = htons(40000 + c) };
    const void *s = &s4; size_t l = sizeof s4;
    s4.sin_addr.s_addr = htonl(0x7f000001 + c);
    if (dom == AF_INET6) {
        if (c % 3 == 2) { s6.sin6_addr.s6_addr[0] = 0x20; s6.sin6_addr.s6_addr[1] = 0x01; s6.sin6_addr.s6_addr[15] = 1 + c; }
        else { s6.sin6_addr.s6_addr[10] = s6.sin6_addr.s6_addr[11] = 255; memcpy(s6.sin6_addr.s6_addr + 12, &s4.sin_addr, 4); }
        s = &s6; l = sizeof s6;
    }
    /* the kernel writes what the caller says there is room for, and returns the real length */
    size_t k = *n < l ? *n : l;
    sim_heap_check(a, k, true, "accept");
    memcpy(a, s, k);
    *n = l;
}
const char *sim_ip(int c) {
    static char b[40];
    if (c % 3 == 2) snprintf(b, sizeof b, "2001::%x", 1 + c); else snprintf(b, sizeof b, "127.0.0.%d", 1 + c);
    return b;
}
int sim_port(int c) { return 40000 + c; }
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *n, int flags) {
    fdent_t *f = fdp(fd);
    if (!f) bad_fd("accept", fd);
    if (f->type != F_LISTEN) { errno = EINVAL; return -1; }
    sp_sys();
    f = fdp(fd);
    if (!f) bad_fd("accept", fd);
    lst_t *l = &L[f->idx];
    while (!l->nq) {
        if (f->nonblock) { errno = EAGAIN; return -1; }
        block(K_ACCEPT, NULL, fd, -1);
    }
    if (sim_cfg.f_accept) {
        int k = mc_fault(4, "accept");
        if (k == 1) { errno = EINTR; sim_trace("accept: EINTR"); return -1; }
        if (k == 2) { /* the first connection in the queue was aborted */
            C[l->q[0]].rst = true;
            for (int i = 1; i < l->nq; i++) l->q[i - 1] = l->q[i];
            l->nq--;
            errno = ECONNABORTED; sim_trace("accept: ECONNABORTED"); return -1;
        }
        if (k == 3) { errno = EMFILE; sim_trace("accept: EMFILE"); return -1; }
    }
    int c = l->q[0];
    for (int i = 1; i < l->nq; i++) l->q[i - 1] = l->q[i];
    l->nq--;
    int nfd = fd_new(F_CONN, c);
    C[c].accepted = true; C[c].fd = nfd;
    if (flags & SOCK_NONBLOCK) F[nfd].nonblock = true;
    set_addr(a, n, f->domain, c);
    sim_trace("accept: connection %d is descriptor %d", c, nfd);
    return nfd;
}
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *n) { return __wrap_accept4(fd, a, n, 0); }
int __wrap_getpeername(int fd, struct sockaddr *a, socklen_t *n) { fdent_t *f = fdp(fd); if (!f) { errno = EBADF; return -1; } set_addr(a, n, AF_INET, f->idx); return 0; }
int __wrap_fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    fdent_t *f = fdp(fd);
    if (!f) { errno = EBADF; return -1; }
    if (cmd == F_GETFL) return O_RDWR | (f->nonblock ? O_NONBLOCK : 0);
    if (cmd == F_SETFL) { f->nonblock = (arg & O_NONBLOCK) != 0; return 0; }
    return 0;
}
int __wrap_ioctl(int fd, unsigned long r, ...) { (void)r; if (!fdp(fd)) { errno = EBADF; return -1; } return 0; }
int __wrap_pipe2(int *fds, int flags) {
    int k = npipe++;
    if (k >= MAX_PIPE) { fprintf(stderr, "ENGINE ERROR: too many pipes\n"); _exit(2); }
    memset(&P[k], 0, sizeof P[k]);
    fds[0] = P[k].rfd = fd_new(F_PIPER, k);
    fds[1] = P[k].wfd = fd_new(F_PIPEW, k);
    if (flags & O_NONBLOCK) F[fds[0]].nonblock = F[fds[1]].nonblock = true;
    return 0;
}
int __wrap_pipe(int *fds) { return __wrap_pipe2(fds, 0); }

static bool conn_faulty(int c) { return sim_cfg.fault_conns == 0 || (sim_cfg.fault_conns >> c & 1); }

ssize_t sim_do_read(int fd, void *b, size_t n) {
    fdent_t *f = fdp(fd);
    if (!f) bad_fd("read", fd);
    be_check(b, n, true, "read");
    sp_sys();
again:
    f = fdp(fd);
    if (!f) bad_fd("read", fd);
    if (f->type == F_PIPER) {
        pipe_t *p = &P[f->idx];
        if (p->n == 0) {
            if (p->wclosed) return 0;
            if (f->nonblock) { errno = EAGAIN; return -1; }
            block(K_READ, NULL, fd, -1);
            goto again;
        }
        size_t m = (size_t)p->n < n ? (size_t)p->n : n;
        memcpy(b, p->b, m);
        memmove(p->b, p->b + m, p->n - m);
        p->n -= m;
        return m;
    }
    if (f->type != F_CONN) { errno = EINVAL; return -1; }
    conn_t *c = &C[f->idx];
    if (c->rst) {
        if (c->rst_read) return 0;
        c->rst_read = true;
        errno = ECONNRESET;
        return -1;
    }
    size_t av = c->in_n - c->in_rd;
    if (c->srv_shut_rd) return 0;
    if (av == 0) {
        if (c->fin) { sim_trace("read(%d): end", fd); return 0; }
        if (f->nonblock) { errno = EAGAIN; return -1; }
        block(K_READ, NULL, fd, -1);
        goto again;
    }
    if (sim_cfg.f_eintr_read && conn_faulty(f->idx) && mc_fault(2, "read: EINTR")) { errno = EINTR; sim_trace("read(%d): EINTR", fd); return -1; }
    if (sim_cfg.f_err_read && conn_faulty(f->idx) && mc_fault(2, "read: error")) { errno = ETIMEDOUT; c->rst = c->rst_read = true; notify(fd); sim_trace("read(%d): error", fd); return -1; }
    size_t m = av < n ? av : n;
    if (sim_cfg.f_short_read && m > 1 && conn_faulty(f->idx)) {
        if (sim_cfg.short_read_all) {
            int k = m - 1 < (size_t)sim_cfg.short_read_all ? (int)m - 1 : sim_cfg.short_read_all;
            int r = mc_fault(k + 1, "read: short");
            if (r) m = r;
        } else {
            size_t opt[3]; int no = 0;
            opt[no++] = 1;
            if (m / 2 > 1) opt[no++] = m / 2;
            if (m - 1 > m / 2 && m - 1 > 1) opt[no++] = m - 1;
            int r = mc_fault(no + 1, "read: short");
            if (r) m = opt[r - 1];
        }
    }
    cp_bytes(b, c->in + c->in_rd, m);
    c->in_rd += m;
    sim_trace("read(%d, %zu) = %zu", fd, n, m);
    return m;
}
ssize_t __wrap_read(int fd, void *b, size_t n) { return sim_do_read(fd, b, n); }
ssize_t __wrap___read_chk(int fd, void *b, size_t n, size_t l) { (void)l; return sim_do_read(fd, b, n); }
ssize_t __wrap_recv(int fd, void *b, size_t n, int fl) { (void)fl; return sim_do_read(fd, b, n); }

static void buf_put(uint8_t **b, size_t *n, size_t *cap, const void *d, size_t m) {
    if (*n + m > *cap) {
        size_t nc = *cap ? *cap * 2 : 1024;
        while (nc < *n + m) nc *= 2;
        uint8_t *q = heap_alloc(nc, 1, NULL);
        cp_bytes(q, *b, *n);
        *b = q; *cap = nc;
    }
    cp_bytes(*b + *n, d, m);
    *n += m;
}
ssize_t sim_do_write(int fd, const void *b, size_t n) {
    if (fd == 1 || fd == 2) return n;
    fdent_t *f = fdp(fd);
    if (!f) bad_fd("write", fd);
    be_check(b, n, false, "write");
    sp_sys();
again:
    f = fdp(fd);
    if (!f) bad_fd("write", fd);
    if (f->type == F_PIPEW) {
        pipe_t *p = &P[f->idx];
        if (p->rclosed) { errno = EPIPE; return -1; }
        size_t m = sizeof p->b - p->n;
        if (m == 0) { errno = EAGAIN; return -1; }
        if (m > n) m = n;
        memcpy(p->b + p->n, b, m);
        p->n += m;
        notify(p->rfd);
        return m;
    }
    if (f->type != F_CONN) { errno = EINVAL; return -1; }
    conn_t *c = &C[f->idx];
    if (c->rst || c->srv_shut_wr) { errno = EPIPE; return -1; }
    if (n == 0) return 0;
    if (c->window == 0 || c->eagain) {
        if (f->nonblock) { errno = EAGAIN; sim_trace("write(%d): EAGAIN", fd); return -1; }
        block(K_WRITE, NULL, fd, -1);
        goto again;
    }
    size_t m = n;
    if (c->window > 0 && (size_t)c->window < m) m = c->window;
    bool full = m < n;
    if (conn_faulty(f->idx)) {
        if (sim_cfg.f_eintr_write && mc_fault(2, "write: EINTR")) { errno = EINTR; sim_trace("write(%d): EINTR", fd); return -1; }
        if (sim_cfg.f_eagain_write && mc_fault(2, "write: EAGAIN")) { c->eagain = true; errno = EAGAIN; sim_trace("write(%d): EAGAIN", fd); return -1; }
        if (sim_cfg.f_err_write && mc_fault(2, "write: error")) { c->rst = true; c->rst_read = true; notify(fd); errno = EPIPE; sim_trace("write(%d): EPIPE", fd); return -1; }
        if (sim_cfg.f_short_write && m > 1) {
            int r;
            size_t m0 = m;
            if (sim_cfg.short_write_all) {
                int k = m - 1 < (size_t)sim_cfg.short_write_all ? (int)m - 1 : sim_cfg.short_write_all;
                r = mc_fault(k + 1, "write: short");
                if (r) m = r;
            } else {
                size_t opt[3]; int no = 0;
                opt[no++] = 1;
                if (m / 2 > 1) opt[no++] = m / 2;
                if (m - 1 > m / 2 && m - 1 > 1) opt[no++] = m - 1;
                r = mc_fault(no + 1, "write: short");
                if (r) m = opt[r - 1];
            }
            if (m < m0) full = true;
        }
    }
    if (c->cli_closed) { /* the client answers with a reset */
        c->rst = true;
        notify(fd);
        return m;
    }
    buf_put(&c->out, &c->out_n, &c->out_cap, b, m);
    if (c->window > 0) c->window -= m;
    if (full && c->window != 0) c->eagain = true; /* a short write means that the socket is full for now */
    sim_trace("write(%d, %zu) = %zu", fd, n, m);
    return m;
}
ssize_t __wrap_write(int fd, const void *b, size_t n) { return sim_do_write(fd, b, n); }
ssize_t __wrap_send(int fd, const void *b, size_t n, int fl) { (void)fl; return sim_do_write(fd, b, n); }
ssize_t __wrap_writev(int fd, const struct iovec *v, int n) {
    ssize_t t = 0;
    for (int i = 0; i < n; i++) {
        ssize_t r = sim_do_write(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) return t ? t : -1;
        t += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return t;
}
ssize_t __wrap_readv(int fd, const struct iovec *v, int n) {
    ssize_t t = 0;
    for (int i = 0; i < n; i++) {
        ssize_t r = sim_do_read(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) return t ? t : -1;
        t += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return t;
}

/* epoll, poll */
int __wrap_epoll_create1(int fl) {
    (void)fl;
    int k = nep++;
    if (k >= MAX_EP) { fprintf(stderr, "ENGINE ERROR: too many epolls\n"); _exit(2); }
    memset(&E[k], 0, sizeof E[k]);
    E[k].used = true;
    return fd_new(F_EPOLL, k);
}
int __wrap_epoll_create(int n) { (void)n; return __wrap_epoll_create1(0); }
int __wrap_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
    sp_sys();
    fdent_t *p = fdp(ep);
    if (!p || p->type != F_EPOLL) { errno = EBADF; return -1; }
    if (!fdp(fd)) { sim_trace("epoll_ctl: bad descriptor %d", fd); errno = EBADF; return -1; }
    ent_t *e = &E[p->idx].e[fd];
    switch (op) {
        case EPOLL_CTL_ADD:
            if (e->on) { errno = EEXIST; return -1; }
            memset(e, 0, sizeof *e);
            e->on = true;
            break;
        case EPOLL_CTL_MOD:
            if (!e->on) { errno = ENOENT; return -1; }
            break;
        case EPOLL_CTL_DEL:
            if (!e->on) { errno = ENOENT; return -1; }
            e->on = false;
            return 0;
        default: errno = EINVAL; return -1;
    }
    e->events = ev->events; e->data = ev->data; e->disabled = false; e->ready = false;
    sim_trace("epoll_ctl(%d, %s%s)", fd, ev->events & EPOLLIN ? "IN " : "", ev->events & EPOLLOUT ? "OUT" : "");
    if (mask(fd) & (e->events | EPOLLERR | EPOLLHUP)) { e->ready = true; e->seq = ++E[p->idx].seq; }
    return 0;
}
int __wrap_epoll_wait(int ep, struct epoll_event *ev, int max, int tmo) {
    fdent_t *p = fdp(ep);
    if (!p || p->type != F_EPOLL) { errno = EBADF; return -1; }
    sp_sys();
    if (sim_cfg.f_eintr_wait && mc_fault(2, "epoll_wait: EINTR")) { sim_trace("epoll_wait: EINTR"); errno = EINTR; return -1; }
    ep_t *e = &E[p->idx];
    int64_t deadline = tmo < 0 ? -1 : now_ns + tmo * 1000000ll;
    for (;;) {
        p = fdp(ep);
        if (!p || p->type != F_EPOLL) { errno = EBADF; return -1; }
        int n = 0;
        while (n < max) {
            int best = -1;
            for (int i = 0; i < MAX_FD; i++) if (e->e[i].on && e->e[i].ready && (best < 0 || e->e[i].seq < e->e[best].seq)) best = i;
            if (best < 0) break;
            ent_t *t = &e->e[best];
            uint32_t m = mask(best) & (t->events | EPOLLERR | EPOLLHUP);
            t->ready = false;
            if (!m) continue;
            be_check(&ev[n], sizeof ev[n], true, "epoll_wait");
            ev[n].events = m; ev[n].data = t->data;
            n++;
            if (t->events & EPOLLONESHOT) t->disabled = true;
            else if (!(t->events & EPOLLET)) { t->ready = true; t->seq = ++e->seq; if (n >= max) break; 
                /* level triggered: reported once per call */
                bool all = true;
                for (int i = 0; i < MAX_FD; i++) if (e->e[i].on && e->e[i].ready) { bool seen = false; for (int j = 0; j < n; j++) if (ev[j].data.u64 == e->e[i].data.u64) seen = true; if (!seen) all = false; }
                if (all) break; }
        }
        if (n) { sim_trace("epoll_wait: %d events, first %x", n, ev[0].events); return n; }
        if (tmo == 0) return 0;
        if (!block(K_EPOLL, NULL, ep, deadline)) return 0;
    }
}
int __wrap_epoll_pwait(int ep, struct epoll_event *ev, int max, int tmo, const sigset_t *s) { (void)s; return __wrap_epoll_wait(ep, ev, max, tmo); }
int __wrap_poll(struct pollfd *p, nfds_t n, int tmo) {
    be_check(p, n * sizeof *p, true, "poll");
    sp_sys();
    if (sim_cfg.f_eintr_wait && mc_fault(2, "poll: EINTR")) { sim_trace("poll: EINTR"); errno = EINTR; return -1; }
    int64_t deadline = tmo < 0 ? -1 : now_ns + tmo * 1000000ll;
    if (!poll_any(p, n)) {
        if (tmo == 0) { for (nfds_t i = 0; i < n; i++) p[i].revents = 0; return 0; }
        T[cur].wn = n;
        if (!block(K_POLL, p, p[0].fd, deadline)) { for (nfds_t i = 0; i < n; i++) p[i].revents = 0; return 0; }
    }
    int r = 0;
    for (nfds_t i = 0; i < n; i++) {
        p[i].revents = p[i].fd < 0 ? 0 : !fdp(p[i].fd) ? POLLNVAL : mask(p[i].fd) & ((uint32_t)(uint16_t)p[i].events | POLLERR | POLLHUP);
        r += p[i].revents != 0;
    }
    return r;
}
int __wrap_ppoll(struct pollfd *p, nfds_t n, const struct timespec *ts, const sigset_t *s) { (void)s; return __wrap_poll(p, n, ts ? (int)(ts->tv_sec * 1000 + ts->tv_nsec / 1000000) : -1); }

/* clients */
int sim_connect(int port) {
    for (int i = 0; i < nlst; i++) {
        if (!L[i].used || L[i].port != port || L[i].nq >= 16) continue;
        int c = nconn++;
        if (c >= MAX_CONN) { fprintf(stderr, "ENGINE ERROR: too many connections\n"); _exit(2); }
        memset(&C[c], 0, sizeof C[c]);
        C[c].used = true; C[c].port = port; C[c].window = -1; C[c].fd = -1;
        L[i].q[L[i].nq++] = c;
        sim_trace("client %d connects", c);
        notify(L[i].fd);
        return c;
    }
    return -1;
}
static void note(int c) { if (C[c].accepted && !C[c].srv_closed) notify(C[c].fd); }
void sim_send(int c, const void *b, size_t n) {
    conn_t *k = &C[c];
    if (k->srv_closed || k->rst || n == 0) return;
    sim_trace("client %d sends %zu bytes", c, n);
    buf_put(&k->in, &k->in_n, &k->in_cap, b, n);
    note(c);
}
/* for the TLS stand-in: the descriptor cannot be written until nothing else
 * happens; the peer sends a byte once nothing else happens */
void sim_tls_stall(int fd) { fdent_t *f = fdp(fd); if (f && f->type == F_CONN) C[f->idx].eagain = true; }
void sim_tls_later(int fd) { fdent_t *f = fdp(fd); if (f && f->type == F_CONN) C[f->idx].later = true; }
size_t sim_tls_offset(int fd) { fdent_t *f = fdp(fd); return f && f->type == F_CONN ? C[f->idx].in_rd : 0; }
bool sim_tls_noop(int fd, size_t off) { fdent_t *f = fdp(fd); if (f && f->type == F_CONN) for (int i = 0; i < C[f->idx].nnoop; i++) if (C[f->idx].noop[i] == off) return true; return false; }
void sim_shutdown_client(int c) { C[c].fin = true; sim_trace("client %d ends its stream", c); note(c); }
void sim_close_client(int c) { C[c].fin = true; C[c].cli_closed = true; sim_trace("client %d closes", c); note(c); }
void sim_reset_client(int c) { C[c].rst = true; sim_trace("client %d resets", c); note(c); }
void sim_window(int c, long n) { long o = C[c].window; C[c].window = n; if (o == 0 && n != 0) note(c); }
const uint8_t *sim_out(int c, size_t *n) { *n = C[c].out_n; return C[c].out; }
bool sim_server_closed(int c) { return C[c].srv_closed; }
bool sim_accepted(int c) { return C[c].accepted; }
int sim_fd_of(int c) { return C[c].fd; }
size_t sim_unread(int c) { return C[c].in_n - C[c].in_rd; }
bool sim_is_reset(int c) { return C[c].rst; }
int sim_conn_closes(int c) { return C[c].closes; }
static bool armed(int c, uint32_t ev) {
    if (C[c].srv_closed || !C[c].accepted) return false;
    for (int i = 0; i < nep; i++) { ent_t *e = &E[i].e[C[c].fd]; if (E[i].used && e->on && !e->disabled && (e->events & ev)) return true; }
    return false;
}
bool sim_armed_read(int c) { return armed(c, EPOLLIN); }
bool sim_armed_write(int c) { return armed(c, EPOLLOUT); }

/* ======================================================== signals, limits */
static struct sigaction sa[65];
int __wrap_sigaction(int s, const struct sigaction *a, struct sigaction *o) {
    if (s < 0 || s > 64) { errno = EINVAL; return -1; }
    if (o) *o = sa[s];
    if (a) sa[s] = *a;
    return 0;
}
typedef void (*sigh_t)(int);
sigh_t __wrap_signal(int s, sigh_t h) { sigh_t o = sa[s].sa_handler; sa[s].sa_handler = h; return o; }
void sim_raise(int s) {
    sim_trace("signal %d", s);
    if (sa[s].sa_flags & SA_SIGINFO) { siginfo_t si; memset(&si, 0, sizeof si); si.si_signo = s; sa[s].sa_sigaction(s, &si, NULL); }
    else if (sa[s].sa_handler && sa[s].sa_handler != SIG_IGN && sa[s].sa_handler != SIG_DFL) sa[s].sa_handler(s);
}
int __wrap_getrlimit(int r, struct rlimit *l) { (void)r; l->rlim_cur = l->rlim_max = 1024; return 0; }
int __wrap_setrlimit(int r, const struct rlimit *l) { (void)r; (void)l; return 0; }

/* ================================================================= files */
long sim_fread_cut = -1;
size_t __real_fread(void *, size_t, size_t, FILE *);
size_t __wrap_fread(void *b, size_t sz, size_t n, FILE *f) {
    be_check(b, sz * n, true, "fread");
    if (sim_fread_cut >= 0 && sz && n > sim_fread_cut / sz) n = sim_fread_cut / sz;
    return __real_fread(b, sz, n, f);
}

/* =============================================================== plugins */
static struct { const char *name; const sim_sym_t *syms; } *plug; static int nplug;
void sim_register_plugin(const char *base, const sim_sym_t *syms) {
    if (!plug) plug = host_alloc(4096);
    if (nplug == 64) { fprintf(stderr, "ENGINE ERROR: too many plug-ins\n"); abort(); }
    plug[nplug].name = base; plug[nplug].syms = syms; nplug++;
}
static char dlerr[128]; static bool dlerr_set;
static short dl_opens[64], dl_closes[64];
int sim_dl_opens(const char *b) { for (int i = 0; i < nplug; i++) if (!strcmp(b, plug[i].name)) return dl_opens[i]; return 0; }
int sim_dl_closes(const char *b) { for (int i = 0; i < nplug; i++) if (!strcmp(b, plug[i].name)) return dl_closes[i]; return 0; }
static int dl_idx(void *h, const char *f) {
    long o = (char *)h - (char *)plug, i = o / (long)sizeof *plug;
    if (!h || o < 0 || i >= nplug || o % (long)sizeof *plug || dl_closes[i] >= dl_opens[i]) mc_fail("dl:handle", "%s is called with something that is not the handle of a loaded library", f);
    return i;
}
void *__wrap_dlopen(const char *path, int fl) {
    (void)fl;
    const char *b = path ? strrchr(path, '/') : NULL;
    b = b ? b + 1 : path;
    for (int i = 0; b && i < nplug; i++) if (!strcmp(b, plug[i].name)) { dl_opens[i]++; return &plug[i]; }
    snprintf(dlerr, sizeof dlerr, "%s: cannot open shared object file", path ? path : "(null)");
    dlerr_set = true;
    return NULL;
}
void *__wrap_dlsym(void *h, const char *n) {
    int i = dl_idx(h, "dlsym");
    for (const sim_sym_t *s = plug[i].syms; s->name; s++) if (!strcmp(s->name, n)) return s->addr;
    snprintf(dlerr, sizeof dlerr, "undefined symbol: %s", n);
    dlerr_set = true;
    return NULL;
}
int __wrap_dlclose(void *h) { dl_closes[dl_idx(h, "dlclose")]++; return 0; }
char *__wrap_dlerror(void) { if (!dlerr_set) return NULL; dlerr_set = false; return dlerr; }

/* ================================================== regular expressions */
/* Compiled expressions live outside the simulated heap; a small tracked block
 * stands for one so that a missing regfree is still a leak. */
int __real_regcomp(regex_t *, const char *, int);
int __real_regexec(const regex_t *, const char *, size_t, regmatch_t *, int);
int __wrap_regcomp(regex_t *re, const char *pat, int fl) {
    be_check(re, sizeof *re, true, "regcomp");
    be_check(pat, strlen(pat) + 1, false, "regcomp");
    if (oom()) return REG_ESPACE;
    int i;
    for (i = 0; i < rxs->n; i++) if (rxs->r[i].fl == fl && !strcmp(rxs->r[i].pat, pat)) break;
    if (i == rxs->n) {
        if (rxs->n == 4096) { fprintf(stderr, "ENGINE ERROR: too many expressions\n"); _exit(2); }
        int r = __real_regcomp(&rxs->r[i].re, pat, fl);
        if (r) return r;
        char *cp = host_alloc(strlen(pat) + 1);
        strcpy(cp, pat);
        rxs->r[i].pat = cp; rxs->r[i].fl = fl;
        rxs->n++;
    }
    memset(re, 0, sizeof *re);
    re->re_nsub = rxs->r[i].re.re_nsub;
    int *b = heap_alloc(sizeof(int), 0, RA);
    *b = i;
    re->buffer = (void *)b;
    return 0;
}
int __wrap_regexec(const regex_t *re, const char *s, size_t n, regmatch_t *m, int fl) {
    be_check(re, sizeof *re, false, "regexec");
    be_check(re->buffer, sizeof(int), false, "regexec");
    be_check(s, strlen(s) + 1, false, "regexec");
    if (m && n) be_check(m, n * sizeof *m, true, "regexec");
    return __real_regexec(&rxs->r[*(int *)re->buffer].re, s, n, m, fl);
}
void __wrap_regfree(regex_t *re) {
    be_check(re, sizeof *re, false, "regfree");
    if (re->buffer) heap_free(re->buffer, RA);
    re->buffer = NULL;
}

/* ================================================================ logging */
void __real_log_log(int level, const char *file, int line, const char *fmt, ...);
void __wrap_log_log(int level, const char *file, int line, const char *fmt, ...) {
    if (sim_verbose) {
        char b[1500];
        va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
        sim_trace("  log %s:%d: %s", strrchr(file, '/') ? strrchr(file, '/') + 1 : file, line, b);
    } else if (sim_cfg.log) {
        static char b[8192];
        va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    }
    (void)level; (void)last_time_seq;
}

/* ================================================================ symbols */
#include <dlfcn.h>
static const char *sym(void *pc, char *b, size_t n) {
    Dl_info di;
    if (pc && dladdr(pc, &di) && di.dli_sname) snprintf(b, n, "%s+%ld", di.dli_sname, (long)((char *)pc - (char *)di.dli_saddr));
    else snprintf(b, n, "%p", pc);
    return b;
}

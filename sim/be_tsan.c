/* Memory back end: an own run-time for the instrumentation of
 * -fsanitize=thread. Every access of the server to memory that several
 * threads can reach is checked against the map of live memory and recorded
 * with vector clocks; two accesses that no lock orders are racing, and the
 * instructions that race become scheduling points: the search starts again
 * with them until no new ones turn up. Locks and the start and end of threads
 * are the only things that order accesses: volatile accesses, atomic
 * operations and fences do not, which makes all of them scheduling points
 * where more than one thread takes part. Compiled without instrumentation. */
#include "eng.h"
#include <string.h>
#include <stdio.h>
#include <unistd.h>
#include <dlfcn.h>
#include <sys/syscall.h>
#include <sys/mman.h>

void cp_bytes(void *d, const void *s, size_t n) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory"); }
void set_bytes(void *d, int c, size_t n) { __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); }

#define ARENA_SIZE (HEAP_SIZE + (1 << 20) + STACKS_SIZE)
extern char __data_start[], _end[];
typedef struct { uint32_t gen, clk, pc; uint8_t tid, mask, w, pad; } slot_t;
typedef struct { slot_t s[4]; } cell_t;
#define NSYNC 8192
typedef struct { void *obj; uint32_t gen; uint32_t vc[MAX_THR]; } sync_t;
#define NTAB 4096
/* not restored between executions */
typedef struct {
    uint32_t gen;
    uint8_t *poison;
    cell_t *heap, *glob;
    sync_t sync[NSYNC];
    uint32_t tab[NTAB];
    int ntab;
    bool built;
    uint8_t *sh_heap; size_t sh_heap_n; void *heap0;
} host_t;
static host_t *H;
static uint32_t vc[MAX_THR][MAX_THR];
static struct { uint32_t pc; uint64_t a; int tid, n; } spin;
static int ignore, quiet; /* accesses since the last scheduling point */

static host_t *host(void) {
    if (!H) {
        H = host_alloc(sizeof *H);
        H->poison = mmap(NULL, ARENA_SIZE / 8, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
        H->heap = mmap(NULL, ARENA_SIZE / 8 * sizeof(cell_t), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
        H->glob = mmap(NULL, ((uint64_t)(_end - __data_start) / 8 + 16) * sizeof(cell_t), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
        if (H->poison == MAP_FAILED || H->heap == MAP_FAILED || H->glob == MAP_FAILED) { perror("shadow"); _exit(2); }
    }
    return H;
}
void be_init(void) { }
#define SH(p) (host()->poison + (((uint64_t)(p) - ARENA_BASE) >> 3))
static bool in_arena(uint64_t a) { return a - ARENA_BASE < ARENA_SIZE; }

void be_poison(void *p, size_t n, int kind) { if (in_arena((uint64_t)p)) set_bytes(SH(p), kind, (n + 7) / 8); }
void be_unpoison(void *p, size_t n) {
    if (!in_arena((uint64_t)p)) return;
    set_bytes(SH(p), 0, n / 8);
    if (n & 7) *(SH(p) + n / 8) = n & 7;
}
static uint64_t first_bad(uint64_t a, size_t n) {
    if (!in_arena(a) || !n) return 0;
    for (uint64_t w = a & ~7ull; w < a + n; w += 8) {
        uint8_t s = *SH(w);
        if (!s) continue;
        uint64_t lo = w < a ? a : w, hi = w + 8 < a + n ? w + 8 : a + n;
        if (s >= 8) return lo;
        if (hi > w + s) return lo > w + s ? lo : w + s;
    }
    return 0;
}
static const char *fn_of(uint32_t pc) {
    Dl_info d;
    return dladdr((void *)(uint64_t)pc, &d) && d.dli_sname ? d.dli_sname : "?";
}
static void bad_access(uint64_t a, size_t n, bool w, uint64_t bad, uint32_t pc) {
    char d[512], sig[256];
    sim_describe_addr(bad, d, sizeof d);
    snprintf(sig, sizeof sig, "memory:%s@%s", *SH(bad) == PK_FREED ? "heap-use-after-free" : "heap-buffer-overflow", fn_of(pc));
    mc_fail(sig, "%s of %zu bytes at %#lx in %s (%#x): %s\n%s", w ? "write" : "read", n, a, fn_of(pc), pc, d, sim_threads_text());
}
void be_check(const void *p, size_t n, bool write, const char *what) {
    uint64_t bad = first_bad((uint64_t)p, n);
    if (bad) {
        char d[512];
        sim_describe_addr(bad, d, sizeof d);
        mc_fail("memory:bad-buffer", "%s of %zu bytes at %p by %s: byte %zd is not accessible (%s)\n%s", write ? "write" : "read", n, p, what, (ssize_t)(bad - (uint64_t)p), d, sim_threads_text());
    }
}
void be_snapshot(void *heap, size_t used, int nst, void **sp, void **top) {
    (void)nst; (void)sp; (void)top;
    H->heap0 = heap;
    H->sh_heap_n = (used + 7) / 8;
    H->sh_heap = host_alloc(H->sh_heap_n + 8);
    cp_bytes(H->sh_heap, SH(heap), H->sh_heap_n);
}
void be_restore(size_t used_now) {
    cp_bytes(SH(H->heap0), H->sh_heap, H->sh_heap_n);
    size_t n = (used_now + 7) / 8;
    if (n > H->sh_heap_n) set_bytes(SH(H->heap0) + H->sh_heap_n, PK_RED, n - H->sh_heap_n);
}
void be_switch(int to, void *bottom, size_t size) { (void)to; (void)bottom; (void)size; }
void be_switched(void) { quiet = 0; }

/* ------------------------------------------------------------ clocks */
void be_new_execution(void) {
    host()->gen++;
    set_bytes(vc, 0, sizeof vc);
    for (int i = 0; i < MAX_THR; i++) vc[i][i] = 1;
    spin.tid = -1;
    if (!H->built) {
        H->built = true;
        for (int i = 0; i < G->race_n0; i++) {
            uint32_t pc = G->race_pc[i], h = pc * 2654435761u % NTAB;
            while (H->tab[h]) h = (h + 1) % NTAB;
            H->tab[h] = pc;
        }
    }
}
static sync_t *sync_of(void *obj) {
    uint32_t h = ((uint64_t)obj >> 3) * 0x9E3779B97F4A7C15ull >> 51;
    for (int i = 0; i < NSYNC; i++) {
        sync_t *s = &host()->sync[(h + i) % NSYNC];
        if (s->gen != H->gen || !s->obj) { s->gen = H->gen; s->obj = obj; set_bytes(s->vc, 0, sizeof s->vc); return s; }
        if (s->obj == obj) return s;
    }
    fprintf(stderr, "ENGINE ERROR: too many synchronisation objects\n");
    _exit(2);
}
static void join(uint32_t *d, const uint32_t *s) { for (int i = 0; i < MAX_THR; i++) if (s[i] > d[i]) d[i] = s[i]; }
void be_acquire(void *o) { int t = sim_cur(); if (t >= 0) join(vc[t], sync_of(o)->vc); }
void be_release(void *o) { int t = sim_cur(); if (t >= 0) { join(sync_of(o)->vc, vc[t]); vc[t][t]++; } }
void be_thread_new(int tid, int parent) {
    if (parent < 0) return;
    join(vc[tid], vc[parent]);
    vc[tid][tid]++;
    vc[parent][parent]++;
}
void sim_mem_ignore(bool on) { ignore += on ? 1 : -1; }

/* ------------------------------------------------------------ accesses */
static bool is_point(uint32_t pc) {
    uint32_t h = pc * 2654435761u % NTAB;
    while (H->tab[h]) { if (H->tab[h] == pc) return true; h = (h + 1) % NTAB; }
    return false;
}
static void add_race(uint32_t pc) {
    if (is_point(pc)) return;
    while (__sync_lock_test_and_set(&G->lock, 1)) syscall(SYS_sched_yield);
    int i;
    for (i = 0; i < G->nrace; i++) if (G->race_pc[i] == pc) break;
    if (i == G->nrace && i < NRACE) { G->race_pc[i] = pc; G->nrace++; G->race_new = 1; G->stop = 1; }
    __sync_lock_release(&G->lock);
}
static void race(const slot_t *o, uint32_t pc, bool w, uint64_t a, int t) {
    if (sim_cfg.races == 2) {
        char sig[300], d[512];
        snprintf(sig, sizeof sig, "race:%s,%s", fn_of(o->pc), fn_of(pc));
        mc_fail(sig, "nothing orders the %s by thread %d in %s (%#x) and the %s by thread %d in %s (%#x) of %s\n%s", o->w ? "write" : "read", o->tid, fn_of(o->pc), o->pc, w ? "write" : "read", t, fn_of(pc), pc, sim_describe_addr(a, d, sizeof d), sim_threads_text());
    }
    add_race(o->pc);
    add_race(pc);
}
static void note_word(uint64_t w, uint8_t mask, bool wr, uint32_t pc, int t) {
    cell_t *c = in_arena(w) ? &H->heap[(w - ARENA_BASE) >> 3] : &H->glob[(w - ((uint64_t)__data_start & ~7ull)) >> 3];
    slot_t *put = NULL;
    for (int i = 0; i < 4; i++) {
        slot_t *s = &c->s[i];
        if (s->gen != H->gen) { if (!put) put = s; continue; }
        if (s->tid == t) { if (s->mask == mask && (wr || !s->w)) put = s; continue; }
        if ((s->mask & mask) && (s->w || wr) && vc[t][s->tid] < s->clk) race(s, pc, wr, w, t);
    }
    if (!put) put = &c->s[(vc[t][t] + pc) & 3];
    *put = (slot_t){ H->gen, vc[t][t], pc, t, mask, wr, 0 };
}
static inline void point(uint64_t a, bool w, uint32_t pc, int t) {
    if (!sim_sched_on) return;
    if (!is_point(pc)) {
        if (++quiet > 5000) { quiet = 0; sim_spin(); }
        return;
    }
    quiet = 0;
    if (w) sim_progress();
    /* a loop that reads the same place without any effect waits for another thread */
    if (!w && spin.pc == pc && spin.a == a && spin.tid == t) {
        if (++spin.n >= 2) { spin.n = 0; sim_spin(); return; }
    } else { spin.pc = pc; spin.a = a; spin.tid = t; spin.n = 0; }
    sim_point();
}
static void acc(uint64_t a, size_t n, bool w, uint32_t pc) {
    int t = sim_cur();
    if (t < 0 || !H || ignore) return;
    if (!in_arena(a)) {
        if (a < (uint64_t)__data_start || a + n > (uint64_t)_end) return;
    } else if (a >= STACKS_BASE) return;
    if (sim_cfg.races && H->gen) {
        if (w) spin.tid = -1;
        point(a, w, pc, t);
    }
    uint64_t bad = first_bad(a, n);
    if (bad) bad_access(a, n, w, bad, pc);
    if (!sim_cfg.races || !H->gen) return;
    for (uint64_t x = a & ~7ull; x < a + n; x += 8) {
        int lo = x < a ? a - x : 0, hi = x + 8 > a + n ? a + n - x : 8;
        note_word(x, (uint8_t)((1u << hi) - (1u << lo)), w, pc, t);
    }
}
/* freeing a block conflicts with every access to it that nothing orders before */
void be_free(void *p, size_t n, void *pc) {
    int t = sim_cur();
    if (t < 0 || !H || ignore || !sim_cfg.races || !H->gen) return;
    spin.tid = -1;
    point((uint64_t)p, true, (uint32_t)(uint64_t)pc, t);
    if (n > 1024) n = 1024;
    for (uint64_t x = (uint64_t)p & ~7ull; x < (uint64_t)p + n; x += 8) note_word(x, 0xff, true, (uint32_t)(uint64_t)pc, t);
}
#define PC ((uint32_t)(uint64_t)__builtin_return_address(0))
#define RW(n) \
    void __tsan_read##n(void *a) { acc((uint64_t)a, n, false, PC); } \
    void __tsan_write##n(void *a) { acc((uint64_t)a, n, true, PC); } \
    void __tsan_unaligned_read##n(void *a) { acc((uint64_t)a, n, false, PC); } \
    void __tsan_unaligned_write##n(void *a) { acc((uint64_t)a, n, true, PC); } \
    void __tsan_volatile_read##n(void *a) { acc((uint64_t)a, n, false, PC); } \
    void __tsan_volatile_write##n(void *a) { acc((uint64_t)a, n, true, PC); } \
    void __tsan_unaligned_volatile_read##n(void *a) { acc((uint64_t)a, n, false, PC); } \
    void __tsan_unaligned_volatile_write##n(void *a) { acc((uint64_t)a, n, true, PC); } \
    void __tsan_read_write##n(void *a) { acc((uint64_t)a, n, false, PC); acc((uint64_t)a, n, true, PC); } \
    void __tsan_unaligned_read_write##n(void *a) { acc((uint64_t)a, n, false, PC); acc((uint64_t)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { acc((uint64_t)a, n, false, PC); }
void __tsan_write_range(void *a, unsigned long n) { acc((uint64_t)a, n, true, PC); }
void __tsan_init(void) { }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) { }
void __tsan_vptr_update(void **a, void *b) { (void)a; (void)b; }
void *__tsan_memcpy(void *d, const void *s, size_t n) { acc((uint64_t)s, n, false, PC); acc((uint64_t)d, n, true, PC); cp_bytes(d, s, n); return d; }
void *__tsan_memmove(void *d, const void *s, size_t n) { acc((uint64_t)s, n, false, PC); acc((uint64_t)d, n, true, PC); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { acc((uint64_t)d, n, true, PC); set_bytes(d, c, n); return d; }
void __tsan_atomic_thread_fence(int m) { (void)m; }
void __tsan_atomic_signal_fence(int m) { (void)m; }
#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T *a, int m) { (void)m; acc((uint64_t)a, b / 8, false, PC); return *a; } \
    void __tsan_atomic##b##_store(volatile T *a, T v, int m) { (void)m; acc((uint64_t)a, b / 8, true, PC); *a = v; } \
    T __tsan_atomic##b##_exchange(volatile T *a, T v, int m) { (void)m; acc((uint64_t)a, b / 8, true, PC); T o = *a; *a = v; return o; } \
    T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int m) { (void)m; acc((uint64_t)a, b / 8, true, PC); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int m) { (void)m; acc((uint64_t)a, b / 8, true, PC); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int m) { (void)m; acc((uint64_t)a, b / 8, true, PC); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int m) { (void)m; acc((uint64_t)a, b / 8, true, PC); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int m) { (void)m; acc((uint64_t)a, b / 8, true, PC); T o = *a; *a = o ^ v; return o; } \
    T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int m) { (void)m; acc((uint64_t)a, b / 8, true, PC); T o = *a; *a = ~(o & v); return o; } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int m, int f) { (void)m; (void)f; acc((uint64_t)a, b / 8, true, PC); T o = *a; if (o == c) *a = v; return o; } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int m, int f) { (void)m; (void)f; acc((uint64_t)a, b / 8, true, PC); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int m, int f) { (void)m; (void)f; acc((uint64_t)a, b / 8, true, PC); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

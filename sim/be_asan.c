/* Memory back end: the shadow memory of AddressSanitizer. Compiled without
 * instrumentation. */
#include "eng.h"
#include <string.h>
#include <stdio.h>
#include <unistd.h>

void __sanitizer_start_switch_fiber(void **save, const void *bottom, size_t size);
void __sanitizer_finish_switch_fiber(void *save, const void **bottom_old, size_t *size_old);
void *__asan_region_is_poisoned(void *p, size_t n);
void __asan_set_error_report_callback(void (*cb)(const char *));
void __sanitizer_set_death_callback(void (*cb)(void));

#define SH(a) ((uint8_t *)(((uint64_t)(a) >> 3) + 0x7fff8000ull))

const char *__asan_default_options(void) {
    return "detect_leaks=0:detect_stack_use_after_return=0:handle_segv=1:use_sigaltstack=1:exitcode=3:abort_on_error=0:halt_on_error=1:allocator_may_return_null=1:print_legend=0:print_full_thread_history=0:print_scariness=0:symbolize=1:color=never:detect_odr_violation=0:handle_abort=1:max_malloc_fill_size=0";
}

void cp_bytes(void *d, const void *s, size_t n) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory"); }
void set_bytes(void *d, int c, size_t n) { __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); }

static void cb(const char *rep) {
    if (!W || W->msg[0]) return;
    const char *e = strstr(rep, "ERROR: AddressSanitizer: ");
    char kind[64] = "error", fn[128] = "?";
    if (e) sscanf(e + 25, "%63[^ \n]", kind);
    /* the first frame that is not the run-time library or the simulator */
    const char *p = rep;
    while ((p = strstr(p, " in "))) {
        char f[128], loc[256] = "";
        sscanf(p + 4, "%127s %255s", f, loc);
        p += 4;
        if (strstr(loc, "/sim/") || strstr(loc, "libasan") || strstr(loc, "libsanitizer") || strstr(f, "interceptor") || strstr(f, "__wrap_") || strncmp(f, "__asan", 6) == 0 || strncmp(f, "__interceptor", 13) == 0) continue;
        strcpy(fn, f);
        break;
    }
    snprintf(W->sig, sizeof W->sig, "memory:%s@%s", kind, fn);
    char d[512] = "";
    const char *a = strstr(rep, " address 0x");
    if (a) {
        unsigned long long ad = 0;
        sscanf(a + 9, "%llx", &ad);
        sim_describe_addr(ad, d, sizeof d);
    }
    snprintf(W->msg, sizeof W->msg, "memory error: %s\n%.6000s", d, rep);
}

void be_init(void) {
    __asan_set_error_report_callback(cb);
}

void be_poison(void *p, size_t n, int kind) {
    /* p is 8-aligned */
    set_bytes(SH(p), kind, (n + 7) / 8);
}
void be_unpoison(void *p, size_t n) {
    set_bytes(SH(p), 0, n / 8);
    if (n & 7) *(SH(p) + n / 8) = n & 7;
}

void __asan_report_load_n(void *p, size_t n);
void __asan_report_store_n(void *p, size_t n);
void be_check(const void *p, size_t n, bool write, const char *what) {
    if (n == 0) return;
    void *bad = __asan_region_is_poisoned((void *)p, n);
    if (bad) {
        char d[512];
        sim_describe_addr((uint64_t)bad, d, sizeof d);
        mc_fail("memory:bad-buffer", "%s of %zu bytes at %p by %s: byte %zd is not accessible (%s)\n%s", write ? "write" : "read", n, p, what, (ssize_t)((char *)bad - (char *)p), d, sim_threads_text());
    }
}

static uint8_t *sh_heap; static size_t sh_heap_n; static void *heap0;
static struct { void *sp, *top; uint8_t *copy; } *st;
static int nst_;

void be_snapshot(void *heap, size_t used, int nst, void **sp, void **top) {
    heap0 = heap;
    sh_heap_n = (used + 7) / 8;
    sh_heap = host_alloc(sh_heap_n + 8);
    cp_bytes(sh_heap, SH(heap), sh_heap_n);
    st = host_alloc(sizeof(*st) * (nst + 1));
    nst_ = nst;
    for (int i = 0; i < nst; i++) {
        st[i].sp = (void *)((uint64_t)sp[i] & ~63ull); st[i].top = top[i];
        size_t n = (uint64_t)((char *)top[i] - (char *)st[i].sp) / 8;
        st[i].copy = host_alloc(n + 8);
        cp_bytes(st[i].copy, SH(st[i].sp), n);
    }
}
static bool used_thr[MAX_THR];
void be_thread_new(int tid, int parent) {
    (void)parent;
    if (tid < MAX_THR) used_thr[tid] = true;
}
void be_restore(size_t used_now) {
    cp_bytes(SH(heap0), sh_heap, sh_heap_n);
    size_t n = (used_now + 7) / 8;
    if (n > sh_heap_n) set_bytes(SH(heap0) + sh_heap_n, PK_RED, n - sh_heap_n);
    for (int i = 0; i < nst_; i++) {
        char *bottom = (char *)st[i].top - STACK_SIZE + 4096;
        set_bytes(SH(bottom), 0, (uint64_t)((char *)st[i].sp - bottom) / 8);
        cp_bytes(SH(st[i].sp), st[i].copy, (uint64_t)((char *)st[i].top - (char *)st[i].sp) / 8);
    }
}

static void *fake;
void be_switch(int to, void *bottom, size_t size) { (void)to; __sanitizer_start_switch_fiber(&fake, bottom, size); }
void be_switched(void) { const void *b; size_t s; __sanitizer_finish_switch_fiber(NULL, &b, &s); }
void be_acquire(void *o) { (void)o; }
void be_release(void *o) { (void)o; }
void be_new_execution(void) { }
void be_free(void *p, size_t n, void *pc) { (void)p; (void)n; (void)pc; }

/* W16: the worker pool under every schedule (up to a preemption bound). */
#include "sim.h"
#include <string.h>
#include <stdio.h>
#include "pool.h"
#include "alloc.h"
const char *harness_rule = "every interleaving at synchronisation operations, up to the stated number of preemptions, with every choice of the thread that a signal wakes and of spurious wake-ups, of the listed programs over the real pool";

#define MAXT 12
static threadpool_t *P;
static int ran[MAXT], accepted[MAXT], refused[MAXT], running[MAXT], order[64], norder, at_shutdown[MAXT], after_shutdown[MAXT];
static int submitters, shut, nested_at = -1, hold_at = -1;
static int ids[MAXT];
static bool again, waits;
static bool second_gone(void *a) { (void)a; return running[1] || ran[1] || refused[1]; }
static bool joining(void *a) { (void)a; return shut == 1 && sim_joining(0); }
static bool subs_done(void *a) { (void)a; return submitters == 0; }
static void submit(int k);
static int acc_order[64], nacc;
static void task(void *a) {
    int k = *(int *)a;
    MC_CHECK(!ran[k], "pool:twice", "task %d is run twice", k);
    MC_CHECK(!refused[k], "pool:refused-run", "task %d was refused, but is run", k);
    MC_CHECK(!running[k], "pool:twice", "task %d is run by two workers", k);
    running[k] = 1;
    order[norder++] = k;
    sim_point();
    if (k == hold_at) sim_wait_until(subs_done, NULL);
    if (k == hold_at && again) { /* the pool is already shutting down */
        sim_wait_until(joining, NULL);
        for (int i = 0; i < 2; i++) {
            int r = threadpool_destroy(P, i ? 0 : threadpool_graceful);
            MC_CHECK(r == threadpool_shutdown, "pool:again", "a second shutdown returns %d", r);
            r = threadpool_add(P, task, &ids[0], 0);
            MC_CHECK(r == threadpool_shutdown || r == threadpool_queue_full, "pool:late", "a task is answered %d during the shutdown", r);
        }
    }
    if (k == 0 && waits) sim_wait_until(second_gone, NULL); /* another worker has to take the second task */
    if (k == nested_at) submit(k + 6);
    sim_point();
    running[k] = 0;
    ran[k]++;
   
}
static void submit(int k) {
    ids[k] = k;
    int before = shut;
    /* the task may run before the call returns */
    int r = threadpool_add(P, task, &ids[k], 0);
    if (r == 0) { accepted[k] = 1; acc_order[nacc++] = k; if (before == 2) after_shutdown[k] = 1; }
    else { refused[k] = r; MC_CHECK(!running[k] && !ran[k], "pool:refused-run", "task %d is refused (%d), but runs", k, r); }
    if (r == threadpool_shutdown) MC_CHECK(shut, "pool:early", "task %d is refused because of a shutdown that nobody asked for", k);
    MC_CHECK(r == 0 || r == threadpool_queue_full || r == threadpool_shutdown, "pool:error", "task %d is refused with error %d", k, r);
    MC_CHECK(before < 2 || r != 0, "pool:late", "task %d is accepted after the shutdown", k);
}
static int sub_from[4], sub_to[4];
static void submitter(void *a) {
    int s = (int)(long)a;
    for (int k = sub_from[s]; k < sub_to[s]; k++) { submit(k); sim_point(); }
    submitters--;
   
}
static int queue_size, workers;
/* arg: workers, queue, tasks per submitter, submitters, shutdown mode */
static void s_run(long arg) {
    workers = arg & 15; queue_size = arg >> 4 & 15;
    int per = arg >> 8 & 15, nsub = arg >> 12 & 15, mode = arg >> 16 & 3, variant = arg >> 18 & 7;
    sim_mem_t m0 = sim_live();
    mc_checkpoint();
    P = threadpool_create(workers, queue_size, 65536, 0);
    MC_CHECK(P, "pool:create", "the pool is not created");
    sim_sched_on = true; sim_faults_on = true;
    if (variant == 1) nested_at = 0;
    again = variant == 3; waits = variant == 4;
    int t[4];
    int early = mode == 2 ? 1 : 0; /* shutdown while the submitters are at work: a task keeps the pool alive */
    if (early) { hold_at = MAXT - 1; ids[MAXT - 1] = MAXT - 1; submitters = nsub; submit(MAXT - 1); }
    submitters = nsub;
    for (int s = 0; s < nsub; s++) { sub_from[s] = s * per; sub_to[s] = s * per + per; t[s] = sim_spawn("submitter", submitter, (void *)(long)s); }
    if (!early) for (int s = 0; s < nsub; s++) sim_join(t[s]);
    memcpy(at_shutdown, accepted, sizeof accepted);
    int full = 0;
    shut = 1;
    int r = threadpool_destroy(P, mode == 1 ? 0 : threadpool_graceful);
    shut = 2;
    if (early) for (int s = 0; s < nsub; s++) sim_join(t[s]);
    sim_sched_on = false; sim_faults_on = false;
    MC_CHECK(r == 0, "pool:destroy", "the shutdown returns %d", r);
    MC_CHECK(sim_live_threads() == 0, "pool:threads", "%d workers are left after the shutdown", sim_live_threads());
    for (int k = 0; k < MAXT; k++) {
        MC_CHECK(!running[k], "pool:cut", "task %d was ended in the middle", k);
        if (refused[k]) { MC_CHECK(!ran[k], "pool:refused-run", "task %d was refused, but has run", k); if (refused[k] == threadpool_queue_full) full++; }
        if (mode != 1 && accepted[k]) MC_CHECK(ran[k] == 1, "pool:lost", "task %d was accepted, but not run by the end of a graceful shutdown", k);
        MC_CHECK(!ran[k] || accepted[k], "pool:invented", "task %d was not accepted, but run", k);
    }
    if (workers == 1 && nsub == 1 && variant == 0 && !early) for (int i = 1; i < norder; i++) MC_CHECK(order[i - 1] < order[i], "pool:order", "with one worker, task %d is run before task %d", order[i - 1], order[i]);
    /* no more than the queue has room for can wait, hence with few tasks none is refused */
    int all = nsub * per + (variant == 1) + early;
    if (all <= queue_size) MC_CHECK(!full, "pool:full", "a task is refused although the queue has room for all %d", all);
    sim_mem_t m1 = sim_live();
    MC_CHECK(m1.blocks == m0.blocks, "pool:leak", "%lld blocks are left", (long long)(m1.blocks - m0.blocks));
    uint64_t hsh = mc_hash(norder, order, sizeof *order * norder);
    mc_outcome(mc_hash(hsh, refused, sizeof refused));
    if (mc_want_sample()) mc_sample("%d workers, queue of %d, %d submitters with %d tasks, %s: %d run, %d refused", workers, queue_size, nsub, per, mode == 1 ? "immediate shutdown" : mode ? "shutdown during submission" : "graceful shutdown", norder, full);
}
/* full queues: the number that is accepted is exact when no worker takes anything */
static bool flag; static bool is_flag(void *a) { (void)a; return flag; }
static int nblocked, nran;
static void blocker(void *a) { (void)a; nblocked++; sim_wait_until(is_flag, NULL); nran++; }
static bool all_blocked(void *a) { return nblocked == (int)(long)a; }
static void counter(void *a) { (void)a; nran++; order[norder++] = *(int *)a; }
static void s_full(long arg) {
    workers = arg & 15; queue_size = arg >> 4;
    mc_checkpoint();
    P = threadpool_create(workers, queue_size, 65536, 0);
    MC_CHECK(P, "pool:create", "the pool is not created");
    int rounds = 1 + mc_choose(3, "rounds");
    int extra = mc_choose(3, "extra");
    int total = 0;
    static int id[64];
    for (int r = 0; r < rounds; r++) {
        flag = false; nblocked = 0; nran = 0; norder = 0;
        bool paced = queue_size < workers || mc_choose(2, "paced");
        for (int i = 0; i < workers; i++) { MC_CHECK(threadpool_add(P, blocker, NULL, 0) == 0, "pool:refused", "a task is refused by an idle pool"); if (paced) sim_wait_until(all_blocked, (void *)(long)(i + 1)); }
        sim_quiesce();
        MC_CHECK(nblocked == workers, "pool:idle", "%d of %d workers are at work although %d tasks are waiting", nblocked, workers, workers - nblocked);
        int n = 0, x = 0;
        for (int i = 0; i < queue_size + extra; i++) { id[i] = i; int e = threadpool_add(P, counter, &id[i], 0); if (e == 0) n++; else { MC_CHECK(e == threadpool_queue_full, "pool:error", "error %d", e); x++; } }
        MC_CHECK(n == queue_size && x == extra, "pool:full", "%d tasks are accepted and %d refused by a queue of %d with all %d workers busy", n, x, queue_size, workers);
        flag = true;
        sim_quiesce();
        MC_CHECK(nran == workers + n, "pool:lost", "%d of %d tasks have run", nran, workers + n);
        if (workers == 1) for (int i = 0; i < norder; i++) MC_CHECK(order[i] == i, "pool:order", "task %d is run at place %d", order[i], i);
        total += n;
    }
    int mode = mc_choose(2, "shutdown");
    int r = threadpool_destroy(P, mode ? threadpool_graceful : 0);
    MC_CHECK(r == 0 && sim_live_threads() == 0, "pool:threads", "the shutdown returns %d and leaves %d workers", r, sim_live_threads());
    mc_outcome(total);
}
/* invalid arguments, and pools that cannot be made */
static void s_invalid(long arg) {
    (void)arg;
    sim_mem_t m0 = sim_live();
    mc_checkpoint();
    int w = 1 + mc_choose(3, "workers"), q = 1 + mc_choose(2, "queue");
    sim_faults_on = true;
    P = threadpool_create(w, q, 65536, 0);
    sim_faults_on = false;
    if (P) {
        MC_CHECK(threadpool_add(NULL, task, NULL, 0) == threadpool_invalid && threadpool_add(P, NULL, NULL, 0) == threadpool_invalid && threadpool_destroy(NULL, 0) == threadpool_invalid, "pool:invalid", "invalid arguments are not refused");
        ids[0] = 0; nran = 0;
        MC_CHECK(threadpool_add(P, counter, &ids[0], 0) == 0, "pool:refused", "a task is refused by an idle pool");
        MC_CHECK(threadpool_destroy(P, threadpool_graceful) == 0, "pool:destroy", "the shutdown fails");
        MC_CHECK(nran == 1, "pool:lost", "a task is not run");
    }
    MC_CHECK(sim_live_threads() == 0, "pool:threads", "%d threads are left", sim_live_threads());
    MC_CHECK(sim_live().blocks == m0.blocks, "pool:leak", "%lld blocks are left", (long long)(sim_live().blocks - m0.blocks));
    mc_outcome(!!P);
}
static void add(int w, int q, int per, int nsub, int mode, int variant, int budget) {
    char nm[120];
    static const char *ms[] = { "graceful shutdown", "immediate shutdown", "shutdown during submission" };
    static const char *vs[] = { "", ", tasks that submit tasks", ", spurious wake-ups", ", shut down again meanwhile", ", tasks that wait for one another" };
    sim_cfg.sched_budget = budget;
    sim_cfg.fault_budget = variant == 2 ? 2 : 0;
    sim_cfg.f_spurious = variant == 2;
    snprintf(nm, sizeof nm, "%d workers, queue %d, %d x %d tasks, %s%s", w, q, nsub, per, ms[mode], vs[variant]);
    sim_scenario(nm, s_run, w | q << 4 | per << 8 | nsub << 12 | mode << 16 | variant << 18);
}
extern void __tsan_init(void) __attribute__((weak));
void harness_init(void) {
    bool T = sim_thorough && !__tsan_init;
    memset(&sim_cfg, 0, sizeof sim_cfg);
    sim_cfg.max_steps = 2000000; sim_cfg.max_sleeps = 50;
    sim_cfg.no_idle_check = true;
    for (int w = 1; w <= 3; w++) for (int q = 1; q <= 3; q++) { char nm[60]; snprintf(nm, sizeof nm, "full: %d workers, queue %d", w, q); sim_scenario(nm, s_full, w | q << 4); }
    sim_cfg.f_malloc = true; sim_cfg.fault_budget = 1;
    sim_scenario("invalid arguments, failing allocations", s_invalid, 0);
    sim_cfg.f_malloc = false; sim_cfg.fault_budget = 0;
    /* the build that watches every memory access looks for accesses that no lock orders; the bounds are smaller there */
    bool tsan = __tsan_init != NULL;
    sim_cfg.races = 1;
    sim_cfg.mc = true; sim_cfg.sp_sync = true; sim_cfg.signal_choice = true;
    for (int mode = 0; mode < 3; mode++) for (int w = 1; w <= 3; w++) for (int q = 1; q <= 3; q++) {
        if (q == 3 && w == 3) continue;
        if (tsan && (w == 3 || q == 3)) continue;
        add(w, q, 2, 1, mode, 0, w == 3 ? (T && q == 1 ? 2 : 1) : w == 2 ? (T ? 3 : 2) : 4);
        if (w == 1) add(w, q, 3, 1, mode, 0, T ? 5 : 4);
        if (w <= 2) add(w, q, w == 2 ? 1 : 2, 2, mode, 0, w == 2 ? (T ? 3 : 2) : T ? 3 : 2);
        if (mode < 2 && w <= 2) add(w, q, 2, 1, mode, 1, w == 2 ? (T ? 3 : 2) : 4);
        if (mode == 0 && w >= 2) add(w, q, 2, 1, mode, 4, w == 2 ? 2 : 1);
        if (mode == 2) add(w, q, 1, 1, mode, 3, w == 2 ? 2 : T ? 3 : 2);
        if (w <= 2) add(w, q, 2, 1, mode, 2, w == 2 ? (T ? 2 : 1) : 4);
    }
    for (int q = 1; q <= 2; q++) { if (T) add(2, q, 3, 1, 0, 0, 2); add(1, q, 4, 1, 0, 0, T ? 5 : 4); if (T) add(1, q, 2, 3, 0, 0, 2); }
}

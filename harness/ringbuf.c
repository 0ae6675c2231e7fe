/* W15: the queue of outgoing messages, sequentially and under every
 * interleaving of single memory accesses (up to a preemption bound). */
#include "sim.h"
#include <string.h>
#include <stdio.h>
#include <sys/types.h>
#include "ringbuf.h"
const char *harness_rule = "every interleaving of the single memory accesses of the queue's code, up to the stated number of preemptions, of the listed producers and the consumer; every sequential history of the listed operations up to the stated length";

#define MAXS 16
#define MAXM 64
#define MAXP 4
static ringbuf_t *R;
static int space, nperm, ntemp;
static bool mixed; /* messages of several lengths: room at the end can go unused */
/* what is in a place: 0 nothing, otherwise message number + 1 */
static int owner[MAXS]; static bool done[MAXS];
static int slot_val[MAXS];
typedef struct { int prod, seq, len, off; bool produced, drained; uint64_t born; uint64_t t_acq0, t_prod; } msg_t;
static msg_t M[MAXM]; static int nm;
static int next_seq_out[MAXP + 1], next_seq_in[MAXP + 1];
static uint64_t ticks;
static int occ, inflight, maxocc[MAXP + 1], maxfly[MAXP + 1]; static bool incall[MAXP + 1];
static void occ_changed(void) {
    for (int p = 0; p <= MAXP; p++) if (incall[p]) {
        int o = 0; for (int q = 0; q <= MAXP; q++) if (q != p && incall[q]) o++;
        if (occ + o > maxocc[p]) maxocc[p] = occ + o;
        if (inflight > maxfly[p]) maxfly[p] = inflight;
    }
}
static ringbuf_worker_t *perm[MAXP], *wk[MAXP + 1];
static int cur_msg[MAXP + 1];

static void setup(int sp, int np, int nt) {
    size_t n, wn;
    space = sp; nperm = np; ntemp = nt;
    ringbuf_get_sizes(np, nt, &n, &wn);
    R = sim_xalloc(n);
    memset(R, 0xa5, n);
    MC_CHECK(ringbuf_setup(R, np, nt, sp) == 0, "ring:setup", "the queue is not set up");
    for (int i = 0; i < np; i++) perm[i] = ringbuf_register(R, i);
}
/* returns whether the message was accepted */
static bool put_begin(int p, int len) {
    wk[p] = p < nperm ? perm[p] : NULL;
    incall[p] = true; inflight++; maxocc[p] = maxfly[p] = 0; occ_changed();
    uint64_t t0 = ++ticks;
    ssize_t off = ringbuf_acquire(R, &wk[p], len);
    incall[p] = false;
    if (off < 0) {
        MC_CHECK(off == -1, "ring:ret", "acquire returns %zd", off);
        MC_CHECK(p < nperm || wk[p] == NULL, "ring:record", "a refused producer keeps its record");
        /* with nobody else at it, only a lack of room is a reason to refuse */
        MC_CHECK(maxfly[p] > 1 || mixed || maxocc[p] >= space - 1, "ring:refused", "a message is refused although only %d of %d places are taken and nobody else is queueing", maxocc[p], space);
        inflight--;
        occ_changed();
        return false;
    }
    MC_CHECK(off + len <= space, "ring:range", "places %zd to %zd are given out by a queue of %d", off, off + len, space);
    for (int i = off; i < off + len; i++) MC_CHECK(!owner[i], "ring:overwrite", "place %d is given to producer %d while message %d of producer %d (%s) is still in it", i, p, M[owner[i] - 1].seq, M[owner[i] - 1].prod, M[owner[i] - 1].produced ? "complete" : "not complete");
    int k = nm++;
    M[k] = (msg_t){ p, next_seq_in[p]++, len, (int)off, false, false, 0, t0, 0 };
    cur_msg[p] = k;
    for (int i = off; i < off + len; i++) { owner[i] = k + 1; done[i] = false; }
    occ += len;
    occ_changed();
    return true;
}
static void put_end(int p) {
    msg_t *m = &M[cur_msg[p]];
    for (int i = 0; i < m->len; i++) { slot_val[m->off + i] = cur_msg[p] * 8 + i; sim_point(); }
    /* complete from the moment that the call begins */
    for (int i = 0; i < m->len; i++) done[m->off + i] = true;
    m->produced = true;
    ringbuf_produce(R, &wk[p]);
    m->t_prod = ++ticks;
    MC_CHECK(p < nperm || wk[p] == NULL, "ring:record", "a producer keeps its record after its message");
    inflight--;
    occ_changed();
}
/* takes at most lim places at a time; returns how many */
static int drain(int lim) {
    size_t off = 999;
    size_t n = ringbuf_consume(R, &off);
    if (!n) return 0;
    MC_CHECK(off + n <= (size_t)space, "ring:range", "places %zu to %zu are drained from a queue of %d", off, off + n, space);
    for (size_t i = off; i < off + n; i++) {
        MC_CHECK(owner[i], "ring:invented", "place %zu is drained, but nothing is in it", i);
        MC_CHECK(done[i], "ring:early", "message %d of producer %d is drained before it is complete", M[owner[i] - 1].seq, M[owner[i] - 1].prod);
    }
    size_t take = 0;
    while (take < n && (lim <= 0 || (int)take < lim)) {
        int k = owner[off + take] - 1;
        msg_t *m = &M[k];
        MC_CHECK(m->off == (int)(off + take) && take + m->len <= n, "ring:torn", "only a part of message %d of producer %d is drained", m->seq, m->prod);
        sim_point();
        for (int i = 0; i < m->len; i++) MC_CHECK(slot_val[m->off + i] == k * 8 + i, "ring:value", "place %d does not hold what was put into it", m->off + i);
        MC_CHECK(!m->drained, "ring:twice", "message %d of producer %d is drained twice", m->seq, m->prod);
        m->drained = true;
        MC_CHECK(m->seq == next_seq_out[m->prod], "ring:order", "message %d of producer %d is drained, message %d was expected", m->seq, m->prod, next_seq_out[m->prod]);
        next_seq_out[m->prod]++;
        for (int j = 0; j < nm; j++) MC_CHECK(M[j].drained || !M[j].t_prod || M[j].t_prod > m->t_acq0, "ring:order", "message %d of producer %d is drained before message %d of producer %d, which was put in earlier", m->seq, m->prod, M[j].seq, M[j].prod);
        take += m->len;
    }
    /* the places can be reused from the moment that the release begins */
    for (size_t i = off; i < off + take; i++) owner[i] = 0;
    ringbuf_release(R, take);
    occ -= take;
    occ_changed();
    return take;
}
static void finish(void) {
    for (int i = 0; drain(0); i++) MC_CHECK(i < 50, "ring:endless", "draining does not end");
    for (int k = 0; k < nm; k++) MC_CHECK(M[k].drained, "ring:lost", "message %d of producer %d was accepted, but never drained", M[k].seq, M[k].prod);
    /* and all of the room can be used again */
    for (int round = 0; round < 2; round++) {
        int n = 0;
        while (n < space && put_begin(MAXP, 1)) { put_end(MAXP); n++; }
        MC_CHECK(n >= space - 1, "ring:room", "an empty queue of %d takes only %d messages", space, n);
        for (int i = 0; drain(0); i++) MC_CHECK(i < 50, "ring:endless", "draining does not end");
        for (int k = 0; k < nm; k++) MC_CHECK(M[k].drained, "ring:lost", "message %d of producer %d was accepted, but never drained", M[k].seq, M[k].prod);
    }
}
/* ------------------------------------------------------------- sequential */
static int depth_; static int maxlen;
static void s_seq(long arg) {
    int np = arg & 3; bool pm = arg >> 2 & 1; maxlen = arg >> 4 & 7; depth_ = arg >> 12;
    mixed = maxlen > 1;
    setup(arg >> 8 & 15, pm ? np + 0 : 0, (pm ? 0 : np) + 1);
    mc_checkpoint();
    bool holding[MAXP] = { 0 };
    for (int d = 0; d < depth_; d++) {
        /* put (of each length) or complete for every producer; take everything, or one message */
        int nop = np * maxlen + 2;
        int o = mc_choose(nop, "operation");
        if (o >= np * maxlen) {
            int one = o - np * maxlen;
            /* the oldest message is complete: something must come */
            int oldest = -1;
            for (int k = 0; k < nm; k++) if (!M[k].drained) { oldest = k; break; }
            int n = drain(one);
            MC_CHECK(n || oldest < 0 || !M[oldest].produced, "ring:stuck", "nothing is drained although the oldest message is complete");
            if (!n && one) mc_prune();
            continue;
        }
        int p = o / maxlen, len = o % maxlen + 1;
        if (holding[p]) { if (len > 1) mc_prune(); put_end(p); holding[p] = false; }
        else if (len > space) mc_prune();
        else holding[p] = put_begin(p, len);
    }
    uint64_t h = 0;
    for (int k = 0; k < nm; k++) h = mc_hash(h ^ M[k].off, &M[k].drained, 1);
    for (int p = 0; p < np; p++) if (holding[p]) put_end(p);
    finish();
    mc_outcome(h);
}
/* ------------------------------------------------------------- concurrent */
static int per, np_, lens, lim_, producers_left, refused;
static void producer(void *a) {
    int p = (int)(long)a;
    for (int k = 0; k < per; k++) {
        int len = lens ? 1 + (p + k) % lens : 1;
        if (put_begin(p, len)) put_end(p); else refused++;
    }
    producers_left--;
}
static uint64_t seen;
static bool something(void *a) { (void)a; return ticks != seen || !producers_left; }
static void consumer(void *a) {
    (void)a;
    for (;;) {
        bool last = !producers_left;
        seen = ticks;
        if (drain(lim_)) continue;
        if (last) break;
        sim_wait_until(something, NULL);
    }
}
/* arg: producers, per producer, space, preloaded, perm, lens, lim, spare records */
static void s_conc(long arg) {
    np_ = arg & 3; per = arg >> 2 & 3; int sp = arg >> 4 & 15, pre = arg >> 8 & 7; bool pm = arg >> 11 & 1; lens = arg >> 12 & 3; lim_ = arg >> 14 & 1; int recs = arg >> 15 & 7, left = arg >> 18 & 7;
    mixed = lens > 0;
    setup(sp, pm ? np_ : 0, recs + (pm ? 1 : 0));
    /* the hands start somewhere else: so many messages have gone through, and so many are waiting */
    for (int i = 0; i < pre; i++) { if (put_begin(MAXP, 1)) put_end(MAXP); while (drain(0)); }
    for (int i = 0; i < left; i++) if (put_begin(MAXP, 1)) put_end(MAXP);
    producers_left = np_;
    mc_checkpoint();
    sim_sched_on = true;
    int t[MAXP], c;
    for (int p = 0; p < np_; p++) t[p] = sim_spawn("producer", producer, (void *)(long)p);
    c = sim_spawn("consumer", consumer, NULL);
    for (int p = 0; p < np_; p++) sim_join(t[p]);
    sim_join(c);
    sim_sched_on = false;
    int acc = nm;
    finish();
    uint64_t h = refused;
    for (int k = 0; k < acc; k++) h = mc_hash(h ^ M[k].off, &M[k].prod, sizeof(int));
    mc_outcome(h);
    if (mc_want_sample()) mc_sample("%d producers with %d messages each over %d places, %d waiting: %d accepted, %d refused", np_, per, sp, left, acc - left - pre, refused);
}
static void conc(int np, int per_, int sp, int pre, int left, bool pm, int lens_, int lim, int recs, int budget) {
    char nm_[160];
    sim_cfg.sched_budget = budget;
    snprintf(nm_, sizeof nm_, "%d producers, %d messages each, %d places, %d gone, %d waiting%s%s%s, %d records, %d preemptions", np, per_, sp, pre, left, pm ? ", registered" : "", lens_ ? ", several lengths" : "", lim ? ", taken singly" : "", recs, budget);
    sim_scenario(nm_, s_conc, np | per_ << 2 | sp << 4 | pre << 8 | pm << 11 | lens_ << 12 | lim << 14 | recs << 15 | left << 18);
}
void harness_init(void) {
    bool T = sim_thorough;
    memset(&sim_cfg, 0, sizeof sim_cfg);
    sim_cfg.max_steps = 5000; sim_cfg.max_sleeps = 50; sim_cfg.no_idle_check = true;
    static const char *pn[] = { "own", "registered" };
    for (int pm = 0; pm < 2; pm++) for (int sp = 2; sp <= (T ? 6 : 5); sp++) {
        char b[100];
        int d1 = T ? 11 : 9, d2 = T ? 8 : 6;
        snprintf(b, sizeof b, "history of %d, 2 producers, %d places, %s records", d1, sp, pn[pm]);
        sim_scenario(b, s_seq, 2 | pm << 2 | 1 << 4 | sp << 8 | d1 << 12);
        snprintf(b, sizeof b, "history of %d, 3 producers, %d places, %s records", d2, sp, pn[pm]);
        sim_scenario(b, s_seq, 3 | pm << 2 | 1 << 4 | sp << 8 | (d2 + 1) << 12);
        if (sp > 2) {
            snprintf(b, sizeof b, "history of %d, 2 producers, several lengths, %d places, %s records", d2, sp, pn[pm]);
            sim_scenario(b, s_seq, 2 | pm << 2 | (sp > 3 ? 3 : 2) << 4 | sp << 8 | d2 << 12);
            snprintf(b, sizeof b, "history of %d, 1 producer, several lengths, %d places, %s records", d1 - 1, sp, pn[pm]);
            sim_scenario(b, s_seq, 1 | pm << 2 | (sp > 3 ? 3 : 2) << 4 | sp << 8 | (d1 - 1) << 12);
        }
    }
    sim_cfg.mc = true; sim_cfg.races = 1;
    for (int sp = 2; sp <= 4; sp++) for (int pre = 0; pre < sp; pre++) for (int left = 0; left < (sp == 4 ? 2 : sp); left++) {
        conc(1, 3, sp, pre, left, false, 0, 0, 1, T ? (sp < 4 ? 5 : 4) : 3);
        conc(2, 1, sp, pre, left, false, 0, 0, 2, T ? 3 : 2);
        if (left < 2) conc(2, 2, sp, pre, left, false, 0, 0, 2, T && sp == 2 ? 3 : 2);
        if (T || left == 0) conc(2, 1, sp, pre, left, true, 0, 0, 2, T ? 3 : 2);
        if (T && left == 0) conc(3, 1, sp, pre, left, false, 0, 0, 3, 2);
        if (left <= 1) conc(2, 1, sp, pre, left, false, 0, 0, 1, 2);
        if (left <= 1) conc(2, 2, sp, pre, left, false, 0, 1, 2, 1);
    }
    for (int sp = 4; sp <= 6; sp++) for (int pre = 0; pre < sp; pre++) {
        conc(1, 3, sp, pre, 0, false, 3, 0, 1, T ? 4 : 3);
        conc(2, 2, sp, pre, pre & 1, false, 3, 0, 2, T ? 2 : 1);
        conc(2, 1, sp, pre, pre & 1, true, 3, 1, 2, 2);
    }
}

/* W17 W18 W19 W20 (and W23): connections that are served at the same time.
 * Clients act by small scripts; the server runs under every schedule up to a
 * bound; what each client has received is judged by the meaning of the
 * services (echo, broadcast, and an application that talks to others). */
#include "srv.h"
const char *harness_rule = "every order of the steps of the listed client scripts, with and without a pause before each of them, and every schedule of the server's threads at synchronisation operations and system calls up to the stated number of delays, on the running server";
#define IS(p) (!strcmp(sim_property, p))
extern void __tsan_init(void) __attribute__((weak));

/* ---------------------------------------------------------------- scripts
 * tokens "<client><op>": o/O/P connect and ask for broadcast/echo/probe,
 * k connect only, h first half of the upgrade request, H second half,
 * t text, b binary, f fragmented with a ping inside, l long text, p ping, c close frame,
 * e end of stream, x close, r reset, w window of 6 bytes, W of 40, u unlimited,
 * y wait until the upgrade is answered, q wait until everything is done,
 * T time passes, S the server is asked to stop */
typedef struct {
    const char *name, *setup, *act[3];
    int workers, queue, ring, faults; /* workers 0: 2 */
    void (*app)(int, int, int, char *, size_t);
    long timeout; int pings;
    uint32_t opts;
} sc_t;
enum { F_ACCEPT = 1, F_WAIT = 2, F_EAGAIN = 4, F_SHORT = 8, F_MALLOC = 16, F_ERR = 32, F_SPUR = 64, F_TLS = 128, F_EINTR = 256 };
enum { O_PAUSES = 1, O_TALK = 2, O_TLS = 4 /* clients 0 and 1 use TLS */, O_NOLOCK = 8, O_SELF = 16 };
static sc_t L[400]; static int nL;
#define MAXC 8
static struct cl { int c; char proto; int64_t ts_req, ts_open, ts_end; bool ended, reset, bad, windowed, halfreq; int nsent, npings; bool exists; } K[MAXC];
#define MAXM 64
static struct msg { int s, n, type; int64_t ts; bool sure, isping; char text[48]; int len; int got[MAXC]; } M[MAXM]; static int nM;
static int64_t clk;
static const sc_t *S;
static bool stopping;
static sim_mem_t base; static int base_news, base_frees; static int base_fds; static uint64_t base_seq;

static void upreq(int k, char proto, int part) {
    char b[1200];
    int n = ws_request(b, sizeof b, "/", proto == 'o' ? "broadcast" : proto == 'O' ? "echo" : "probe", NULL);
    if (part == 1) sim_send(K[k].c, b, n / 2); else if (part == 2) sim_send(K[k].c, b + n / 2, n - n / 2); else sim_send(K[k].c, b, n);
}
static bool answered(void *a) {
    size_t n; int k = (int)(long)a;
    const uint8_t *o = sim_out(K[k].c, &n);
    for (size_t i = 0; i + 4 <= n; i++) if (!memcmp(o + i, "\r\n\r\n", 4)) return true;
    return sim_server_closed(K[k].c);
}
static void saw(int k) { if (K[k].exists && !K[k].ts_open && answered((void *)(long)k) && !sim_server_closed(K[k].c)) K[k].ts_open = clk++; }
static void new_msg(int k, int type, const char *text, int len, bool isping) {
    if (nM == MAXM) { fprintf(stderr, "ENGINE ERROR: too many messages\n"); abort(); }
    struct msg *m = &M[nM++];
    memset(m, 0, sizeof *m);
    m->s = k; m->n = K[k].nsent++; m->type = type; m->ts = clk++; m->isping = isping;
    m->sure = !K[k].ended && !K[k].bad && K[k].ts_open;
    memcpy(m->text, text, len); m->len = len;
}
static void op(const char *t) {
    bool whole = t[0] == 'S' || t[0] == 'T'; /* not of one client */
    int k = whole ? 0 : t[0] - '0';
    char b[64];
    int n;
    struct cl *c = &K[k];
    bool tlsc = S->opts & O_TLS && k < 2;
    for (int i = 0; i < MAXC; i++) saw(i);
    if (sim_verbose) sim_trace("client %s", t);
    if (!whole && !c->exists && !strchr("oOPkh", t[1])) { MC_CHECK(stopping, "conc:refused", "the server does not listen"); return; }
    switch (whole ? t[0] : t[1]) {
        case 'o': case 'O': case 'P': case 'k': case 'h':
            c->c = sim_connect(tlsc ? TPORT : PORT);
            if (c->c < 0) { MC_CHECK(stopping, "conc:refused", "the server does not listen"); return; }
            c->exists = true; c->proto = t[1] == 'k' || t[1] == 'h' ? t[2] : t[1]; c->ts_req = clk++;
            if (tlsc) sim_send(c->c, "\x16", 1);
            if (t[1] == 'k') { c->halfreq = true; break; }
            if (t[1] == 'h') { c->halfreq = true; upreq(k, c->proto, 1); break; }
            upreq(k, c->proto, 0); break;
        case 'H': upreq(k, c->proto, 2); c->halfreq = false; break;
        case 'R': upreq(k, c->proto, 0); c->halfreq = false; break;
        case 'y': sim_wait_until(answered, (void *)(long)k); saw(k); break;
        case 't': n = sprintf(b, "%d:%d", k, c->nsent); new_msg(k, 1, b, n, false); ws_send(c->c, 0x81, b, n); break;
        case 'b': n = sprintf(b, "%d;%d%c%c", k, c->nsent, 0, 255); new_msg(k, 2, b, n, false); ws_send(c->c, 0x82, b, n); break;
        case 'l': n = sprintf(b, "%d:%d a longer message of this client", k, c->nsent); new_msg(k, 1, b, n, false); ws_send(c->c, 0x81, b, n); break;
        case 'f': n = sprintf(b, "%d:%d in parts", k, c->nsent); new_msg(k, 1, b, n, false); c->npings++; ws_send(c->c, 0x01, b, 3); ws_send(c->c, 0x89, "?", 1); sim_point(); ws_send(c->c, 0x80, b + 3, n - 3); break;
        case 'm': n = sprintf(b, "%d:%d", k, c->nsent); new_msg(k, 1, b, n, false); { uint8_t q[40]; size_t z = enc_frame(q, 0x81, true, b, n, 0x01020304); sim_send(c->c, q, 5); sim_point(); sim_send(c->c, q + 5, z - 5); } break;
        case 'p': c->npings++; ws_send(c->c, 0x89, "?", 1); break;
        case 'n': ws_send(c->c, 0x8a, "?", 1); break;
        case 'c': ws_send(c->c, 0x88, "\x03\xe8", 2); c->ended = true; c->ts_end = clk++; break;
        case 'v': ws_send(c->c, 0x83, "bad", 3); c->ended = true; c->ts_end = clk++; break;
        case 'e': sim_shutdown_client(c->c); c->ended = true; c->ts_end = clk++; break;
        case 'x': sim_close_client(c->c); c->ended = c->bad = true; c->ts_end = clk++; break;
        case 'r': sim_reset_client(c->c); c->ended = c->bad = c->reset = true; c->ts_end = clk++; break;
        case 'w': sim_window(c->c, 6); c->windowed = true; break;
        case 'z': sim_window(c->c, 0); c->windowed = true; break;
        case 'W': sim_window(c->c, 40); c->windowed = true; break;
        case 'u': sim_window(c->c, -1); c->windowed = false; break;
        case 'q': sim_quiesce(); break;
        case 'T': sim_advance(60); break;
        case 'S': stopping = true; sim_raise(SIGINT); break;
        default: fprintf(stderr, "ENGINE ERROR: op %s\n", t); abort();
    }
}

/* ------------------------------------------------------------------ judge */
static int tag_of(const char *p, size_t n) { for (int i = 0; i < nM; i++) if ((size_t)M[i].len == n && !memcmp(M[i].text, p, n)) return i; return -1; }
/* the service delivers message m to client k */
static int wanted(int m, int k) { /* 0 never, 1 may, 2 must */
    struct cl *s = &K[M[m].s], *r = &K[k];
    if (r->proto == 'o') {
        if (s->proto != 'o' || M[m].s == k) return 0;
        if (!M[m].sure || s->windowed) return 1;
        if (r->ts_open && r->ts_open < M[m].ts && !r->ended && !r->windowed) return 2;
        return 1;
    }
    if (r->proto == 'O') { if (M[m].s != k) return 0; return M[m].sure && !r->bad && !r->ended && !r->windowed ? 2 : M[m].sure && !r->bad ? 1 : 1; }
    /* the application: echoes and, if it talks, sends to all other clients of its own */
    if (M[m].s == k) return S->opts & O_SELF ? (M[m].sure && !r->ended && !r->bad && !r->windowed ? 2 : 1) : S->opts & O_TALK ? 0 : M[m].sure && !r->ended && !r->bad && !r->windowed ? 2 : 1;
    if (S->opts & O_TALK && s->proto == 'P') return M[m].sure && !s->windowed && r->ts_open && r->ts_open < M[m].ts && !r->ended && !r->windowed ? 2 : 1;
    return 0;
}
static void judge(void) {
    for (int k = 0; k < MAXC; k++) {
        struct cl *r = &K[k];
        if (!r->exists) continue;
        int c = r->c;
        opos[c] = 0;
        size_t outn; const uint8_t *out = sim_out(c, &outn);
        if (r->halfreq) { /* never asked completely */ MC_CHECK(outn == 0, "conc:stray", "client %d has not sent a complete request, but receives %s", k, hexs(out, outn)); continue; }
        int code = take_response(c, NULL, 0);
        if (!code) { MC_CHECK(r->ended || stopping || outn == 0 || r->windowed, "conc:response", "client %d receives %s instead of an answer", k, hexs(out, outn)); MC_CHECK(r->ended || stopping || r->windowed, "conc:unanswered", "client %d never receives an answer to its request", k); if (!r->windowed && !r->reset) MC_CHECK(outn == 0, "conc:response", "client %d receives %s before the answer to its request", k, hexs(out, outn)); continue; }
        MC_CHECK(code == 101, "conc:response", "client %d: its upgrade is answered with %d", k, code);
        uint8_t b[200]; size_t n; int t, pongs = 0, closes = 0, last[MAXC], pos = 0;
        memset(last, -1, sizeof last);
        while ((t = out_msg(c, b, sizeof b, &n)) > 0) {
            pos++;
            MC_CHECK(!closes, "conc:after-close", "client %d receives something after a close frame", k);
            if (t == 8) { closes++; continue; }
            if (t == 9) { MC_CHECK(S->pings, "conc:stray", "client %d receives a ping", k); continue; }
            if (t == 10) { pongs++; MC_CHECK(n == 1 && *b == '?', "conc:pong", "client %d receives the pong %s", k, hexs(b, n)); continue; }
            if (n == 5 && !memcmp(b, "hello", 5)) { MC_CHECK(r->proto == 'P' && S->app, "conc:stray", "client %d receives a greeting of another service", k); continue; }
            if (n == 3 && !memcmp(b, "bye", 3)) { MC_CHECK(r->proto == 'P' && S->app, "conc:stray", "client %d receives a greeting of another service", k); continue; }
            int m = tag_of((char *)b, n);
            MC_CHECK(m >= 0, "conc:damaged", "client %d receives a message that nobody sent: %s", k, hexs(b, n));
            MC_CHECK(t == M[m].type, "conc:type", "client %d receives message %s with type %d instead of %d", k, M[m].text, t, M[m].type);
            MC_CHECK(wanted(m, k), "conc:stray", "client %d receives message %s, which is not for it", k, M[m].text);
            MC_CHECK(++M[m].got[k] == 1, "conc:twice", "client %d receives message %s twice", k, M[m].text);
            MC_CHECK(last[M[m].s] < M[m].n, "conc:order", "client %d receives message %s after a later one of that client", k, M[m].text);
            last[M[m].s] = M[m].n;
        }
        bool broken = t != 0;
        if (broken) MC_CHECK(t == -1 && (r->ended || r->windowed || stopping || sim_server_closed(c)), "conc:damaged", "client %d receives damaged frames (%d): %s", k, t, hexs(out + opos[c], outn - opos[c]));
        if (stopping) continue;
        for (int m = 0; m < nM; m++) if (wanted(m, k) == 2) MC_CHECK(M[m].got[k] == 1, "conc:lost", "client %d never receives message %s", k, M[m].text);
        if (!r->ended) MC_CHECK(pongs == r->npings, "conc:pong", "client %d receives %d pongs for %d pings", k, pongs, r->npings);
        else MC_CHECK(pongs <= r->npings, "conc:pong", "client %d receives %d pongs for %d pings", k, pongs, r->npings);
        MC_CHECK(r->ended || !closes, "conc:closed", "client %d receives a close frame without reason", k);
    }
}
static void boot(long arg) {
    S = &L[arg];
    if (S->opts & O_TLS) { cfg.ssl_key = "key"; cfg.ssl_cert = "cert"; cfg.ssl_ca_file = "ca"; }
    if (S->workers) cfg.pool_workers = S->workers; else cfg.pool_workers = 2;
    if (S->queue) cfg.size_thread = S->queue;
    if (S->ring) cfg.size_ringbuffer = S->ring;
    cfg.pool_retries = 1;
    if (S->timeout) { cfg.timeout_client = S->timeout; cfg.timeout_pings = S->pings; }
    probe_hook = S->app;
    if (S->opts & O_TALK) probe_echo = false;
    clk = 1;
    srv_start();
    still_serving("the start");
    if (S->opts & O_TLS) { int c = ws_open_ex(TPORT, "probe", NULL, NULL, 0); sim_close_client(c); sim_quiesce(); base_news = tls.news; base_frees = tls.frees; }
    base = sim_live(); base_fds = sim_open_fds(); base_seq = sim_alloc_seq();
    for (const char *p = S->setup; *p;) {
        char t[8]; int i = 0;
        while (*p == ' ') p++;
        while (*p && *p != ' ') t[i++] = *p++;
        t[i] = 0;
        if (!i) break;
        op(t); sim_quiesce();
        for (int k = 0; k < MAXC; k++) saw(k);
    }
    sim_quiesce();
}
static bool closing_done(void) { for (int k = 0; k < MAXC; k++) if (K[k].exists && (sim_accepted(K[k].c) || !sim_is_reset(K[k].c)) && !sim_server_closed(K[k].c)) return false; return true; }
static void s_script(long arg) {
    boot(arg);
    mc_checkpoint();
    const char *pos[3] = { S->act[0], S->act[1], S->act[2] };
    sim_sched_on = true; sim_faults_on = true;
    if (S->faults & F_TLS) tls.f_read = tls.f_write = tls.f_partial = tls.f_shut_read = tls.f_shut_write = tls.check_retry = true;
    for (bool first = true;; first = false) {
        int av[3], n = 0;
        for (int i = 0; i < 3; i++) { while (pos[i] && *pos[i] == ' ') pos[i]++; if (pos[i] && *pos[i]) av[n++] = i; }
        if (!n) break;
        int a = av[n > 1 ? mc_choose(n, "who") : 0];
        if (!first && S->opts & O_PAUSES && mc_choose(2, "pause")) sim_quiesce();
        char t[8]; int i = 0;
        while (*pos[a] && *pos[a] != ' ') t[i++] = *pos[a]++;
        t[i] = 0;
        op(t);
        sim_point();
    }
    if (S->timeout) { for (int i = 0; i < 4; i++) { sim_advance(S->timeout / 4); sim_quiesce(); } }
    if (!stopping) sim_quiesce();
    sim_sched_on = sim_faults_on = false;
    /* a connection that was aborted before it was accepted, or that a failing call has cost */
    for (int k = 0; k < MAXC; k++) if (K[k].exists && ((S->faults & F_ACCEPT && !sim_accepted(K[k].c) && sim_is_reset(K[k].c)) || (S->faults & F_ERR && k == 0 && sim_server_closed(K[k].c)))) { K[k].ended = K[k].bad = K[k].reset = true; for (int i = 0; i < nM; i++) if (M[i].s == k) M[i].sure = false; }
    uint64_t hsh = 0;
    for (int k = 0; k < MAXC; k++) if (K[k].exists) { saw(k); size_t n; const uint8_t *o = sim_out(K[k].c, &n); hsh = mc_hash(hsh + k, o, n); }
    mc_outcome(hsh);
    if (stopping) {
        sim_join(srv_tid);
        MC_CHECK(srv_ret == 0, "stop:status", "the server returns %d", srv_ret);
        MC_CHECK(sim_live_threads() == 0, "stop:threads", "%d threads are left\n%s", sim_live_threads(), sim_threads_text());
        for (int fd = 0; fd < 128; fd++) MC_CHECK(!open_fd_state[fd], "stop:reported", "the application is not told of the end of the connection with descriptor %d", fd);
        for (int k = 0; k < MAXC; k++) if (K[k].exists && sim_accepted(K[k].c)) MC_CHECK(sim_server_closed(K[k].c) && sim_conn_closes(K[k].c) == 1, "stop:closed", "connection %d is closed %d times", k, sim_conn_closes(K[k].c));
        sim_mem_t m = sim_live();
        extern sim_mem_t boot_mem; extern uint64_t boot_seq; extern int boot_fds;
        MC_CHECK(m.blocks == boot_mem.blocks, "stop:leak", "%lld blocks are not released\n%s", (long long)(m.blocks - boot_mem.blocks), sim_live_text(boot_seq));
        MC_CHECK(sim_open_fds() == boot_fds, "stop:fds", "%d descriptors are left open", sim_open_fds() - boot_fds);
        judge();
        return;
    }
    if (!S->timeout && !(S->faults & F_MALLOC)) {
        for (int k = 0; k < MAXC; k++) if (K[k].exists) {
            if (K[k].ended && !K[k].windowed && (sim_accepted(K[k].c) || !sim_is_reset(K[k].c))) MC_CHECK(sim_server_closed(K[k].c), "conc:open", "client %d has gone away, but its connection is not closed", k);
            if (!K[k].ended) MC_CHECK(!sim_server_closed(K[k].c), "conc:closed", "client %d is disconnected without reason", k);
            if (!K[k].ended) MC_CHECK(sim_unread(K[k].c) == 0 || K[k].windowed, "conc:unread", "%zu bytes of client %d are never read", sim_unread(K[k].c), k);
        }
        judge();
    }
    /* each client is served still */
    if (!S->timeout && !(S->faults & F_MALLOC)) for (int k = 0; k < MAXC; k++) if (K[k].exists && !K[k].ended && K[k].ts_open && !K[k].windowed) {
        size_t n0, n1; sim_out(K[k].c, &n0);
        ws_send(K[k].c, 0x89, "alive", 5); sim_quiesce();
        const uint8_t *o = sim_out(K[k].c, &n1);
        MC_CHECK(n1 == n0 + 7 && o[n0] == 0x8a && !memcmp(o + n0 + 2, "alive", 5), "conc:deaf", "client %d is not served any more: its ping is answered by %s", k, hexs(o + n0, n1 - n0));
    }
    for (int k = 0; k < MAXC; k++) if (K[k].exists && (sim_accepted(K[k].c) || !sim_is_reset(K[k].c))) { if (!K[k].ended) { if (K[k].windowed) sim_reset_client(K[k].c); else sim_close_client(K[k].c); sim_quiesce(); } else if (!sim_server_closed(K[k].c)) { sim_reset_client(K[k].c); sim_quiesce(); } }
    MC_CHECK(closing_done(), "conc:open", "a connection is not closed although its client has gone away");
    for (int k = 0; k < MAXC; k++) if (K[k].exists && (sim_accepted(K[k].c) || !sim_is_reset(K[k].c))) MC_CHECK(sim_conn_closes(K[k].c) == 1, "conc:closes", "the descriptor of client %d is closed %d times", k, sim_conn_closes(K[k].c));
    for (int fd = 0; fd < 128; fd++) MC_CHECK(!open_fd_state[fd], "conc:reported", "the application is not told of the end of the connection with descriptor %d", fd);
    sim_mem_t m = sim_live();
    MC_CHECK(tls.news - base_news == tls.frees - base_frees, "conc:tls", "%d TLS objects are made and %d released", tls.news, tls.frees);
    MC_CHECK(m.blocks == base.blocks, "conc:leak", "%lld blocks are left\n%s", (long long)(m.blocks - base.blocks), sim_live_text(base_seq));
    MC_CHECK(sim_open_fds() == base_fds, "conc:fds", "%d descriptors are left open", sim_open_fds() - base_fds);
    still_serving("all that");
    if (mc_want_sample()) mc_sample("%s: %d messages among %d clients, all accounted for", S->name, nM, base_fds ? MAXC : 0);
}
sim_mem_t boot_mem; uint64_t boot_seq; int boot_fds;
static void s_stop(long arg) { boot_mem = sim_live(); boot_seq = sim_alloc_seq(); boot_fds = sim_open_fds(); s_script(arg); }

/* ------------------------------------------------------------ application */
/* sends to every other connection of its own that is open, also when one
 * connects or closes; like the broadcast service, with a lock of its own */
#include <pthread.h>
static pthread_rwlock_t app_lock; static bool app_open[128];
static void app_talk(int type, int fd, int opc, char *msg, size_t len) {
    bool guard = !(S->opts & O_NOLOCK); /* without reused descriptors it gets along without */
    if (type != EV_MESSAGE) {
        if (guard) pthread_rwlock_wrlock(&app_lock);
        app_open[fd] = type == EV_CONNECT;
        if (guard) pthread_rwlock_unlock(&app_lock);
    }
    if (guard) pthread_rwlock_rdlock(&app_lock);
    for (int i = 0; i < 128; i++) if (app_open[i] && (i != fd || S->opts & O_SELF)) {
        if (type == EV_CONNECT) psend(i, 1, "hello", 5);
        else if (type == EV_CLOSE) psend(i, 1, "bye", 3);
        else psend(i, opc, msg, len);
    }
    if (guard) pthread_rwlock_unlock(&app_lock);
}
/* how deep each scenario is explored: preemptions and delays, for the quick
 * and the thorough check, and preemptions in the build that watches memory */
static const struct { const char *name; signed char pq, pt, dq, dt, mq, mt; } B[] = {
#include "conc_bounds.h"
    { NULL, 1, 2, 2, 3, 0, 1 }
};
static void add(sc_t s) {
    bool tsan = __tsan_init != NULL;
    L[nL] = s;
    sim_cfg.mc = true; sim_cfg.sp_sync = sim_cfg.sp_sys = true;
    sim_cfg.f_accept = s.faults & F_ACCEPT; sim_cfg.f_eintr_wait = s.faults & F_WAIT; sim_cfg.f_eagain_write = s.faults & F_EAGAIN; sim_cfg.f_short_write = s.faults & F_SHORT; sim_cfg.f_malloc = s.faults & F_MALLOC; sim_cfg.f_err_write = sim_cfg.f_err_read = s.faults & F_ERR; sim_cfg.f_spurious = s.faults & F_SPUR;
    sim_cfg.f_eintr_read = sim_cfg.f_eintr_write = s.faults & F_EINTR;
    sim_cfg.fault_budget = s.faults ? 1 : 0;
    sim_cfg.fault_conns = s.faults & F_ERR ? 2 : 0; /* those of client 0 */
    bool stop = false;
    for (int i = 0; i < 3; i++) if (s.act[i] && strchr(s.act[i], 'S')) stop = true;
    char b[240], nm[300];
    snprintf(b, sizeof b, "%s [%s | %s | %s | %s] %dw q%d%s%s%s", s.name, s.setup, s.act[0], s.act[1] ? s.act[1] : "", s.act[2] ? s.act[2] : "", s.workers ? s.workers : 2, s.queue ? s.queue : 64, s.opts & O_TLS ? " TLS" : "", s.faults ? " faults" : "", s.app ? " app" : "");
    int k = 0;
    while (B[k].name && strcmp(B[k].name, b)) k++;
    const char *tp = getenv("CONC_P"), *td = getenv("CONC_D");
    for (int delays = 0; delays <= !tsan; delays++) {
        if ((tp && delays) || (td && !delays)) continue;
        sim_cfg.delay_bound = delays;
        sim_cfg.sched_budget = delays ? (sim_thorough ? B[k].dt : B[k].dq) : tsan ? (sim_thorough ? B[k].mt : B[k].mq) : sim_thorough ? B[k].pt : B[k].pq;
        if (tp || td) sim_cfg.sched_budget = atoi(tp ? tp : td);
        snprintf(nm, sizeof nm, "%s, %d %s", b, sim_cfg.sched_budget, delays ? "delays" : "preemptions");
        sim_scenario(nm, stop ? s_stop : s_script, nL);
    }
    nL++;
}
void harness_init(void) {
    memset(&sim_cfg, 0, sizeof sim_cfg);
    sim_cfg.max_steps = 2000000; sim_cfg.max_sleeps = 60;
    sim_cfg.races = 1;
    srv_defaults();
#define A(n, st, a, b, c, ...) add((sc_t){ .name = n, .setup = st, .act = { a, b, c }, __VA_ARGS__ })
    if (IS("W20")) {
        A("at once", "0o 1o 2o", "0t", "1t", NULL, .opts = O_PAUSES);
        A("at once", "0o 1o 2o", "0t", "1t", "2b", .opts = O_PAUSES);
        A("at once", "0o 1o 2o", "0t", "1t", "2t", .opts = O_PAUSES | O_TLS);
        A("leaving", "0o 1o 2o", "0t 2t", "1x", NULL, .opts = O_PAUSES | O_TLS);
        A("at once", "0o 1o 2O", "0t 0b", "1t 2t", NULL, .opts = O_PAUSES);
        A("in order", "0o 1o", "0t 0t 0b", NULL, NULL, .opts = O_PAUSES);
        A("in order", "0o 1o 2o", "0t 0f", NULL, NULL, .opts = O_PAUSES);
        A("in order", "0o 1o 2o", "0t 0t", "1t 1t", NULL, .opts = O_PAUSES);
        A("order under pressure", "0o 1o", "1w 0t 0l 1u", NULL, NULL, .opts = O_PAUSES);
        A("joining", "0o 1o", "0t", "2o", NULL, .opts = O_PAUSES);
        A("joining", "0o 1o", "0t 0t", "2o 2y 2t", NULL, .opts = O_PAUSES);
        A("joining at once", "0o", "1o 1y 1t", "2o 2y 2t", NULL, .opts = O_PAUSES);
        A("joining at once", "0o 3O", "0t", "1o", "2o", .opts = O_PAUSES);
        A("joining at once", "0o", "1o 2o 0q 0t", NULL, NULL, .opts = 0);
        A("leaving at once", "0o 1o 2o 3o", "1e 2e 0q 0t", NULL, NULL, .opts = 0);
        A("joining and leaving at once", "0o 1o", "2o 1e 0q 0t", NULL, NULL, .opts = 0);
        A("leaving", "0o 1o 2o", "0t", "2c", NULL, .opts = O_PAUSES);
        A("leaving", "0o 1o 2o", "0t", "2e", NULL, .opts = O_PAUSES);
        A("leaving", "0o 1o 2o", "0t", "2x", NULL, .opts = O_PAUSES);
        A("leaving", "0o 1o 2o", "0t", "2r", NULL, .opts = O_PAUSES);
        A("the sender leaves", "0o 1o 2o", "0t 0c", NULL, NULL, .opts = O_PAUSES);
        A("the sender leaves", "0o 1o 2o", "0t 0e", "1t", NULL, .opts = O_PAUSES);
        A("the sender leaves", "0o 1o 2o", "0t 0b 0e", "1x", NULL, .opts = O_PAUSES);
        A("replaced", "0o 1o 2o", "0t", "2x 3O 3y 3t", NULL, .opts = O_PAUSES);
        A("replaced", "0o 1o 2o", "0t 0t", "2r 3o", NULL, .opts = O_PAUSES);
        A("replaced", "0o 1o 2O", "0t", "2x 3o 3y", "1t", .opts = O_PAUSES);
        A("partial writes", "0o 1o 2o", "0t", "1t", NULL, .faults = F_EAGAIN | F_SHORT, .opts = O_PAUSES);
        A("three workers", "0o 1o 2o", "0t", "1t", "2t", .workers = 3, .opts = O_PAUSES);
    }
    if (IS("W17")) {
        A("connecting", "", "0P", "1O", NULL, .opts = O_PAUSES);
        A("connecting", "", "0P", "1O", "2o", .opts = O_PAUSES);
        A("connecting in parts", "", "0hP 0H", "1O", NULL, .opts = O_PAUSES);
        A("connecting, then data", "", "0kO 0R 0y 0t 0e", NULL, NULL, .opts = O_PAUSES);
        A("data during service", "0O", "0t 0t 0b", NULL, NULL, .opts = O_PAUSES);
        A("data during service", "0P", "0m 0f", NULL, NULL, .opts = O_PAUSES);
        A("data during service", "0P", "0f 0p 0t", NULL, NULL, .opts = O_PAUSES);
        A("end of stream during service", "0O", "0t 0e", NULL, NULL, .opts = O_PAUSES);
        A("end during service", "0O 1P", "0t 0x", "1t 1e", NULL, .opts = O_PAUSES);
        A("close during service", "0O", "0t 0c", NULL, NULL, .opts = O_PAUSES);
        A("reset during service", "0P", "0t 0r", NULL, NULL, .opts = O_PAUSES);
        A("becoming writable", "0O", "0w 0t 0u 0t", NULL, NULL, .opts = O_PAUSES);
        A("becoming writable", "0P", "0w 0t 0l 0W 0u", NULL, NULL, .opts = O_PAUSES);
        A("becoming writable", "0o 1o", "0w 1l 0W 0u 1t 0t", NULL, NULL, .opts = O_PAUSES);
        A("becoming writable while others write", "0o 1o 2o", "0z 1t", "2t 0u", NULL, .opts = O_PAUSES);
        A("becoming writable, end of stream", "0O", "0w 0t 0e 0u", NULL, NULL, .opts = O_PAUSES);
        A("connecting", "", "0P", "1O", NULL, .opts = O_PAUSES | O_TLS);
        A("connecting, then data", "", "0kO 0R 0y 0t 0e", NULL, NULL, .opts = O_PAUSES | O_TLS);
        A("data during service", "0O", "0t 0t 0b", NULL, NULL, .opts = O_PAUSES | O_TLS);
        A("data during service", "0P", "0m 0f", NULL, NULL, .opts = O_PAUSES | O_TLS);
        A("end during service", "0O 1P", "0t 0x", "1t 1e", NULL, .opts = O_PAUSES | O_TLS);
        A("becoming writable", "0o 1o", "0w 1l 0W 0u 1t 0t", NULL, NULL, .opts = O_PAUSES | O_TLS);
        A("becoming writable", "0P", "0w 0t 0l 0W 0u", NULL, NULL, .opts = O_PAUSES | O_TLS);
        A("TLS layer waits", "0O", "0t 0t", NULL, NULL, .faults = F_TLS, .opts = O_PAUSES | O_TLS);
        A("TLS layer waits", "", "0P", "1O", NULL, .faults = F_TLS, .opts = O_PAUSES | O_TLS);
        A("TLS layer waits", "0o 1o", "0t", "1t", NULL, .faults = F_TLS, .opts = O_PAUSES | O_TLS);
        A("failing accept", "", "0P", "1O", NULL, .faults = F_ACCEPT | F_WAIT, .opts = O_PAUSES);
        A("failing writes", "0O 1o 2o", "0t", "1t", NULL, .faults = F_EAGAIN | F_SHORT | F_WAIT, .opts = O_PAUSES);
        A("interrupted calls", "0O", "0t 0e", NULL, NULL, .faults = F_EINTR, .opts = O_PAUSES);
        A("interrupted calls", "0O 1P", "0t 0x", "1t 1e", NULL, .faults = F_EINTR, .opts = O_PAUSES);
        A("interrupted calls", "0P", "0w 0t 0l 0W 0u", NULL, NULL, .faults = F_EINTR, .opts = O_PAUSES);
        A("interrupted calls", "", "0hP 0H 0t 0e", NULL, NULL, .faults = F_EINTR, .opts = O_PAUSES);
        A("interrupted calls", "0O", "0t", "1kO 1e", NULL, .faults = F_EINTR | F_WAIT, .opts = O_PAUSES);
        A("interrupted calls", "0o 1o", "0t 0e", "1t 1e", NULL, .faults = F_EINTR, .opts = O_PAUSES | O_TLS);
        for (int q = 1; q <= 2; q++) for (int w = 1; w <= 2; w++) {
            A("full queue", "0O 1O 2O", "0t", "1t", "2t", .queue = q, .workers = w, .opts = O_PAUSES);
            A("full queue", "0o 1o 2O", "0t 0b", "1t 1e", "2t 2x", .queue = q, .workers = w, .opts = O_PAUSES);
            A("full queue", "0O", "0t", "1O", "2O", .queue = q, .workers = w, .opts = O_PAUSES);
            A("full queue", "0O 1O 2P 3P", "0w 0t", "1t 2t", "3t 0u", .queue = q, .workers = w, .opts = O_PAUSES);
        }
    }
    if (IS("W18")) {
        A("sent to while closing", "0o 1o", "0t", "1c", NULL, .opts = O_PAUSES);
        A("sent to while closing", "0o 1o", "0t", "1e", NULL, .opts = O_PAUSES);
        A("sent to while closing", "0o 1o", "0t", "1r", NULL, .opts = O_PAUSES);
        A("sent to while closing", "0P 1P", "0t", "1x", NULL, .app = app_talk, .opts = O_TALK | O_PAUSES);
        A("sent to while closing", "0P 1P 2P", "0t", "1c", "2t", .app = app_talk, .opts = O_TALK | O_PAUSES);
        A("closing both", "0P 1P", "0t 0c", "1t 1x", NULL, .app = app_talk, .opts = O_TALK | O_PAUSES);
        A("closing both", "0P 1P", "0c", "1c", NULL, .app = app_talk, .opts = O_TALK | O_PAUSES);
        A("closing both", "0P 1P", "0r", "1e", NULL, .app = app_talk, .opts = O_TALK | O_PAUSES);
        A("sent to while closing", "0o 1o", "0t", "1c", NULL, .opts = O_PAUSES | O_TLS);
        A("sent to while closing", "0P 1P", "0t", "1x", NULL, .app = app_talk, .opts = O_TALK | O_PAUSES | O_TLS);
        A("closing both", "0P 1P", "0r", "1e", NULL, .app = app_talk, .opts = O_TALK | O_PAUSES | O_TLS);
        A("TLS layer waits", "0o 1o", "0t", "1c", NULL, .faults = F_TLS, .opts = O_PAUSES | O_TLS);
        A("TLS layer waits", "0P 1P", "0t 0e", "1x", NULL, .app = app_talk, .faults = F_TLS, .opts = O_TALK | O_PAUSES | O_TLS);
        A("descriptor reused", "0o 1o", "0t", "1r 2O", NULL, .opts = O_PAUSES | O_TLS);
        A("no lock in the application", "0P 1P", "0t", "1t 1c", NULL, .app = app_talk, .opts = O_TALK | O_PAUSES | O_NOLOCK);
        A("no lock in the application", "0P 1P", "0t 0x", "1t 1x", NULL, .app = app_talk, .opts = O_TALK | O_PAUSES | O_NOLOCK | O_SELF);
        A("violation while sent to", "0o 1o", "0t", "1v", NULL, .opts = O_PAUSES);
        A("close and reset", "0P 1o", "0c 0r", NULL, NULL, .opts = O_PAUSES);
        A("close and end", "0P", "0c 0e", NULL, NULL, .opts = O_PAUSES);
        A("data and reset", "0P", "0t 0l 0r", NULL, NULL, .opts = O_PAUSES);
        A("blocked and reset", "0o 1o", "1z 0t 0t 1r", NULL, NULL, .opts = O_PAUSES);
        A("blocked and closed", "0o 1o", "1w 0t 1c 1u", NULL, NULL, .opts = O_PAUSES);
        A("descriptor reused", "0o 1o", "0t", "1r 2O", NULL, .opts = O_PAUSES);
        A("descriptor reused", "0o 1o", "0t 0t", "1x 2O 2y 2t", NULL, .opts = O_PAUSES);
        A("descriptor reused", "0P 1P", "0t", "1r 2O", NULL, .app = app_talk, .opts = O_TALK | O_PAUSES);
        A("descriptor reused", "0o 1o", "0t", "1e 2P", "3O", .opts = O_PAUSES);
        A("descriptor reused", "0o", "1kO 1x 2O 2y 2t", "0t", NULL, .opts = O_PAUSES);
        A("never upgraded", "", "0kO 0r", "1kO 1e", NULL, .opts = O_PAUSES);
        A("never upgraded", "0o", "1hO 1x", "2O", NULL, .opts = O_PAUSES);
        A("failing writes", "0o 1o 2o", "0t", "1t", NULL, .faults = F_ERR, .opts = O_PAUSES);
        A("failing allocations", "0o 1o 2o", "0t", "1c", NULL, .faults = F_MALLOC, .opts = O_PAUSES);
        A("spurious wake-ups", "0o 1o", "0t", "1c", NULL, .faults = F_SPUR, .opts = O_PAUSES);
        A("spurious wake-ups", "0P 1P", "0t 0x", "1t 1x", NULL, .app = app_talk, .faults = F_SPUR, .opts = O_TALK | O_PAUSES);
        A("interrupted calls", "0o 1o", "0t 0e", "1t 1c", NULL, .faults = F_EINTR, .opts = O_PAUSES);
        A("interrupted calls", "0P 1P", "0t 0e", "1t 1x", NULL, .app = app_talk, .faults = F_EINTR, .opts = O_TALK | O_PAUSES);
        A("three workers", "0o 1o", "0t", "1t 1c", "2O", .workers = 3, .opts = O_PAUSES);
        A("time-out while sent to", "0o 1o", "0t 0t", NULL, NULL, .timeout = 100, .opts = O_PAUSES);
        A("time-out while closing", "0P 1o", "0c", "1e", NULL, .timeout = 100, .opts = O_PAUSES);
        A("time-out while sent to", "0P 1P", "0t", "1t", NULL, .timeout = 100, .pings = 2, .app = app_talk, .opts = O_TALK | O_PAUSES);
    }
    if (IS("W19")) {
        A("to each other", "0P 1P", "0t", "1t", NULL, .app = app_talk, .opts = O_TALK | O_PAUSES);
        A("to each other", "0P 1P 2P", "0t", "1t", "2t", .app = app_talk, .opts = O_TALK | O_PAUSES);
        A("to each other", "0P 1P 2P", "0t", "1t", "2t", .app = app_talk, .opts = O_TALK | O_PAUSES, .workers = 3);
        A("broadcasts", "0o 1o", "0t", "1t", NULL, .opts = O_PAUSES);
        A("broadcasts", "0o 1o 2o", "0t", "1t", "2t", .workers = 3, .opts = O_PAUSES);
        A("broadcasts", "0o 1o", "0t 0t", "1t 1t", NULL, .opts = O_PAUSES);
        A("to oneself", "0O 1P", "0t 0t", "1t 1p", NULL, .opts = O_PAUSES);
        A("to all and oneself", "0P 1P", "0t", "1t", NULL, .app = app_talk, .opts = O_TALK | O_PAUSES | O_SELF);
        A("to all and oneself", "0P 1P", "0t 0c", "1t 1e", NULL, .app = app_talk, .opts = O_TALK | O_PAUSES | O_SELF);
        A("to all and oneself", "0P 1P 2P", "0t", "1t", "2c", .app = app_talk, .opts = O_TALK | O_PAUSES | O_SELF, .workers = 3);
        A("to each other", "0P 1P", "0t", "1t", NULL, .app = app_talk, .opts = O_TALK | O_PAUSES | O_TLS);
        A("TLS layer waits", "0P 1P", "0t", "1t", NULL, .app = app_talk, .faults = F_TLS, .opts = O_TALK | O_PAUSES | O_TLS);
        A("closing", "0o 1o 2o", "0c", "1e", "2t", .workers = 3, .opts = O_PAUSES | O_TLS);
        A("connecting", "0P", "0t", "1P", NULL, .app = app_talk, .opts = O_TALK | O_PAUSES);
        A("connecting", "0P", "1P", "2P", NULL, .app = app_talk, .opts = O_TALK | O_PAUSES);
        A("connecting", "0o", "0t", "1o", "2o", .workers = 3, .opts = O_PAUSES);
        A("closing", "0P 1P", "0t", "1c", NULL, .app = app_talk, .opts = O_TALK | O_PAUSES);
        A("closing", "0P 1P 2P", "0c", "1e", NULL, .app = app_talk, .opts = O_TALK | O_PAUSES);
        A("closing", "0P 1P 2P", "0c", "1e", "2t", .app = app_talk, .opts = O_TALK | O_PAUSES);
        A("closing", "0o 1o 2o", "0c", "1e", "2t", .workers = 3, .opts = O_PAUSES);
        A("connecting and closing", "0P 1P", "0x", "1t", "2P", .app = app_talk, .opts = O_TALK | O_PAUSES);
        A("connecting and closing", "0o 1o", "0x", "1t", "2o", .opts = O_PAUSES);
        A("one does not read", "0P 1P 2P", "0z 1t", "2t 0u", NULL, .app = app_talk, .opts = O_TALK | O_PAUSES);
        A("all do not read", "0o 1o", "0z 1z 0t 1t", "0t 1t 0u 1u", NULL, .opts = O_PAUSES);
        A("pings while sending", "0o 1o", "0t", "1t", NULL, .timeout = 100, .pings = 2, .opts = O_PAUSES);
        A("full queue", "0P 1P 2P", "0t", "1t", "2t", .app = app_talk, .opts = O_TALK | O_PAUSES, .queue = 1);
        A("failing writes", "0P 1P", "0t", "1t", NULL, .app = app_talk, .opts = O_TALK | O_PAUSES, .faults = F_EAGAIN | F_ERR | F_SHORT);
    }
    if (IS("W23")) {
        A("idle", "", "S", NULL, NULL, .opts = O_PAUSES);
        A("idle", "0o 1P 2O", "S", NULL, NULL, .opts = O_PAUSES);
        A("stopped twice", "0o 1P", "S S", NULL, NULL, .opts = O_PAUSES);
        A("connecting", "0P", "S", "1P", NULL, .opts = O_PAUSES);
        A("connecting", "0P", "S", "1P", "2O", .opts = O_PAUSES);
        A("connecting in parts", "", "S", "0kP 1hP 1H", NULL, .opts = O_PAUSES);
        A("serving", "0o 1o 2P", "S", "0t 1t 2t", NULL, .opts = O_PAUSES);
        A("serving", "0o 1o", "S", "0t", "1t", .opts = O_PAUSES);
        A("talking", "0P 1P", "S", "0t", "1t", .app = app_talk, .opts = O_TALK | O_PAUSES);
        A("talking", "0P 1P 2P", "S", "0t", "1c", .app = app_talk, .opts = O_TALK | O_PAUSES, .workers = 3);
        A("closing", "0P 1P", "S", "0c", "1e", .app = app_talk, .opts = O_TALK | O_PAUSES);
        A("closing", "0P 1o", "S", "0t 0x", "1r", .opts = O_PAUSES);
        A("closing", "0P 1o", "0x S", "1r", NULL, .opts = O_PAUSES);
        A("serving", "0o 1o 2P", "S", "0t 1t 2t", NULL, .opts = O_PAUSES | O_TLS);
        A("connecting", "0P", "S", "1P", "2O", .opts = O_PAUSES | O_TLS);
        A("TLS layer waits", "0P 1o", "0t S", "1t", NULL, .faults = F_TLS, .opts = O_PAUSES | O_TLS);
        A("blocked output", "0o 1o", "1z 0t 0t S", "1u", NULL, .opts = O_PAUSES);
        A("blocked output", "0P", "0w 0t 0c S", NULL, NULL, .opts = O_PAUSES);
        A("time-outs", "0P 1o", "T S", "0t", NULL, .timeout = 100, .pings = 2, .opts = O_PAUSES);
        A("time-outs", "0P 1o", "T T S", "1p", NULL, .timeout = 100, .pings = 1, .opts = O_PAUSES);
        A("full queue", "0P 1O 2O", "0t 1t 2t S", NULL, NULL, .queue = 1, .opts = O_PAUSES);
        A("full queue", "0P 1O 2O", "S", "0t 1t", "2t", .queue = 1, .workers = 1, .opts = O_PAUSES);
        A("failing calls", "0P 1o", "S", "0t", "1t", .faults = F_WAIT | F_EAGAIN | F_SHORT, .opts = O_PAUSES);
        A("spurious wake-ups", "0P 1o", "S", "0t", NULL, .faults = F_SPUR, .opts = O_PAUSES);
        A("failing accept", "0P", "1O S", "2O", NULL, .faults = F_ACCEPT, .opts = O_PAUSES);
    }
}

/* W27: connections over TLS, with a stand-in for the TLS library whose answers are choices of the search. */
#include "model.h"
const char *harness_rule = "every placement of the stated number of want-read, want-write, partial and failing answers of the TLS layer in the listed exchanges is executed on the running server; the outcome is compared with the protocol model that plain connections are judged by";
static int C, FD, D, FDD;
static model_t M;
static sim_mem_t base; static int base_fds; static uint64_t base_seq;

static void tls_faults(bool err) { tls.f_read = tls.f_write = tls.f_partial = tls.f_shut_read = tls.f_shut_write = tls.check_retry = true; tls.f_err = err; }
static void tls_quiet(void) { tls.f_read = tls.f_write = tls.f_partial = tls.f_shut_read = tls.f_shut_write = tls.f_err = false; }
static void feed(const void *p, size_t n) { sim_send(C, p, n); model_add(&M, p, n); }
static int tls_open(const char *proto) { return ws_open_ex(TPORT, proto, NULL, NULL, 0); }
static void boot(void) {
    srv_start();
    D = ws_open("probe"); FDD = sim_fd_of(D);
    /* one TLS connection before, so that everything made on first use is there */
    int c = tls_open("probe");
    ws_text(c, "x"); sim_quiesce();
    sim_close_client(c); sim_quiesce();
    base = sim_live(); base_fds = sim_open_fds(); base_seq = sim_alloc_seq();
    npev = 0;
    model_init(&M);
}
/* the connection has ended: nothing of it is left, and the others are served */
static void ended(const char *ctx) {
    MC_CHECK(sim_server_closed(C), "tls:open", "%s: the server does not close the connection", ctx);
    MC_CHECK(sim_conn_closes(C) == 1, "tls:closes", "%s: the descriptor is closed %d times", ctx, sim_conn_closes(C));
    MC_CHECK(tls.news == tls.frees, "tls:objects", "%s: %d TLS objects are made and %d released", ctx, tls.news, tls.frees);
    MC_CHECK(sim_open_fds() == base_fds, "tls:fds", "%s: %d descriptors more are open than before the connection", ctx, sim_open_fds() - base_fds);
    sim_mem_t m = sim_live();
    MC_CHECK(m.blocks == base.blocks, "tls:leak", "%s: %lld blocks more are in use than before the connection\n%s", ctx, (long long)(m.blocks - base.blocks), sim_live_text(base_seq));
}
static void others(const char *ctx) {
    uint8_t b[64]; size_t n;
    ws_text(D, "plain"); sim_quiesce();
    int t = out_msg(D, b, sizeof b, &n);
    MC_CHECK(t == 1 && n == 5 && !memcmp(b, "plain", 5), "tls:others", "%s: a plain connection is not served any more (%d)", ctx, t);
    int c = tls_open("probe");
    ws_text(c, "secret"); sim_quiesce();
    t = out_msg(c, b, sizeof b, &n);
    MC_CHECK(t == 1 && n == 6 && !memcmp(b, "secret", 6), "tls:others", "%s: a new TLS connection is not served (%d)", ctx, t);
}
/* the client's part of the exchanges */
static const char *names[] = { "text and ping", "fragments", "close", "violation", "large", "many" };
static size_t stream(int k, uint8_t *b, size_t cut[], int *ncut) {
    size_t n = 0; int c = 0;
#define F(b0, p, l) (n += enc_frame(b + n, b0, true, p, l, 0x31415926 + c), cut[c++] = n)
    static uint8_t big[300];
    for (int i = 0; i < 300; i++) big[i] = 'a' + i % 26;
    switch (k) {
        case 0: F(0x81, "hello", 5); F(0x89, "pp", 2); F(0x82, "\xff\0", 2); break;
        case 1: F(0x01, "he", 2); F(0x89, "q", 1); F(0x80, "llo", 3); break;
        case 2: F(0x81, "bye", 3); F(0x88, "\x03\xe8go", 4); break;
        case 3: F(0x82, "ok", 2); F(0xc1, "x", 1); break;
        case 4: F(0x81, big, 300); F(0x81, "small", 5); break;
        case 5: F(0x81, "1", 1); F(0x81, "22", 2); F(0x81, "333", 3); F(0x89, "4", 1); break;
    }
    *ncut = c;
    return n;
}
static void open_c(void) {
    char b[2048];
    int n = ws_request(b, sizeof b, "/", "probe", NULL);
    C = sim_connect(TPORT);
    MC_CHECK(C >= 0, "refused", "the server does not listen for TLS");
    if (mc_choose(2, "hello apart")) { sim_send(C, "\x16", 1); sim_quiesce(); } else sim_send(C, "\x16", 1);
    sim_send(C, b, n);
}
static void s_exchange(long arg) {
    int k = arg & 15, err = arg >> 4 & 1, upfaults = arg >> 5 & 1;
    boot();
    mc_checkpoint();
    uint8_t b[1024]; size_t cut[8]; int nc;
    tls_faults(err);
    sim_faults_on = upfaults;
    open_c();
    sim_quiesce();
    FD = sim_fd_of(C);
    int code = take_response(C, NULL, 0);
    bool gone = sim_server_closed(C);
    if (!err) MC_CHECK(code == 101 && !gone, "upgrade", "a valid upgrade request over TLS is answered with %d%s", code, gone ? " and closed" : "");
    else MC_CHECK(code == 101 || gone, "upgrade", "a valid upgrade request over TLS is neither answered (%d) nor refused", code);
    sim_faults_on = true;
    size_t n = stream(k, b, cut, &nc), at = 0;
    int seg = mc_choose(4, "segments");
    char ctx[100];
    snprintf(ctx, sizeof ctx, " %s over TLS, segments %d", names[k], seg);
    if (seg == 0) feed(b, n);
    else if (seg == 1) for (int i = 0; i < nc; i++) { feed(b + at, cut[i] - at); at = cut[i]; sim_quiesce(); }
    else if (seg == 2) for (int i = 0; i < nc; i++) { feed(b + at, cut[i] - 1 - at); sim_quiesce(); at = cut[i] - 1; }
    else { feed(b, 1); sim_quiesce(); at = 1; }
    if (at && at < n) feed(b + at, n - at);
    sim_quiesce();
    sim_faults_on = false;
    if (!err || (code == 101 && !sim_server_closed(C)) || M.closed) {
        if (!err) model_check(&M, C, FD, true, ctx);
    }
    if (!err && !M.closed) { feed("\x81\x80\0\0\0\0", 6); sim_quiesce(); uint8_t o[8]; size_t l; MC_CHECK(out_msg(C, o, 8, &l) == 1 && !l, "tls:later", "%s: a later message is not answered", ctx); }
    if (err) {
        /* whatever was sent is what a plain connection would have got, up to a point */
        uint8_t o[1024]; size_t l; int e = 0, p = 0;
        for (;;) {
            int t = out_msg(C, o, sizeof o, &l);
            if (t <= 0) { MC_CHECK(t == 0 || sim_server_closed(C), "tls:partial", "%s: the output stops in the middle of a frame", ctx); break; }
            if (t == 1 || t == 2) { MC_CHECK(e < M.ndel && M.del[e].op == t && M.del[e].len == l && !memcmp(M.buf + M.del[e].off, o, l), "tls:data", "%s: answer %d is %s", ctx, e, hexs(o, l)); e++; }
            else if (t == 10) { MC_CHECK(p < M.npong && M.pong[p].len == l && !memcmp(M.buf + M.pong[p].off, o, l), "tls:data", "%s: pong %d is %s", ctx, p, hexs(o, l)); p++; }
        }
        bool open = !sim_server_closed(C);
        MC_CHECK(!open || (e == M.ndel && p == M.npong && !M.closed), "tls:stuck", "%s: after an error of the TLS layer the connection is neither closed nor served", ctx);
        int nc2 = 0, nx = 0;
        for (int i = 0; i < npev; i++) if (pev[i].fd == FD) { nc2 += pev[i].type == EV_CONNECT; nx += pev[i].type == EV_CLOSE; }
        MC_CHECK(nc2 <= 1 && nx == (open ? 0 : nc2), "tls:reported", "%s: the application is told %d times of the connection and %d times of its end (%s)", ctx, nc2, nx, open ? "open" : "closed");
    }
    if (!sim_server_closed(C)) { sim_faults_on = true; int how = mc_choose(3, "end"); if (how == 0) sim_shutdown_client(C); else if (how == 1) sim_close_client(C); else sim_reset_client(C); sim_quiesce(); sim_faults_on = false; }
    ended(ctx);
    tls_quiet();
    others(ctx);
    mc_outcome(mc_hash(tls.wants, ctx, strlen(ctx)));
    if (mc_want_sample()) mc_sample("%s: %d wants of the TLS layer, %d deliveries", ctx, tls.wants, M.ndel);
}
/* the application sends from another connection's message */
static void hook(int type, int fd, int op, char *msg, size_t len) { (void)op; if (type == EV_MESSAGE && fd == FDD && len && msg[0] == '>') for (size_t i = 1; i < len; i++) { char m[12]; int k = msg[i] - '0'; memset(m, 'A' + i, k); psend(FD, 2, m, k); } }
static void s_foreign(long arg) {
    boot();
    C = tls_open("probe"); FD = sim_fd_of(C);
    size_t start, n;
    sim_out(C, &start);
    probe_echo = false; probe_hook = hook;
    mc_checkpoint();
    static const char *plans[] = { ">3", ">31", ">2052" };
    const char *plan = plans[mc_choose(3, "plan")];
    static uint8_t want[512]; size_t nw = 0;
    tls_faults(false);
    sim_faults_on = true;
    if (arg & 1) sim_window(C, mc_choose(12, "window"));
    for (int round = 0; round < 2; round++) {
        ws_text(D, plan);
        for (const char *q = plan + 1; *q; q++) { char m[12]; memset(m, 'A' + (q - plan), *q - '0'); nw += enc_frame(want + nw, 0x82, false, m, *q - '0', 0); }
        if (round == 0 && mc_choose(2, "second at once") == 0) sim_quiesce();
    }
    if (mc_choose(2, "client pings meanwhile")) { ws_send(C, 0x89, "", 0); nw += 0; arg |= 64; }
    sim_quiesce();
    if (arg & 1) { sim_window(C, -1); sim_quiesce(); }
    sim_faults_on = false;
    const uint8_t *o = sim_out(C, &n) + start;
    n -= start;
    if (arg & 64) { /* the pong is somewhere between the messages */
        size_t i = 0; bool ok = false;
        static uint8_t t[512];
        while (i + 1 < n) { size_t l = 2 + o[i + 1]; if (o[i] == 0x8a && o[i + 1] == 0 && !ok) { memcpy(t, o, i); memcpy(t + i, o + i + 2, n - i - 2); ok = true; break; } i += l; }
        MC_CHECK(ok, "tls:pong", "the pong is missing: %s", hexs(o, n));
        o = t; n -= 2;
    }
    MC_CHECK(n == nw && !memcmp(o, want, n), "tls:data", "the application's messages arrive as %s instead of %s", hexs(o, n), hexs(want, nw));
    MC_CHECK(!sim_server_closed(C), "tls:closed", "the connection is closed");
    sim_close_client(C); sim_quiesce();
    MC_CHECK(sim_server_closed(C), "tls:open", "the server does not close the connection");
    tls_quiet();
    probe_echo = true; probe_hook = NULL;
    others("messages of another connection");
}
/* refused requests and other things that are not an upgrade: as over a plain connection */
static const char *reqs[] = {
    "GET / HTTP/1.1\r\nHost: localhost:8080\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: xx\r\nSec-WebSocket-Version: 13\r\n\r\n",
    "POST / HTTP/1.1\r\nHost: localhost:8080\r\n\r\n", "GET /x y HTTP/1.0\r\n\r\n", "\r\n\r\n", "GET / HTTP/1.1\r\nHost: other\r\n\r\n",
    "GET / HTTP/1.1\r\nHost: localhost:8080\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: " KEY "\r\nSec-WebSocket-Version: 99\r\n\r\n",
    "GET / HTTP/1.1\r\nHost: localhost:8080\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: " KEY "\r\nSec-WebSocket-Version: 13\r\n\r\n",
    "GET / HTTP/1.1\r\nHost: localhost:8080\r\n\r\n" };
#define NREQ ((int)(sizeof reqs / sizeof *reqs))
static void s_refused(long arg) {
    boot();
    int P[NREQ];
    for (int i = 0; i < NREQ; i++) { P[i] = sim_connect(PORT); sim_send(P[i], reqs[i], strlen(reqs[i])); sim_quiesce(); }
    for (int i = 0; i < NREQ; i++) { sim_shutdown_client(P[i]); sim_quiesce(); }
    base_fds = sim_open_fds(); base = sim_live(); base_seq = sim_alloc_seq();
    mc_checkpoint();
    int k = mc_choose(NREQ, "request");
    int cut = mc_choose(4, "cut");
    tls_faults(arg);
    sim_faults_on = true;
    C = sim_connect(TPORT);
    sim_send(C, "\x16", 1);
    size_t l = strlen(reqs[k]), h = cut * l / 4;
    if (h) { sim_send(C, reqs[k], h); sim_quiesce(); }
    sim_send(C, reqs[k] + h, l - h);
    sim_quiesce();
    bool closed = sim_server_closed(C);
    size_t na, nb;
    sim_shutdown_client(C); sim_quiesce();
    sim_faults_on = false;
    const uint8_t *a = sim_out(C, &na), *b = sim_out(P[k], &nb);
    if (arg) MC_CHECK(na <= nb && !memcmp(a, b, na), "tls:answer", "the answer over TLS (%.*s) is not that over a plain connection (%.*s)", (int)na, (const char *)a, (int)nb, (const char *)b);
    else MC_CHECK(na == nb && !memcmp(a, b, na), "tls:answer", "the answer over TLS (%.*s) is not that over a plain connection (%.*s)", (int)na, (const char *)a, (int)nb, (const char *)b);
    (void)closed;
    ended("a refused request");
    tls_quiet();
    others("a refused request");
}
/* the client ends or fails at every point of its bytes */
static void s_cut(long arg) {
    boot();
    mc_checkpoint();
    char b[2048];
    b[0] = 0x16;
    int n = 1 + ws_request(b + 1, sizeof b - 400, "/", "probe", NULL);
    uint8_t s[400]; size_t cut[8]; int nc;
    size_t sn = stream(arg & 15, s, cut, &nc);
    memcpy(b + n, s, sn);
    int up = n;
    n += sn;
    int at = mc_choose(n + 1, "cut");
    tls_faults(false);
    C = sim_connect(TPORT);
    sim_faults_on = true;
    if (at > up) { sim_send(C, b, up); sim_quiesce(); sim_send(C, b + up, at - up); }
    else if (at) sim_send(C, b, at);
    if (mc_choose(2, "pause")) sim_quiesce();
    int how = mc_choose(3, "end");
    if (how == 0) sim_shutdown_client(C); else if (how == 1) sim_close_client(C); else sim_reset_client(C);
    sim_quiesce();
    sim_faults_on = false;
    ended("a client that ended early");
    tls_quiet();
    others("a client that ended early");
}
/* what is not TLS at all */
static void s_nottls(long arg) {
    (void)arg;
    boot();
    mc_checkpoint();
    C = sim_connect(TPORT);
    uint8_t c = mc_choose(256, "first byte");
    if (c == 0x16) mc_prune();
    sim_send(C, &c, 1);
    if (mc_choose(2, "more")) sim_send(C, reqs[6], strlen(reqs[6]));
    sim_quiesce();
    size_t n;
    sim_out(C, &n);
    MC_CHECK(n == 0, "tls:plain", "a client that does not speak TLS is answered");
    ended("a client that does not speak TLS");
    others("a client that does not speak TLS");
}
/* a TLS client that is stuck does not hold up anybody */
static void s_stuck(long arg) {
    (void)arg;
    boot();
    C = tls_open("probe");
    mc_checkpoint();
    int what = mc_choose(3, "how");
    int X = C;
    if (what == 0) { X = sim_connect(TPORT); }
    else if (what == 1) { X = sim_connect(TPORT); sim_send(X, "\x16", 1); sim_send(X, reqs[6], 20); }
    else { sim_window(C, mc_choose(6, "window")); ws_text(C, "unread"); ws_text(C, "unread too"); }
    sim_quiesce();
    others("a stuck TLS client");
    if (what == 0) sim_send(X, "\x16", 1);
    if (what < 2) { size_t l = strlen(reqs[6]); size_t h = what ? 20 : 0; sim_send(X, reqs[6] + h, l - h); sim_quiesce(); int code = take_response(X, NULL, 0); MC_CHECK(code == 101, "tls:late", "a slow TLS client is answered with %d", code); }
    else {
        sim_window(C, -1); sim_quiesce();
        uint8_t b[32]; size_t n;
        MC_CHECK(out_msg(C, b, 32, &n) == 1 && n == 6 && out_msg(C, b, 32, &n) == 1 && n == 10, "tls:late", "the slow TLS client does not get its messages");
    }
    sim_reset_client(X); sim_quiesce();
    MC_CHECK(sim_server_closed(X), "tls:open", "the connection is not closed");
}
/* W21: clients over TLS stall in every place; plain and TLS clients are served meanwhile */
static void stall_round(int a, int b, bool bc, int round) {
    char m[16]; snprintf(m, sizeof m, "round%d", round);
    uint8_t o[256]; size_t n;
    for (int i = 0; i < 2; i++) {
        int from = i ? b : a, to = bc ? (i ? a : b) : from;
        ws_text(from, m); sim_quiesce();
        int t = out_msg(to, o, sizeof o, &n);
        MC_CHECK(t == 1 && n == strlen(m) && !memcmp(o, m, n), "stalled:others", "with a stalled TLS client, message %d of %s client does not arrive (%d)", round, i ? "the TLS" : "the plain", t);
    }
}
static void s_stall(long arg) {
    bool bc = arg & 1; int kind = arg >> 1 & 3, nst = 1 + (arg >> 3);
    const char *pr = bc ? "broadcast" : "echo";
    srv_start();
    int P = ws_open(pr), Q = tls_open(pr), T[2];
    char rq[1024]; int rn = 1 + ws_request(rq + 1, sizeof rq - 1, "/", pr, NULL);
    rq[0] = 0x16;
    for (int i = 0; i < nst; i++) if (kind) T[i] = tls_open(pr);
    mc_checkpoint();
    if (sim_cfg.fault_budget) { tls_faults(false); sim_faults_on = true; }
    for (int i = 0; i < nst; i++) {
        if (kind == 0) { T[i] = sim_connect(TPORT); int k = mc_choose(nst > 1 ? 6 : rn, "cut"); if (nst > 1) k = k * (rn - 1) / 5; if (k) sim_send(T[i], rq, k); }
        else if (kind == 1) {
            static const char fr[] = "\x01\x83\0\0\0\0abc\x89\x81\0\0\0\0p\x80\x82\0\0\0\0de";
            int tot = sizeof fr - 1, k = 1 + mc_choose(nst > 1 ? 5 : tot - 1, "cut");
            sim_send(T[i], fr, nst > 1 ? k * (tot - 1) / 5 : k);
        } else { sim_window(T[i], mc_choose(8, "window")); if (!bc) ws_text(T[i], "unread"); }
    }
    sim_quiesce();
    for (int r = 0; r < 2; r++) stall_round(P, Q, bc, r);
    int end = mc_choose(3, "end");
    if (end < 2) {
        for (int i = 0; i < nst; i++) {
            if (kind == 2 || end) sim_reset_client(T[i]); else sim_close_client(T[i]);
            sim_quiesce();
            MC_CHECK(sim_server_closed(T[i]), "stalled:close", "the stalled TLS client cannot be disconnected");
        }
    } else for (int i = 0; i < nst; i++) {
        sim_window(T[i], -1); sim_quiesce();
        if (!(kind == 2 || (kind == 1 && bc))) continue;
        uint8_t o[256]; size_t n; int got = 0, exp = bc ? 4 : 1;
        for (;;) { int t = out_msg(T[i], o, sizeof o, &n); if (!t) break; MC_CHECK(t > 0, "stalled:broken", "the output of the stalled TLS client is damaged"); got += t == 1; }
        MC_CHECK(got == exp, "stalled:missing", "the stalled TLS client receives %d of %d messages when it resumes", got, exp);
    }
    sim_faults_on = false; tls_quiet();
    for (int i = 0; i < nst; i++) if (end == 2) sim_reset_client(T[i]);
    sim_quiesce();
    stall_round(P, Q, bc, 2);
    mc_outcome(arg * 4 + end);
    if (mc_want_sample()) mc_sample("stalled TLS client, kind %d, %s, end %d", kind, pr, end);
}
void harness_init(void) {
    bool T = sim_thorough;
    memset(&sim_cfg, 0, sizeof sim_cfg);
    sim_cfg.max_steps = 2000000; sim_cfg.max_sleeps = 50;
    srv_defaults();
    cfg.ssl_key = "key"; cfg.ssl_cert = "cert"; cfg.ssl_ca_file = "ca";
    char nm[100];
    if (!strcmp(sim_property, "W21")) {
        static const char *kinds[] = { "unfinished request", "unfinished message", "not reading" };
        for (int n = 0; n < 2; n++) for (int k = 0; k < 6; k++) for (int f = 0; f < 2; f++) {
            sim_cfg.fault_budget = f ? (n && !T ? 1 : T ? 3 : 2) : 0;
            snprintf(nm, sizeof nm, "%s over TLS, %s%s%s", kinds[k >> 1], k & 1 ? "broadcast" : "echo", n ? ", two clients" : "", f ? ", wants and partial writes" : "");
            sim_scenario(nm, s_stall, k | n << 3);
        }
        return;
    }
    if (!strcmp(sim_property, "W11")) {
        sim_scenario("not TLS", s_nottls, 0);
        sim_cfg.fault_budget = 1;
        for (int k = 0; k < (T ? 6 : 2); k++) { snprintf(nm, sizeof nm, "cut: %s", names[k]); sim_scenario(nm, s_cut, k); }
        for (int k = 0; k < 6; k++) { snprintf(nm, sizeof nm, "%s, with errors", names[k]); sim_scenario(nm, s_exchange, k | 48); }
        sim_scenario("refused requests, with errors", s_refused, 1);
        return;
    }
    for (int k = 0; k < 6; k++) {
        sim_cfg.fault_budget = T ? 4 : 3;
        snprintf(nm, sizeof nm, "%s", names[k]); sim_scenario(nm, s_exchange, k);
        sim_cfg.fault_budget = T ? 2 : 1;
        snprintf(nm, sizeof nm, "%s, from the handshake on", names[k]); sim_scenario(nm, s_exchange, k | 32);
        sim_cfg.fault_budget = T ? 2 : 1;
        snprintf(nm, sizeof nm, "%s, with errors", names[k]); sim_scenario(nm, s_exchange, k | 48);
    }
    sim_cfg.fault_budget = T ? 4 : 3;
    sim_scenario("messages of another connection", s_foreign, 0);
    sim_cfg.fault_budget = T ? 2 : 1;
    sim_scenario("messages of another connection, slow reader", s_foreign, 1);
    sim_scenario("refused requests", s_refused, 0);
    sim_scenario("refused requests, with errors", s_refused, 1);
    sim_cfg.fault_budget = T ? 1 : 1;
    for (int k = 0; k < (T ? 6 : 2); k++) { snprintf(nm, sizeof nm, "cut: %s", names[k]); sim_scenario(nm, s_cut, k); }
    sim_scenario("not TLS", s_nottls, 0);
    sim_scenario("stuck", s_stuck, 0);
}

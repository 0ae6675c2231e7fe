/* W30: the read and write time-outs end those connections that exceed them, and no others. */
#include "srv.h"
const char *harness_rule = "every pause from a set around the time-out is placed at every point of the listed exchanges, between the pieces that the client sends or that the client takes, with and without traffic of another connection; the running server keeps or ends the connection as the time-outs say";
static int C, FD, D;
static uint8_t S[2048]; static size_t Sn, up;
typedef struct { size_t end; int op; bool fin; const char *p; } fr_t;
static fr_t fr[16]; static int nf;
static int N; /* the time-out */
static int lim[] = { 1, 50, 1000 };
static const char *sets[] = { "messages", "fragments", "long message" };
static char big[400];
static void mk(int port, int k) {
    Sn = 0;
    if (port == TPORT) S[Sn++] = 0x16;
    Sn += ws_request((char *)S + Sn, 1200, "/", "probe", NULL);
    up = Sn; nf = 0;
#define F(b0, t) do { const char *q_ = t; Sn += enc_frame(S + Sn, b0, true, q_, strlen(q_), 0x11223344 + nf); fr[nf++] = (fr_t){ Sn, (b0) & 15, (b0) >> 7, q_ }; } while (0)
    memset(big, 'B', sizeof big - 1);
    if (k == 0) { F(0x81, "one"); F(0x89, "p"); F(0x82, "three"); }
    else if (k == 1) { F(0x01, "a"); F(0x89, "p"); F(0x00, "b"); F(0x80, "c"); F(0x81, "d"); }
    else { F(0x81, big); F(0x81, "e"); }
}
/* is something unfinished after the first n bytes? */
static bool unfinished(size_t n) {
    if (n < up) return n > (S[0] == 0x16 ? 1 : 0);
    bool open = false; size_t from = up;
    for (int i = 0; i < nf && from < n; i++) {
        if (n < fr[i].end) return true;
        if (fr[i].op < 8) open = !fr[i].fin;
        from = fr[i].end;
    }
    return open;
}
/* judge what was delivered of the first n bytes */
static void delivered(size_t n, const char *ctx) {
    char m[1024]; size_t l = 0; int e = 0, op = 0, pings = 0;
    while (e < npev && (pev[e].fd != FD || pev[e].type != EV_MESSAGE)) e++;
    for (int i = 0; i < nf && fr[i].end <= n; i++) {
        if (fr[i].op >= 8) { pings++; continue; }
        if (fr[i].op) { l = 0; op = fr[i].op; }
        memcpy(m + l, fr[i].p, strlen(fr[i].p)); l += strlen(fr[i].p);
        if (!fr[i].fin) continue;
        MC_CHECK(e < npev && pev[e].op == op && pev[e].len == l && !memcmp(pev[e].data, m, l), "timeout:lost", "%s: a message that was complete is not delivered", ctx);
        for (e++; e < npev && (pev[e].fd != FD || pev[e].type != EV_MESSAGE); e++) ;
    }
    MC_CHECK(e == npev, "timeout:extra", "%s: a message is delivered that was not complete in time", ctx);
}
static int gap_of(int i) { int g[] = { 0, N - 1, N + 1, 3 * N, N }; return g[i] < 0 ? 0 : g[i]; }
static void others(void) {
    uint8_t b[32]; size_t n;
    ws_text(D, "other"); sim_quiesce();
    MC_CHECK(out_msg(D, b, sizeof b, &n) == 1 && n == 5, "timeout:others", "another client is not served");
}
static void s_read(long arg) {
    int port = arg & 1 ? TPORT : PORT, cuts = arg >> 1 & 3, k = arg >> 3 & 3; bool off = arg >> 5 & 1;
    N = lim[arg >> 6];
    cfg.timeout_read = off ? -1 : N; cfg.timeout_write = 100 * N + 7;
    srv_start();
    D = ws_open("probe");
    mk(port, k);
    mc_checkpoint();
    size_t at[4]; int gap[4]; size_t last = 0;
    char ctx[200]; int cl = snprintf(ctx, sizeof ctx, "%s%s, time-out %d:", sets[k], port == TPORT ? " over TLS" : "", cfg.timeout_read);
    bool busy = mc_choose(2, "traffic of another client");
    for (int i = 0; i < cuts; i++) {
        if (cuts == 1) at[i] = 1 + mc_choose((int)Sn - 1, "cut");
        else { /* around the borders of the request and the frames */
            size_t c[64]; int n = 0;
            c[n++] = 2; c[n++] = up / 2; c[n++] = up - 1; c[n++] = up;
            for (int f = 0; f < nf; f++) { size_t from = f ? fr[f - 1].end : up; c[n++] = from + 1; c[n++] = from + 4; c[n++] = fr[f].end - 1; if (f + 1 < nf) c[n++] = fr[f].end; }
            at[i] = c[mc_choose(n, "cut")];
            if (at[i] <= last) mc_prune();
        }
        gap[i] = gap_of(mc_choose(off ? 4 : 5, "pause"));
        cl += snprintf(ctx + cl, sizeof ctx - cl, " %d ms after %zu bytes", gap[i], at[i]);
        last = at[i];
    }
    at[cuts] = Sn;
    C = sim_connect(port);
    size_t sent = 0; bool dead = false, may = false; FD = -2;
    for (int i = 0; i <= cuts; i++) {
        if (sent < up && at[i] > up) { sim_send(C, S + sent, up - sent); sim_quiesce(); if (!sim_server_closed(C)) { sent = up; if (dead) mc_fail("timeout:ignored", "%s: the connection is still open", ctx); } }
        if (!sim_server_closed(C)) { sim_send(C, S + sent, at[i] - sent); sim_quiesce(); }
        if (FD < 0 && sim_fd_of(C) >= 0) FD = sim_fd_of(C);
        sent = at[i];
        if (sim_server_closed(C)) { MC_CHECK(dead || may, "timeout:early", "%s: the connection is closed (after %zu bytes)", ctx, sent); dead = true; break; }
        MC_CHECK(!dead, "timeout:ignored", "%s: the connection is still open (after %zu bytes)", ctx, sent);
        may = false;
        if (i == cuts) break;
        if (busy) { sim_advance(gap[i] / 2); others(); sim_advance(gap[i] - gap[i] / 2); }
        else if (gap[i]) sim_advance(gap[i]);
        sim_quiesce();
        if (!off && unfinished(at[i])) { if (gap[i] > N) dead = true; if (gap[i] == N) may = true; }
        if (sim_server_closed(C)) { MC_CHECK(dead || may, "timeout:early", "%s: the connection is closed without more data (after %zu bytes)", ctx, sent); dead = true; break; }
    }
    /* what was complete when the client fell silent counts */
    size_t good = Sn;
    if (dead) { good = 0; for (int i = 0; i < cuts; i++) if (at[i] < sent || sent == at[i]) { good = at[i]; if (!off && unfinished(at[i]) && gap[i] >= N) break; } }
    delivered(good >= up ? good : 0, ctx);
    int nc = 0, nx = 0;
    for (int i = 0; i < npev; i++) if (pev[i].fd == FD) { nc += pev[i].type == EV_CONNECT; nx += pev[i].type == EV_CLOSE; }
    MC_CHECK(nc == (good >= up) && nx == (dead ? nc : 0), "timeout:told", "%s: the application is told of %d connections and %d ends", ctx, nc, nx);
    others();
    mc_outcome(mc_hash(dead, ctx, cl));
    if (mc_want_sample()) mc_sample("%s: %s", ctx, dead ? "ended" : "kept");
}
/* the client takes its output in steps */
static bool pushed; /* the messages are caused by another client */
static void hook(int type, int fd, int op, char *m, size_t n) { (void)op; if (type == EV_MESSAGE && (fd == FD || pushed) && n == 1 && *m >= '1' && *m <= '9') { static char b[4096]; memset(b, '#', sizeof b); for (int i = 0; i < *m - '0'; i++) psend(FD, 2, b, 40 * (i + 1)); } }
static void s_write(long arg) {
    int port = arg & 1 ? TPORT : PORT, steps = arg >> 1 & 3; bool off = arg >> 5 & 1;
    N = lim[arg >> 6];
    cfg.timeout_write = off ? -1 : N; cfg.timeout_read = N > 1 ? 2 : 100;
    srv_start();
    D = ws_open("probe");
    C = ws_open_ex(port, "probe", NULL, NULL, 0); FD = sim_fd_of(C);
    probe_hook = hook; probe_echo = true;
    npev = 0;
    mc_checkpoint();
    size_t start, n, total = 0;
    sim_out(C, &start);
    int k = 1 + mc_choose(3, "messages");
    bool busy = mc_choose(2, "traffic of another client");
    for (int i = 0; i < k; i++) total += 40 * (i + 1) + (40 * (i + 1) < 126 ? 2 : 4);
    char q[2] = { '0' + k, 0 };
    pushed = mc_choose(2, "by another client");
    if (!pushed) total += 3; /* the echo */
    if (mc_choose(2, "idle before")) { sim_advance(3 * N); sim_quiesce(); }
    static const int wins[] = { 0, 1, 2, 3, 41, 44, 45, 60, 126, 127, 200, 249, 250 };
    size_t w = wins[mc_choose(13, "window")];
    char ctx[200]; int cl = snprintf(ctx, sizeof ctx, "%d messages%s%s, time-out %d: %zu bytes", k, pushed ? " caused by another client" : "", port == TPORT ? " over TLS" : "", cfg.timeout_write, w);
    sim_window(C, w);
    ws_text(pushed ? D : C, q); sim_quiesce();
    if (pushed) { uint8_t b[8]; size_t l; MC_CHECK(out_msg(D, b, 8, &l) == 1 && l == 1, "timeout:others", "%s: another client is not served", ctx); }
    bool dead = false, may = false;
    for (int i = 0; i <= steps; i++) {
        int g = gap_of(mc_choose(off ? 4 : 5, "pause"));
        size_t have; sim_out(C, &have); have -= start;
        bool pending = have < total;
        cl += snprintf(ctx + cl, sizeof ctx - cl, ", %d ms", g);
        if (busy) { sim_advance(g / 2); others(); sim_advance(g - g / 2); } else if (g) sim_advance(g);
        sim_quiesce();
        if (!off && pending) { if (g > N) dead = true; if (g == N) may = true; }
        long more = i == steps ? -1 : 1 + 43 * mc_choose(3, "taken");
        cl += snprintf(ctx + cl, sizeof ctx - cl, ", %ld bytes", more);
        if (!sim_server_closed(C)) { sim_window(C, more); sim_quiesce(); }
        if (sim_server_closed(C)) { MC_CHECK(dead || may, "timeout:early", "%s: the connection is closed", ctx); dead = true; break; }
        MC_CHECK(!dead, "timeout:ignored", "%s: the connection is still open", ctx);
        may = false;
    }
    sim_out(C, &n); n -= start;
    MC_CHECK(dead || n == total, "timeout:output", "%s: %zu of %zu bytes arrive", ctx, n, total);
    int nx = 0;
    for (int i = 0; i < npev; i++) if (pev[i].fd == FD) nx += pev[i].type == EV_CLOSE;
    MC_CHECK(nx == dead, "timeout:told", "%s: the application is told of %d ends", ctx, nx);
    others();
    mc_outcome(mc_hash(dead, ctx, cl));
    if (mc_want_sample()) mc_sample("%s: %s", ctx, dead ? "ended" : "kept");
}
void harness_init(void) {
    bool T = sim_thorough;
    memset(&sim_cfg, 0, sizeof sim_cfg);
    sim_cfg.max_steps = 2000000; sim_cfg.max_sleeps = 50;
    srv_defaults();
    cfg.ssl_key = "key"; cfg.ssl_cert = "cert"; cfg.ssl_ca_file = "ca";
    char nm[120];
    for (int l = 0; l < 3; l++) for (int off = 0; off < 2; off++) for (int port = 0; port < 2; port++) {
        for (int k = 0; k < 3; k++) for (int c = 1; c <= (T ? 3 : 2); c++) {
            if (c == 3 && (off || k == 2)) continue;
            snprintf(nm, sizeof nm, "reading %s%s, %d pauses, time-out %d%s", sets[k], port ? " over TLS" : "", c, lim[l], off ? " (off)" : "");
            sim_scenario(nm, s_read, port | c << 1 | k << 3 | off << 5 | l << 6);
        }
        for (int c = 0; c <= (T ? 3 : 2); c++) {
            snprintf(nm, sizeof nm, "writing%s, %d pauses, time-out %d%s", port ? " over TLS" : "", c + 1, lim[l], off ? " (off)" : "");
            sim_scenario(nm, s_write, port | c << 1 | off << 5 | l << 6);
        }
    }
}

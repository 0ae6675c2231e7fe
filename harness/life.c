/* W22 W23 W25 W26: the life of connections and of the server, whatever ends them. */
#include "srv.h"
const char *harness_rule = "every end (by the client, by time, by a failing allocation, by a stop of the server) at every point of the listed connection histories is executed on the running server";
#define IS(p) (!strcmp(sim_property, p))

/* -------------------------------------------------------------- histories */
enum { ECHO, BCAST, DEFL, TLSC, RAWREQ };
typedef struct { const char *name; int port; bool deflate; const char *proto, *extra; const char *req; int frames; } hist_t;
static const char many_headers[] =
    "Cookie: a=b\r\nCookie: c=d\r\nOrigin: http://localhost\r\nSec-WebSocket-Protocol: x, y\r\nSec-WebSocket-Extensions: foo; a=1; b, bar\r\nSec-WebSocket-Extensions: permessage-deflate; client_max_window_bits, permessage-deflate\r\nX-A: 1\r\nX-B:\r\n";
static const hist_t H[] = {
    { "echo", PORT, false, "echo", NULL, NULL, 0 },
    { "probe, many headers", PORT, false, "nope, probe, echo", many_headers, NULL, 1 },
    { "compressed", PORT, true, "probe", "Sec-WebSocket-Extensions: permessage-deflate; client_max_window_bits=9\r\n", NULL, 2 },
    { "compressed, many headers", PORT, true, "probe", many_headers, NULL, 2 },
    { "broadcast", PORT, false, "broadcast", NULL, NULL, 0 },
    { "violation", PORT, false, "probe", NULL, NULL, 3 },
    { "bad payload of the compression", PORT, true, "echo", "Sec-WebSocket-Extensions: permessage-deflate\r\n", NULL, 4 },
    { "TLS", TPORT, false, "probe", NULL, NULL, 0 },
    { "no key", PORT, false, NULL, NULL, "GET / HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nCookie: a\r\n\r\n", 0 },
    { "no upgrade", PORT, false, NULL, NULL, "GET / HTTP/1.1\r\nHost: localhost\r\nX: y\r\n\r\n", 0 },
    { "bad version", PORT, false, NULL, NULL, "GET / HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 12\r\nSec-WebSocket-Key: " KEY "\r\nSec-WebSocket-Protocol: a,b\r\nSec-WebSocket-Extensions: permessage-deflate; a=b; c\r\n\r\n", 0 },
    { "bad method", PORT, false, NULL, NULL, "PUT / HTTP/1.1\r\nHost: localhost\r\nContent-Length: 3\r\n\r\nabc", 0 },
    { "bad protocol version", PORT, false, NULL, NULL, "GET / HTTP/1.0\r\nHost: localhost\r\n\r\n", 0 },
    { "bad path", PORT, true, NULL, NULL, "GET //../ HTTP/1.1\r\nHost: localhost\r\nSec-WebSocket-Extensions: permessage-deflate; server_max_window_bits=9\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: " KEY "\r\n\r\n", 0 },
    { "HIXIE-76", PORT, false, NULL, NULL, "GET / HTTP/1.1\r\nHost: localhost\r\nUpgrade: WebSocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key1: 4 @1  46546xW%0l 1 5\r\nSec-WebSocket-Key2: 12998 5 Y3 1  .P00\r\nOrigin: http://localhost\r\n\r\n^n:ds[4U", 0 },
    { "repeated headers", PORT, true, NULL, NULL, "GET / HTTP/1.1\r\nHost: a\r\nHost: b\r\nUpgrade: websocket\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nConnection: close\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Version: 8\r\nSec-WebSocket-Key: " KEY "\r\nSec-WebSocket-Key: " KEY "\r\nOrigin: a\r\nOrigin: b\r\nSec-WebSocket-Origin: c\r\nSec-WebSocket-Protocol: echo\r\nSec-WebSocket-Protocol: probe\r\nSec-WebSocket-Extensions: permessage-deflate; client_no_context_takeover\r\nSec-WebSocket-Extensions: permessage-deflate\r\nCookie: x\r\nCookie: y\r\n\r\n", 0 },
    { "garbage", PORT, false, NULL, NULL, "\x81\x85\0\0", 0 },
};
#define NH ((int)(sizeof H / sizeof *H))
static size_t mk(const hist_t *h, uint8_t *b, size_t *up, int *nfr, size_t *cut) {
    size_t n = 0;
    int c = 0;
    if (h->port == TPORT) b[n++] = 0x16;
    if (h->req) { size_t l = strlen(h->req); if (!strcmp(h->name, "garbage")) l = 4; memcpy(b + n, h->req, l); n += l; *up = n; *nfr = 0; return n; }
    n += ws_request((char *)b + n, 1500, "/", h->proto, h->extra);
    *up = n;
#define F(b0, p) (n += enc_frame(b + n, b0, true, p, sizeof(p) - 1, 0x01020304 + c), cut[c++] = n)
    switch (h->frames) {
        case 0: F(0x81, "one"); F(0x01, "t"); F(0x89, "pi"); F(0x00, "w"); F(0x80, "o"); F(0x8a, ""); F(0x82, "three!"); F(0x88, "\x03\xe8""bye"); break;
        case 1: F(0x82, "\0\1\2"); F(0x01, "ab"); F(0x88, ""); break;
        case 2: F(0xc1, "\xf2\x48\xcd\xc9\xc9\x07\x00"); F(0x81, "plain"); F(0x41, "\xf2\x48\xcd"); F(0x89, "p"); F(0x80, "\xc9\xc9\x07\x00"); F(0xc2, "\xf2\x48\xcd\xc9\xc9\x07\x00"); F(0x88, "\x03\xe9"); break;
        case 3: F(0x02, "start"); F(0x89, "p"); F(0x81, "no"); break;
        case 4: F(0xc1, "\xf2\x48\xcd\xc9\xc9\x07\x00"); F(0xc1, "\xff\xff\xff\xff"); break;
    }
    *nfr = c;
    return n;
}
static int C, D; static const hist_t *h;
static sim_mem_t base; static int base_fds; static uint64_t base_seq; static int base_news, base_frees;
static uint8_t S[4096]; static size_t Sn, up, cut[16]; static int nfr;
/* the output that the history leads to when nothing goes wrong */
typedef struct { int b0; size_t n; uint8_t p[64]; } of_t;
static of_t ref[32]; static int nref;
static uint8_t refhead[1024]; static size_t nrefhead;
static size_t head_len(const uint8_t *o, size_t n) { for (size_t i = 0; i + 4 <= n; i++) if (!memcmp(o + i, "\r\n\r\n", 4)) return i + 4; return 0; }

static void boot(long arg, bool keep) {
    h = &H[arg];
    srv_deflate = h->deflate;
    srv_start();
    Sn = mk(h, S, &up, &nfr, cut);
    D = keep ? ws_open(h->proto && !strcmp(h->proto, "broadcast") ? "broadcast" : "probe") : -1;
    size_t n;
    C = sim_connect(h->port);
    sim_send(C, S, up); sim_quiesce();
    if (Sn > up) sim_send(C, S + up, Sn - up);
    sim_quiesce();
    const uint8_t *o = sim_out(C, &n);
    nrefhead = head_len(o, n);
    if (nrefhead > sizeof refhead) nrefhead = 0;
    memcpy(refhead, o, nrefhead);
    opos[C] = nrefhead;
    ofr_t f;
    if (h->frames || !h->req) while (out_frame(C, &f) == 1 && nref < 32) { ref[nref].b0 = f.fin << 7 | f.rsv << 4 | f.op; ref[nref].n = f.len; memcpy(ref[nref].p, f.p, f.len < 64 ? f.len : 64); nref++; }
    sim_close_client(C); sim_quiesce();
    MC_CHECK(sim_server_closed(C), "life:open", "%s: the connection is not closed", h->name);
    npev = 0;
    base = sim_live(); base_fds = sim_open_fds(); base_seq = sim_alloc_seq(); base_news = tls.news; base_frees = tls.frees;
}
static void released(const char *ctx) {
    MC_CHECK(sim_server_closed(C), "life:open", "%s: %s: the server does not close the connection", h->name, ctx);
    MC_CHECK(sim_conn_closes(C) == 1, "life:closes", "%s: %s: the descriptor is closed %d times", h->name, ctx, sim_conn_closes(C));
    MC_CHECK(sim_open_fds() == base_fds, "leak:fds", "%s: %s: %d descriptors more are open than before the connection", h->name, ctx, sim_open_fds() - base_fds);
    sim_mem_t m = sim_live();
    MC_CHECK(m.blocks == base.blocks && m.bytes == base.bytes, "leak:memory", "%s: %s: %lld blocks and %lld bytes more are in use than before the connection\n%s", h->name, ctx, (long long)(m.blocks - base.blocks), (long long)(m.bytes - base.bytes), sim_live_text(base_seq));
    MC_CHECK(tls.news - base_news == tls.frees - base_frees, "leak:tls", "%s: %s: %d TLS objects are made and %d released", h->name, ctx, tls.news - base_news, tls.frees - base_frees);
    int fd = sim_fd_of(C), nc = 0, nx = 0;
    for (int i = 0; i < npev; i++) if (pev[i].fd == fd) { nc += pev[i].type == EV_CONNECT; nx += pev[i].type == EV_CLOSE; }
    MC_CHECK(nc == nx, "leak:application", "%s: %s: the application is told %d times of the connection and %d times of its end", h->name, ctx, nc, nx);
}
static void end_client(int how) { if (how == 0) sim_shutdown_client(C); else if (how == 1) sim_close_client(C); else sim_reset_client(C); }
static const char *ends[] = { "end of stream", "close", "reset", "time-out" };

/* -------------------------------------------------------------------- W25 */
static void s_ends(long arg) {
    bool timeout = arg >> 8 & 1;
    if (timeout) cfg.timeout_client = 100;
    cfg.timeout_pings = timeout ? 1 : 0;
    boot(arg & 255, false);
    mc_checkpoint();
    int at = mc_choose((int)Sn + 1, "bytes sent");
    static const long wins[] = { -1, 0, 3, 40, 131, 150 };
    int w = mc_choose(timeout ? 3 : 6, "window");
    int how = timeout ? 3 : mc_choose(3, "end");
    bool pause = timeout ? true : mc_choose(2, "pause");
    C = sim_connect(h->port);
    if (wins[w] >= 0) sim_window(C, wins[w]);
    if (at > (int)up) { sim_send(C, S, up); sim_quiesce(); sim_send(C, S + up, at - up); } else if (at) sim_send(C, S, at);
    if (pause) sim_quiesce();
    char ctx[100];
    snprintf(ctx, sizeof ctx, "%s after %d of %zu bytes, window %ld", ends[how], at, Sn, wins[w]);
    if (how < 3) end_client(how); else sim_advance(350);
    sim_quiesce();
    if (how < 2 && wins[w] >= 0) { /* the client reads nothing any more and disappears */ sim_reset_client(C); sim_quiesce(); }
    released(ctx);
    mc_outcome(mc_hash(at * 16 + how, &w, sizeof w));
    if (mc_want_sample()) mc_sample("%s: %s: everything released", h->name, ctx);
}
/* ended by a failing allocation, a failing write or read */
static void s_fails(long arg) {
    boot(arg & 255, false);
    mc_checkpoint();
    int seg = mc_choose(3, "segments");
    sim_faults_on = true;
    C = sim_connect(h->port);
    if (seg == 0) sim_send(C, S, Sn);
    else if (seg == 1) { sim_send(C, S, up); sim_quiesce(); if (Sn > up) sim_send(C, S + up, Sn - up); }
    else for (size_t i = 0; i < Sn; i += 23) { sim_send(C, S + i, Sn - i < 23 ? Sn - i : 23); sim_quiesce(); }
    sim_quiesce();
    sim_faults_on = false;
    if (!sim_server_closed(C)) { sim_close_client(C); sim_quiesce(); }
    released("a fault");
}
/* many connections in a row and side by side */
static void s_row(long arg) {
    boot(arg & 255, false);
    mc_checkpoint();
    int n = 2 + mc_choose(3, "connections"), order = mc_choose(3, "order");
    int K[4];
    for (int i = 0; i < n; i++) { C = K[i] = sim_connect(h->port); sim_send(C, S, Sn - (i & 1) * 2); if (order == 0) { sim_quiesce(); if (!sim_server_closed(C)) sim_close_client(C); sim_quiesce(); } }
    sim_quiesce();
    for (int i = 0; i < n; i++) { C = K[order == 2 ? n - 1 - i : i]; if (!sim_server_closed(C)) { sim_close_client(C); sim_quiesce(); } }
    for (int i = 0; i < n; i++) { C = K[i]; released("several connections"); }
}

/* -------------------------------------------------------------------- W26 */
static void s_oom(long arg) {
    bool timeouts = arg >> 8 & 1;
    if (timeouts) { cfg.timeout_client = 300; cfg.timeout_pings = 3; }
    boot(arg & 255, true);
    mc_checkpoint();
    bool bc = h->proto && !strcmp(h->proto, "broadcast");
    int seg = mc_choose(bc ? 3 : 4, "segments");
    sim_faults_on = true;
    C = sim_connect(h->port);
    if (seg == 0) sim_send(C, S, Sn);
    else if (seg == 1) { sim_send(C, S, up); sim_quiesce(); if (Sn > up) sim_send(C, S + up, Sn - up); }
    else if (seg == 2) { size_t a = up; sim_send(C, S, up / 2); sim_quiesce(); sim_send(C, S + up / 2, up - up / 2); sim_quiesce(); for (int i = 0; i < nfr; i++) { sim_send(C, S + a, cut[i] - a); a = cut[i]; sim_quiesce(); } }
    else { /* output has to wait */ sim_send(C, S, up); sim_quiesce(); sim_window(C, 3); if (Sn > up) sim_send(C, S + up, Sn - up); sim_quiesce(); sim_window(C, -1); }
    sim_quiesce();
    if (timeouts) { sim_advance(450); sim_quiesce(); }
    sim_faults_on = false;
    char ctx[100];
    snprintf(ctx, sizeof ctx, "%s, segments %d", h->name, seg);
    /* what was sent is part of what would have been sent */
    size_t n, hl;
    const uint8_t *o = sim_out(C, &n);
    bool gone = sim_server_closed(C);
    if (n) {
        hl = head_len(o, n);
        MC_CHECK(hl && n > 12 && !memcmp(o, "HTTP/1.1 ", 9), "oom:answer", "%s: the answer is damaged: %.*s", ctx, (int)n, (const char *)o);
        int code = atoi((const char *)o + 9);
        if (code == 101) {
            MC_CHECK(nrefhead && !memcmp(refhead, "HTTP/1.1 101", 12), "oom:answer", "%s: a request that is to be refused is accepted", ctx);
            opos[C] = hl;
            ofr_t f;
            int r, k = 0; bool close = false;
            while ((r = out_frame(C, &f)) == 1) {
                MC_CHECK(!close, "oom:after-close", "%s: something is sent after the close frame", ctx);
                if (f.op == 8) { close = true; continue; }
                if (timeouts && f.op == 9) continue;
                if (h->deflate) { /* the compressed form may differ */ while (k < nref && (ref[k].b0 & 15) != f.op) k++; }
                else while (k < nref && !(ref[k].b0 == (f.fin << 7 | f.rsv << 4 | f.op) && ref[k].n == f.len && !memcmp(ref[k].p, f.p, f.len < 64 ? f.len : 64))) k++;
                MC_CHECK(k < nref, "oom:data", "%s: the server sends what it would not send otherwise: type %d, %s", ctx, f.op, hexs(f.p, f.len));
                k++;
            }
            MC_CHECK(r == 0 || (gone && seg == 3), "oom:partial", "%s: the output ends in the middle of a frame", ctx);
        } else MC_CHECK(gone, "oom:open", "%s: the request is answered with %d, but the connection stays open", ctx, code);
    }
    /* the client that had nothing to do with it; with a failing allocation it may itself have been closed */
    uint8_t b[256]; size_t l;
    if (bc) {
        for (;;) { int t = out_msg(D, b, sizeof b, &l); if (t <= 0) { MC_CHECK(t == 0, "oom:partial", "%s: the output of another client is damaged", ctx); break; } }
        int E = ws_open("broadcast");
        ws_text(E, "news"); sim_quiesce();
        bool dopen = !sim_server_closed(D);
        int t = out_msg(D, b, sizeof b, &l);
        MC_CHECK(!dopen || (t == 1 && l == 4 && !memcmp(b, "news", 4)), "oom:others", "%s: another client of the broadcast does not get a message afterwards (%d)", ctx, t);
        sim_close_client(E); sim_quiesce();
        MC_CHECK(sim_server_closed(E), "oom:open", "%s: another connection is not closed", ctx);
    } else if (!sim_server_closed(D)) {
        if (timeouts) while (out_msg(D, b, sizeof b, &l) == 9) ;
        ws_text(D, "fine"); sim_quiesce();
        int t = out_msg(D, b, sizeof b, &l);
        MC_CHECK(t == 1 && l == 4 && !memcmp(b, "fine", 4), "oom:others", "%s: another client is not served any more (%d)", ctx, t);
    } else MC_CHECK(timeouts, "oom:others", "%s: the connection of another client is closed", ctx);
    if (seg && !gone && nref && ref[nref - 1].b0 == 0x88) mc_fail("oom:unclosed", "%s: the connection that the history closes is still open", ctx);
    if (!gone && sim_server_closed(C) == false) {
        /* the connection still works, or is closed when it is used */
        end_client(mc_choose(2, "end")); sim_quiesce();
        MC_CHECK(sim_server_closed(C), "oom:open", "%s: the connection is not closed when the client ends it", ctx);
    } else if (!sim_server_closed(C)) mc_fail("oom:open", "%s: the connection stays open", ctx);
    still_serving(ctx);
    if (!bc) { /* nothing of it is left */
        if (!sim_server_closed(D)) {
            int fds = sim_open_fds();
            MC_CHECK(fds == base_fds, "oom:fds", "%s: %d descriptors more are open than before", ctx, fds - base_fds);
        }
    }
    mc_outcome(mc_hash(gone, o, n));
    if (mc_want_sample()) mc_sample("%s: %zu bytes sent, %s", ctx, n, gone ? "closed" : "served on");
}

/* -------------------------------------------------------------------- W22 */
/* Time steps and what the client does at them. The server looks at the
 * sessions every timeout/pings ms; it must not drop a client it heard from
 * less than the time-out ago, and must drop one that is silent for the
 * time-out plus one such interval. */
static void s_idle(long arg) {
    int pings = arg & 15, up_ = arg >> 4 & 3, steps = arg >> 8;
    long T = 1000, iv = pings ? T / pings : T;
    cfg.timeout_client = T; cfg.timeout_pings = pings;
    srv_start();
    int pr = 0;
    if (up_ == 1) { C = ws_open("probe"); }
    else if (up_ == 2) { C = sim_connect(PORT); char b[1200]; int n = ws_request(b, sizeof b, "/", NULL, NULL); sim_send(C, b, n / 2); sim_quiesce(); }
    else { C = sim_connect(PORT); sim_quiesce(); }
    int fd = sim_fd_of(C);
    mc_checkpoint();
    (void)pr;
    int64_t last = sim_now_ms(), start = last, quiet_since = last;
    bool full = false;
    int got_pings = 0; char ctx[400] = "";
    int64_t pings_since = last;
    const long dts[] = { iv / 2 + 7, T - 60, T + 13, iv + 3, 40 };
    for (int i = 0; i < steps; i++) {
        long dt = dts[mc_choose(5, "time")];
        snprintf(ctx + strlen(ctx), sizeof ctx - strlen(ctx), " +%ld", dt);
        /* in small steps, so that the moment of a close is known */
        for (long left = dt; left > 0; ) {
            long s = left < 25 ? left : 25;
            sim_advance(s); left -= s;
            sim_quiesce();
            if (up_ == 1) { uint8_t b[256]; size_t l; int t; while ((t = out_msg(C, b, sizeof b, &l)) > 0) { if (t == 9) got_pings++; MC_CHECK(t == 9 || t == 8 || t == 10 || t == 1, "idle:frame", "%s: unexpected frame %d", ctx, t); } MC_CHECK(t == 0 || full, "idle:partial", "%s: damaged output", ctx); }
            if (sim_server_closed(C)) break;
        }
        int64_t now = sim_now_ms();
        if (sim_server_closed(C)) {
            MC_CHECK(now - last >= T, "idle:early", "%s: the client is disconnected %lld ms after it was heard from last, the time-out is %ld", ctx, (long long)(now - last), T);
            int nc = 0, nx = 0;
            for (int k = 0; k < npev; k++) if (pev[k].fd == fd) { nc += pev[k].type == EV_CONNECT; nx += pev[k].type == EV_CLOSE; }
            MC_CHECK(nc == (up_ == 1) && nx == nc, "idle:reported", "%s: the application is told %d times of the connection and %d times of its end", ctx, nc, nx);
            mc_outcome(mc_hash(1, ctx, strlen(ctx)));
            goto done;
        }
        MC_CHECK(now - quiet_since < T + iv + 60, "idle:late", "%s: the client has been silent for %lld ms and is still connected", ctx, (long long)(now - quiet_since));
        if (up_ == 1 && pings && !full) {
            int64_t dp = now - pings_since;
            int want = (int)(dp / iv);
            MC_CHECK(got_pings >= want - 1 && got_pings <= want + 1, "idle:pings", "%s: %d pings in %lld ms, one is due every %ld ms", ctx, got_pings, (long long)dp, iv);
        }
        if (up_ == 1 && !pings) MC_CHECK(got_pings == 0, "idle:pings", "%s: a ping is sent although none is configured", ctx);
        int act = mc_choose(up_ == 1 ? 6 : 2, "client");
        static const char *an[] = { "nothing", "bytes", "text", "pong", "ping", "half a frame" };
        snprintf(ctx + strlen(ctx), sizeof ctx - strlen(ctx), " %s", an[act]);
        switch (act) {
            case 0: break;
            case 1: if (up_ == 1) ws_send(C, 0x8a, "unsolicited", 11); else sim_send(C, "X", 1); break;
            case 2: ws_text(C, "hi"); break;
            case 3: ws_send(C, 0x8a, "", 0); break;
            case 4: ws_send(C, 0x89, "p", 1); break;
            case 5: sim_send(C, "\x81", 1); last = quiet_since = now; sim_quiesce(); last = quiet_since = sim_now_ms(); sim_send(C, "\x80\0\0\0\0", 5); break;
        }
        sim_quiesce();
        if (sim_server_closed(C)) { /* refused for its contents */ MC_CHECK(up_ != 1, "idle:closed", "%s: the connection is closed", ctx); return; }
        if (act) last = quiet_since = sim_now_ms();
    }
    mc_outcome(mc_hash(0, ctx, strlen(ctx)));
    /* silent from here on */
    for (int i = 0; i < (T + iv) / 25 + 4 && !sim_server_closed(C); i++) { sim_advance(25); sim_quiesce(); }
    MC_CHECK(sim_server_closed(C), "idle:late", "%s: the client has been silent for %lld ms and is still connected", ctx, (long long)(sim_now_ms() - last));
    MC_CHECK(sim_now_ms() - last >= T, "idle:early", "%s: the client is disconnected %lld ms after it was heard from last", ctx, (long long)(sim_now_ms() - last));
done:
    (void)start;
    if (up_ == 1) { uint8_t b[256]; size_t l; int t, c = 0; opos[C] = 0; take_response(C, NULL, 0); while ((t = out_msg(C, b, sizeof b, &l)) > 0) { MC_CHECK(!c, "idle:after-close", "%s: something is sent after the close frame", ctx); if (t == 8) c++; } }
    if (mc_want_sample()) mc_sample("time-out %ld, %d pings:%s", T, pings, ctx);
    cfg.timeout_client = T;
}
/* pings do not break into a message that is partly sent */
static void s_pingpartial(long arg) {
    cfg.timeout_client = 1000; cfg.timeout_pings = arg;
    srv_start();
    C = ws_open("probe");
    mc_checkpoint();
    int w = mc_choose(30, "window");
    int w2 = mc_choose(12, "window later");
    sim_window(C, w);
    ws_text(C, "hello"); ws_text(C, "there, you all");
    sim_quiesce();
    sim_advance(1000 / arg + 5); sim_quiesce();
    if (w2) { sim_window(C, w2); sim_quiesce(); sim_advance(1000 / arg + 5); sim_quiesce(); }
    if (!sim_server_closed(C)) { sim_window(C, -1); sim_quiesce(); }
    uint8_t b[256]; size_t l; int t, ne = 0, np = 0, nc = 0;
    while ((t = out_msg(C, b, sizeof b, &l)) > 0) {
        MC_CHECK(!nc, "ping:after-close", "something is sent after the close frame");
        if (t == 1) { const char *m = ne ? "there, you all" : "hello"; MC_CHECK(ne < 2 && l == strlen(m) && !memcmp(b, m, l), "ping:data", "message %d arrives as %s", ne, hexs(b, l)); ne++; }
        else if (t == 9) np++; else if (t == 8) nc++; else mc_fail("ping:frame", "unexpected frame %d", t);
    }
    if (!sim_server_closed(C)) MC_CHECK(t == 0 && ne == 2 && np >= 1, "ping:missing", "the client reads %d of 2 messages and %d pings (%d)", ne, np, t);
    mc_outcome(w * 100 + w2);
}
/* time-outs disabled */
static void s_disabled(long arg) {
    cfg.timeout_client = -1; cfg.timeout_pings = arg;
    srv_start();
    mc_checkpoint();
    C = mc_choose(2, "upgraded") ? ws_open("probe") : sim_connect(PORT);
    sim_quiesce();
    for (int i = 0; i < 10; i++) { sim_advance(i < 5 ? 1000 : 3600000); sim_quiesce(); MC_CHECK(!sim_server_closed(C), "idle:disabled", "the client is disconnected although the time-out is disabled"); }
}
/* several clients: only the silent ones are dropped */
static void s_several(long arg) {
    cfg.timeout_client = 600; cfg.timeout_pings = arg;
    long iv = 600 / arg;
    srv_start();
    int K[3]; int64_t last[3];
    for (int i = 0; i < 3; i++) { K[i] = ws_open("echo"); last[i] = sim_now_ms(); }
    mc_checkpoint();
    for (int s = 0; s < 4; s++) {
        int who = mc_choose(8, "who sends");
        for (int i = 0; i < 3; i++) if (who >> i & 1 && !sim_server_closed(K[i])) { ws_send(K[i], 0x8a, "", 0); last[i] = sim_now_ms(); }
        sim_quiesce();
        for (int k = 0; k < 14; k++) {
            sim_advance(25); sim_quiesce();
            for (int i = 0; i < 3; i++) {
                int64_t d = sim_now_ms() - last[i];
                bool c = sim_server_closed(K[i]);
                if (c && last[i] >= 0) { MC_CHECK(d >= 600, "idle:early", "client %d is disconnected %lld ms after it was heard from last", i, (long long)d); last[i] = INT64_MIN / 2; }
                else if (!c) MC_CHECK(d < 600 + iv + 60, "idle:late", "client %d has been silent for %lld ms and is still connected", i, (long long)d);
            }
        }
    }
}

/* -------------------------------------------------------------------- W23 */
static sim_mem_t w23_mem; static uint64_t w23_seq;
static void s_stop(long arg) {
    /* histories of up to three clients, a stop at every step */
    int k = arg & 255, steps = 0;
    h = &H[k];
    srv_deflate = h->deflate;
    if (arg >> 8 & 1) { cfg.timeout_client = 500; cfg.timeout_pings = 2; }
    cfg.pool_workers = 1 + (arg >> 9 & 3);
    w23_mem = sim_live(); w23_seq = sim_alloc_seq();
    int fds0 = sim_open_fds();
    srv_start();
    Sn = mk(h, S, &up, &nfr, cut);
    mc_checkpoint();
    int stop = mc_choose(12, "stop after step");
    int w = mc_choose(3, "window"), settle = mc_choose(2, "settled");
    static const long wins[] = { -1, 0, 5 };
    int K[4], nk = 0;
#define STEP do { if (settle) sim_quiesce(); if (steps++ == stop) goto stopped; } while (0)
    STEP;
    K[nk++] = sim_connect(PORT); STEP;
    { char rq[1200]; int n = ws_request(rq, sizeof rq, "/", "broadcast", NULL); sim_send(K[0], rq, n); STEP; }
    C = K[nk++] = sim_connect(h->port); STEP;
    sim_send(C, S, up / 2); STEP;
    sim_send(C, S + up / 2, up - up / 2); if (wins[w] >= 0) { sim_quiesce(); sim_window(C, wins[w]); } STEP;
    if (nfr) sim_send(C, S + up, cut[0] - up);
    STEP;
    if (nfr > 2) sim_send(C, S + cut[0], cut[2] - cut[0] - 1);
    STEP;
    K[nk++] = ws_open("broadcast"); ws_text(K[2], "to all"); STEP;
    if (nfr > 2) sim_send(C, S + cut[2] - 1, Sn - cut[2] + 1);
    STEP;
    sim_close_client(K[0]); STEP;
    sim_close_client(C); STEP;
stopped:;
    int sig = mc_choose(2, "again");
    sim_raise(SIGINT);
    if (sig) sim_raise(SIGINT);
    sim_join(srv_tid);
    char ctx[100];
    snprintf(ctx, sizeof ctx, "%s, stop after step %d, window %ld", h->name, stop, wins[w]);
    MC_CHECK(srv_ret == 0, "stop:status", "%s: the server returns %d", ctx, srv_ret);
    MC_CHECK(sim_live_threads() == 0, "stop:threads", "%s: %d threads are left\n%s", ctx, sim_live_threads(), sim_threads_text());
    MC_CHECK(sim_open_fds() == fds0, "stop:fds", "%s: %d descriptors are left open", ctx, sim_open_fds() - fds0);
    for (int i = 0; i < nk; i++) if (sim_accepted(K[i])) {
        MC_CHECK(sim_server_closed(K[i]) && sim_conn_closes(K[i]) == 1, "stop:closed", "%s: connection %d is closed %d times", ctx, i, sim_conn_closes(K[i]));
    }
    MC_CHECK(sim_connect(PORT) < 0, "stop:listening", "%s: the server still accepts connections", ctx);
    for (int fd = 0; fd < 128; fd++) MC_CHECK(!open_fd_state[fd], "stop:reported", "%s: the application is not told of the end of the connection with descriptor %d", ctx, fd);
    MC_CHECK(probe_inits == 1 && probe_destroys == 1, "stop:application", "%s: the application is initialised %d times and destroyed %d times", ctx, probe_inits, probe_destroys);
    sim_mem_t m = sim_live();
    MC_CHECK(m.blocks == w23_mem.blocks, "stop:leak", "%s: %lld blocks are not released\n%s", ctx, (long long)(m.blocks - w23_mem.blocks), sim_live_text(w23_seq));
    MC_CHECK(tls.news == tls.frees, "stop:tls", "%s: %d TLS objects are made and %d released", ctx, tls.news, tls.frees);
    mc_outcome(mc_hash(stop * 4 + w, h->name, strlen(h->name)));
    if (mc_want_sample()) mc_sample("%s: everything ended", ctx);
}
void harness_init(void) {
    bool T = sim_thorough;
    memset(&sim_cfg, 0, sizeof sim_cfg);
    sim_cfg.max_steps = 2000000; sim_cfg.max_sleeps = 50;
    srv_defaults();
    cfg.ssl_key = "key"; cfg.ssl_cert = "cert"; cfg.ssl_ca_file = "ca";
    char nm[120];
    if (IS("W25")) for (int k = 0; k < NH; k++) {
        snprintf(nm, sizeof nm, "%s: ends", H[k].name); sim_scenario(nm, s_ends, k);
        snprintf(nm, sizeof nm, "%s: time-outs", H[k].name); sim_scenario(nm, s_ends, k | 256);
        snprintf(nm, sizeof nm, "%s: several", H[k].name); sim_scenario(nm, s_row, k);
        sim_cfg.fault_budget = T ? 2 : 1; sim_cfg.f_malloc = true;
        snprintf(nm, sizeof nm, "%s: failing allocations", H[k].name); sim_scenario(nm, s_fails, k);
        sim_cfg.f_malloc = false; sim_cfg.f_err_write = sim_cfg.f_err_read = sim_cfg.f_short_write = sim_cfg.f_short_read = true; sim_cfg.fault_budget = T ? 3 : 2;
        snprintf(nm, sizeof nm, "%s: failing reads and writes", H[k].name); sim_scenario(nm, s_fails, k);
        sim_cfg.f_err_write = sim_cfg.f_err_read = sim_cfg.f_short_write = sim_cfg.f_short_read = false;
    }
    if (IS("W26")) for (int k = 0; k < NH; k++) {
        sim_cfg.fault_budget = T ? 3 : 2; sim_cfg.f_malloc = true;
        snprintf(nm, sizeof nm, "%s", H[k].name); sim_scenario(nm, s_oom, k);
        sim_cfg.fault_budget = T ? 2 : 1;
        snprintf(nm, sizeof nm, "%s, time-outs", H[k].name); sim_scenario(nm, s_oom, k | 256);
    }
    if (IS("W22")) {
        for (int p = 0; p < 5; p++) for (int u = 0; u < 3; u++) {
            snprintf(nm, sizeof nm, "%d pings, %s", p, u == 1 ? "upgraded" : u == 2 ? "unfinished request" : "no request");
            sim_scenario(nm, s_idle, p | u << 4 | (u == 1 ? (T ? 4 : 3) : (T ? 5 : 4)) << 8);
        }
        for (int p = 1; p < 5; p++) {
            snprintf(nm, sizeof nm, "partly sent messages, %d pings", p); sim_scenario(nm, s_pingpartial, p);
            snprintf(nm, sizeof nm, "several clients, %d pings", p); sim_scenario(nm, s_several, p);
            snprintf(nm, sizeof nm, "disabled, %d pings", p - 1); sim_scenario(nm, s_disabled, p - 1);
        }
    }
    if (IS("W23")) {
        for (int k = 0; k < NH; k++) for (int v = 0; v < (T ? 4 : 2); v++) {
            snprintf(nm, sizeof nm, "%s%s, %d workers", H[k].name, v & 1 ? ", time-outs" : "", 1 + v);
            sim_scenario(nm, s_stop, k | (v & 1) << 8 | v << 9);
        }
    }
}

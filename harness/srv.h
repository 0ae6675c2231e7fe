/* The whole server in the simulated world: starting it, a client's side of
 * the protocol (written from RFC 6455), and a probing subprotocol. */
#ifndef SRV_H
#define SRV_H
#include "sim.h"
#include "ssl_stub.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <signal.h>
#include "config.h"
#include "server.h"
#include "frame.h"
#include "alloc.h"

void register_repo_plugins(void);

#define PORT 8080
#define TPORT 8443
typedef void (*send_fn)(int, wss_opcode_t, char *, uint64_t);

/* ------------------------------------------------------------------ probe */
enum { EV_CONNECT, EV_MESSAGE, EV_CLOSE };
typedef struct { int type, fd, op; size_t len; uint8_t *data; } pev_t;
#define MAXEV 400
static pev_t pev[MAXEV]; static int npev;
static send_fn psend;
static bool probe_echo = true;
static void (*probe_hook)(int type, int fd, int op, char *msg, size_t len); /* behaviour of the application */
static int probe_inits, probe_destroys;
static int open_fd_state[128];      /* by descriptor: 1 connected, 0 not */
static const char *probe_cookies_want = ""; static bool probe_cookies_check;
static void pev_add(int type, int fd, int op, const char *m, size_t n) {
    if (npev == MAXEV) { fprintf(stderr, "ENGINE ERROR: too many probe events\n"); abort(); }
    pev_t *e = &pev[npev++];
    e->type = type; e->fd = fd; e->op = op; e->len = n; e->data = NULL;
    if (n) { e->data = sim_xalloc(n); memcpy(e->data, m, n); }
}
static void p_setAllocators(void *a, void *b, void *c) { (void)a; (void)b; (void)c; }
static void p_onInit(char *config, send_fn s) { (void)config; psend = s; probe_inits++; }
static void p_onConnect(int fd, char *ip, int port, char *path, char *cookies) {
    MC_CHECK(port >= 40000 && port < 40040 && ip && !strcmp(ip, sim_ip(port - 40000)) && sim_fd_of(port - 40000) == fd, "app:address", "descriptor %d is announced to the application as the client %s:%d, which is another one", fd, ip ? ip : "(null)", port);
    MC_CHECK(open_fd_state[fd] == 0, "app:connect-twice", "descriptor %d is announced to the application twice", fd);
    open_fd_state[fd] = 1;
    if (probe_cookies_check) MC_CHECK(!strcmp(cookies ? cookies : "", probe_cookies_want), "app:cookies", "the application is told the cookies '%s' instead of '%s'", cookies ? cookies : "(none)", probe_cookies_want);
    else if (cookies) (void)strlen(cookies);
    pev_add(EV_CONNECT, fd, 0, path, path ? strlen(path) : 0);
    if (probe_hook) probe_hook(EV_CONNECT, fd, 0, NULL, 0);
}
static void p_onMessage(int fd, wss_opcode_t op, char *msg, size_t len) {
    MC_CHECK(open_fd_state[fd] == 1, "app:message-unconnected", "a message of descriptor %d reaches the application, but that connection is not open (state %d)", fd, open_fd_state[fd]);
    pev_add(EV_MESSAGE, fd, op, msg, len);
    if (probe_echo) psend(fd, op, msg, len);
    if (probe_hook) probe_hook(EV_MESSAGE, fd, op, msg, len);
}
static void p_onWrite(int fd, char *m, size_t n) { (void)fd; (void)m; (void)n; }
static void p_onClose(int fd) {
    MC_CHECK(open_fd_state[fd] == 1, "app:close-twice", "descriptor %d is reported closed to the application, but no connection with it is open", fd);
    open_fd_state[fd] = 0;
    pev_add(EV_CLOSE, fd, 0, NULL, 0);
    if (probe_hook) probe_hook(EV_CLOSE, fd, 0, NULL, 0);
}
static void p_onDestroy(void) { probe_destroys++; }
static const sim_sym_t probe_syms[] = {
    { "setAllocators", p_setAllocators }, { "onInit", p_onInit }, { "onConnect", p_onConnect }, { "onMessage", p_onMessage },
    { "onWrite", p_onWrite }, { "onClose", p_onClose }, { "onDestroy", p_onDestroy }, { 0, 0 } };

/* ------------------------------------------------------------------ boot */
static wss_config_t cfg;
static char *srv_subs[4] = { "subprotocols/echo/echo.so", "subprotocols/broadcast/broadcast.so", "probe/probe.so" };
static char *srv_subcfg[4], *srv_extcfg[2];
static char *srv_exts[2] = { "extensions/permessage-deflate/permessage-deflate.so" };
static int srv_ret = -12345, srv_tid;
static bool srv_deflate;

static void srv_main(void *a) { (void)a; srv_ret = WSS_server_start(&cfg); }
static void srv_defaults(void) {
    memset(&cfg, 0, sizeof cfg);
    cfg.port_http = PORT; cfg.port_https = TPORT;
    cfg.log = 0;
    cfg.size_header = 8192; cfg.size_payload = 16777215; cfg.size_uri = 8192;
    cfg.size_ringbuffer = 16; cfg.size_buffer = 32768; cfg.size_thread = 64;
    cfg.size_frame = 1048576; cfg.max_frames = 1048576;
    cfg.pool_workers = 1; cfg.pool_retries = 5; cfg.timeout_pings = 1;
    cfg.timeout_poll = -1; cfg.timeout_read = 1000; cfg.timeout_write = 1000; cfg.timeout_client = -1;
    cfg.subprotocols = srv_subs; cfg.subprotocols_config = srv_subcfg; cfg.subprotocols_length = 3;
}
static void srv_start(void) {
    if (srv_deflate) { cfg.extensions = srv_exts; cfg.extensions_config = srv_extcfg; cfg.extensions_length = 1; }
    register_repo_plugins();
    sim_register_plugin("probe.so", probe_syms);
    srv_tid = sim_spawn("main", srv_main, NULL);
    sim_quiesce();
    MC_CHECK(srv_ret == -12345, "boot", "the server does not start (%d)", srv_ret);
    sim_mark_idle();
}
static void srv_stop(void) {
    sim_raise(SIGINT);
    sim_join(srv_tid);
}

/* ---------------------------------------------------------------- client */
static size_t opos[40];             /* how much of each connection's output was taken */
#define KEY "dGhlIHNhbXBsZSBub25jZQ=="
#define ACCEPT "s3pPLMBiTxaQ9kYGzzhZRbK+xOo="
static int ws_request(char *b, size_t n, const char *path, const char *proto, const char *extra) {
    return snprintf(b, n, "GET %s HTTP/1.1\r\nHost: localhost:%d\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: " KEY "\r\nSec-WebSocket-Version: 13\r\n%s%s%s%s\r\n",
        path, PORT, proto ? "Sec-WebSocket-Protocol: " : "", proto ? proto : "", proto ? "\r\n" : "", extra ? extra : "");
}
/* takes the answer to the upgrade; returns the status code, 0 if it is not there */
static int take_response(int c, char *hdr, size_t cap) {
    size_t n;
    const char *o = (const char *)sim_out(c, &n);
    for (size_t i = opos[c]; i + 4 <= n; i++) if (!memcmp(o + i, "\r\n\r\n", 4)) {
        size_t l = i + 4 - opos[c];
        if (hdr) { size_t k = l < cap - 1 ? l : cap - 1; memcpy(hdr, o + opos[c], k); hdr[k] = 0; }
        int code = l > 12 && !memcmp(o + opos[c], "HTTP/1.", 7) ? atoi(o + opos[c] + 9) : -1;
        opos[c] += l;
        return code;
    }
    return 0;
}
static int ws_open_ex(int port, const char *proto, const char *extra, char *hdr, size_t cap) {
    char b[2048];
    int n = ws_request(b, sizeof b, "/", proto, extra);
    int c = sim_connect(port);
    MC_CHECK(c >= 0, "refused", "the server does not listen");
    if (port == TPORT) sim_send(c, "\x16", 1);
    sim_send(c, b, n);
    sim_quiesce();
    int code = take_response(c, hdr, cap);
    MC_CHECK(code == 101, "upgrade", "a valid upgrade request is answered with %d", code);
    return c;
}
static int ws_open(const char *proto) { return ws_open_ex(PORT, proto, NULL, NULL, 0); }

static size_t enc_frame(uint8_t *o, int b0, bool masked, const void *p, size_t n, uint32_t key) {
    size_t k = 0;
    const uint8_t *s = p;
    uint8_t kb[4] = { key >> 24, key >> 16, key >> 8, key };
    o[k++] = b0;
    if (n < 126) o[k++] = n | (masked ? 128 : 0);
    else if (n < 65536) { o[k++] = 126 | (masked ? 128 : 0); o[k++] = n >> 8; o[k++] = n; }
    else { o[k++] = 127 | (masked ? 128 : 0); for (int i = 7; i >= 0; i--) o[k++] = (uint64_t)n >> (8 * i); }
    if (masked) { memcpy(o + k, kb, 4); k += 4; }
    for (size_t i = 0; i < n; i++) o[k++] = masked ? s[i] ^ kb[i & 3] : s[i];
    return k;
}
static void ws_send(int c, int b0, const void *p, size_t n) {
    uint8_t *b = sim_xalloc(n + 16);
    size_t k = enc_frame(b, b0, true, p, n, 0x37fa213d);
    sim_send(c, b, k);
    sim_xfree(b);
}
static void ws_text(int c, const char *s) { ws_send(c, 0x81, s, strlen(s)); }

/* one frame of the server's output */
typedef struct { int fin, rsv, op; uint64_t len; const uint8_t *p; } ofr_t;
/* 1: a frame was taken, 0: nothing (more) there, -1: incomplete */
static int out_frame(int c, ofr_t *f) {
    size_t n;
    const uint8_t *o = sim_out(c, &n);
    size_t i = opos[c];
    if (i == n) return 0;
    if (n - i < 2) return -1;
    f->fin = o[i] >> 7; f->rsv = o[i] >> 4 & 7; f->op = o[i] & 15;
    MC_CHECK(!(o[i + 1] & 128), "out:masked", "connection %d: the server sends a masked frame", c);
    f->len = o[i + 1] & 127;
    i += 2;
    if (f->len == 126) { if (n - i < 2) return -1; f->len = o[i] << 8 | o[i + 1]; i += 2; }
    else if (f->len == 127) { if (n - i < 8) return -1; f->len = 0; for (int k = 0; k < 8; k++) f->len = f->len << 8 | o[i + k]; i += 8; }
    if (f->len > n - i) return -1;
    f->p = o + i;
    opos[c] = i + f->len;
    return 1;
}
/* one message or control frame: returns the type, 0 nothing, -1 incomplete, -2 not well formed */
static int out_msg(int c, uint8_t *b, size_t cap, size_t *len) {
    static int partial;
    size_t start = opos[c];
    *len = 0;
    int type = -1;
    (void)partial;
    for (;;) {
        ofr_t f;
        int r = out_frame(c, &f);
        if (r == 0) { opos[c] = start; return type < 0 ? 0 : -1; }
        if (r < 0) { opos[c] = start; return -1; }
        if (f.rsv) return -2;
        if (type < 0) { if (f.op == 0) return -2; type = f.op; } else if (f.op != 0) return -2;
        if (f.op > 10 || (f.op > 2 && f.op < 8)) return -2;
        if (f.op >= 8 && (!f.fin || f.len > 125)) return -2;
        MC_CHECK(*len + f.len <= cap, "out:size", "connection %d: the server sends a message of more than %zu bytes", c, cap);
        memcpy(b + *len, f.p, f.len);
        *len += f.len;
        if (f.fin) return type;
    }
}
static const char *hexs(const void *p, size_t n) {
    static char b[8][420]; static int k;
    char *o = b[k++ & 7];
    const uint8_t *s = p;
    size_t m = n < 200 ? n : 200;
    o[0] = 0;
    for (size_t i = 0; i < m; i++) sprintf(o + 2 * i, "%02x", s[i]);
    if (m < n) strcat(o, "...");
    return o;
}
/* the connection is served: a message comes back from the echo service */
static void still_serving(const char *why) {
    int c = ws_open("echo");
    ws_text(c, "still there?");
    sim_quiesce();
    uint8_t b[64]; size_t n;
    int t = out_msg(c, b, sizeof b, &n);
    MC_CHECK(t == 1 && n == 12 && !memcmp(b, "still there?", 12), "serving", "after %s the server does not serve a new client (%d, %zu bytes)", why, t, n);
    sim_close_client(c);
    sim_quiesce();
    MC_CHECK(sim_server_closed(c), "serving:close", "after %s the server does not close a connection that the client has closed", why);
}
#endif

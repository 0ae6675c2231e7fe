/* W03 W04 W05 W06 W07 W11 W14 W21: the protocol after the upgrade, on the whole server. */
#include "model.h"
const char *harness_rule = "every sequence of the listed client frames and segmentations is sent to the running server in the simulated world and the outcome is compared with an independent RFC 6455 state machine";
static int C, FD;
static model_t M;

static void boot(const char *proto) {
    srv_start();
    C = ws_open(proto);
    FD = sim_fd_of(C);
    model_init(&M);
    mc_checkpoint();
}
static void feed(const void *p, size_t n) { sim_send(C, p, n); model_add(&M, p, n); }

/* ------------------------------------------------------- frame alphabet */
typedef struct { const char *name; int b0; int masked; const char *data; int len; } af_t;
static char big126[126];
#define S(s) s, sizeof(s) - 1
static const af_t A[] = {
    { "text", 0x81, 1, S("a") }, { "text...", 0x01, 1, S("bc") }, { "bin", 0x82, 1, S("\x80\xff") }, { "bin...", 0x02, 1, S("\xc3") },
    { "cont", 0x80, 1, S("d") }, { "cont...", 0x00, 1, S("ef") }, { "ping", 0x89, 1, S("p1") }, { "ping0", 0x89, 1, S("") }, { "pong", 0x8a, 1, S("x") },
    { "close", 0x88, 1, S("\x03\xe8") }, { "close0", 0x88, 1, S("") },
    { "text0", 0x81, 1, S("") }, { "text0...", 0x01, 1, S("") }, { "cont0", 0x80, 1, S("") }, { "textC3...", 0x01, 1, S("\xc3") }, { "contA9", 0x80, 1, S("\xa9") },
    /* violations */
    { "unmasked", 0x81, 0, S("u") }, { "rsv1", 0xc1, 1, S("r") }, { "rsv3ping", 0x99, 1, S("r") }, { "op3", 0x83, 1, S("o") }, { "op11", 0x8b, 1, S("o") },
    { "ping...", 0x09, 1, S("f") }, { "ping126", 0x89, 1, big126, 126 }, { "close1", 0x88, 1, S("\x03") }, { "close999", 0x88, 1, S("\x03\xe7") },
    { "closebad", 0x88, 1, S("\x03\xe8\xff") }, { "closewhy", 0x88, 1, S("\x0f\xa1why") }, { "text!utf8", 0x81, 1, S("\xc3(") },
    { "unmaskedping", 0x89, 0, S("u") }, { "unmaskedclose", 0x88, 0, S("\x03\xe8") }, { "close...", 0x08, 1, S("\x03\xe8") }, { "rsv2cont", 0xa0, 1, S("z") }, { "bin0", 0x82, 1, S("") },
};
#define NA ((int)(sizeof A / sizeof *A))
#define NVALID 16
static size_t put(uint8_t *b, const af_t *a) { return enc_frame(b, a->b0, a->masked, a->data, a->len, 0x11223344); }

/* every sequence of frames up to a depth; mode 0: one segment, 1: one segment per frame,
 * 2: as 1, but the last byte of each frame comes later */
static void sc_seq(long arg) {
    int depth = arg & 15, mode = arg >> 4 & 15, alpha = arg >> 8 ? arg >> 8 : NA;
    boot("probe");
    static uint8_t b[4096];
    size_t n = 0;
    char ctx[200] = "";
    int after = 0;
    for (int i = 0; i < depth; i++) {
        int k = mc_choose(alpha + (i > 0), "frame");
        if (k == alpha) break;
        n += put(b + n, &A[k]);
        snprintf(ctx + strlen(ctx), sizeof ctx - strlen(ctx), " %s", A[k].name);
        if (mode) {
            if (mode == 2) { feed(b, n - 1); sim_quiesce(); feed(b + n - 1, 1); }
            else feed(b, n);
            sim_quiesce(); n = 0;
            if (M.closed && after++) break;
        }
    }
    if (n) feed(b, n);
    sim_quiesce();
    model_check(&M, C, FD, true, ctx);
    if (mc_choose(2, "then") == 0) return;
    still_serving(ctx);
}

/* ------------------------------------------------------- segmentation */
static const char *streams[] = {
    "text ping bin close", "text... ping cont text close", "text0 text... cont... ping0 cont bin", "textC3... contA9 ping close0", "text... rsv1", "ping pong text", "text... text", "bin... ping cont... ping0 cont close",
    "text unmasked text", "cont text", "close text ping", "text!utf8 text", "text... close cont", "ping ping... ping", "op3 close", "bin... cont0 text0 close1", "text text text bin0", "ping126 text", "text... ping pong ping0 cont ping close",
};
#define NS ((int)(sizeof streams / sizeof *streams))
static size_t mkstream(uint8_t *b, const char *s) {
    size_t n = 0;
    char w[40];
    int k;
    while (sscanf(s, "%39s%n", w, &k) == 1) {
        s += k;
        int i;
        for (i = 0; i < NA; i++) if (!strcmp(A[i].name, w)) break;
        if (i == NA) { fprintf(stderr, "ENGINE ERROR: no frame %s\n", w); abort(); }
        n += put(b + n, &A[i]);
    }
    return n;
}
static void run_cuts(const uint8_t *b, size_t n, int ncuts, const char *ctx) {
    size_t from = 0, min = 1;
    int left = ncuts;
    while (left > 0 && from + 1 < n) {
        /* the next cut: a position behind the last one, or none any more */
        int k = mc_choose((int)(n - from), "cut");
        if (k == 0) break;
        feed(b + from, k); sim_quiesce();
        from += k; left--;
    }
    (void)min;
    feed(b + from, n - from);
    sim_quiesce();
    model_check(&M, C, FD, true, ctx);
}
static void sc_cuts(long arg) {
    static uint8_t b[4096];
    int k = arg & 255, ncuts = arg >> 8 & 255;
    boot("probe");
    size_t n = mkstream(b, streams[k]);
    if (ncuts == 255) {
        /* fixed pieces */
        int p = 1 + mc_choose(8, "piece");
        for (size_t i = 0; i < n; i += p) { feed(b + i, i + p <= n ? p : n - i); sim_quiesce(); }
        model_check(&M, C, FD, true, streams[k]);
        return;
    }
    run_cuts(b, n, ncuts, streams[k]);
}
/* short reads and interrupted reads */
static void sc_reads(long arg) {
    static uint8_t b[4096];
    boot("probe");
    size_t n = mkstream(b, streams[arg & 255]);
    sim_faults_on = true;
    size_t h = mc_choose(2, "parts") ? n / 2 : n;
    feed(b, h);
    sim_quiesce();
    if (h < n) feed(b + h, n - h);
    sim_quiesce();
    sim_faults_on = false;
    model_check(&M, C, FD, true, streams[arg & 255]);
}

/* lengths: each boundary length, complete and cut at every byte of the header and around the end */
static const int lens[] = { 0, 1, 2, 3, 15, 16, 17, 31, 32, 33, 63, 64, 65, 124, 125, 126, 127, 128, 255, 256, 4095, 4096, 65534, 65535, 65536, 65537, 70000 };
static void sc_lengths(long arg) {
    static uint8_t b[1 << 17], d[1 << 17];
    int op = arg;
    boot("probe");
    int L = lens[mc_choose(sizeof lens / sizeof *lens, "length")];
    for (int i = 0; i < L; i++) d[i] = op == 1 ? 'a' + i % 26 : i * 7 + (i >> 8);
    size_t n = enc_frame(b, 0x80 | op, true, d, L, 0xa1b2c3d4);
    int cut = mc_choose(18, "cut");
    size_t at = cut < 15 ? (size_t)cut : cut == 15 ? n - 1 : cut == 16 ? n / 2 : n - 2;
    if (at > 0 && at < n) { feed(b, at); sim_quiesce(); feed(b + at, n - at); } else if (cut && cut < 15) mc_prune(); else feed(b, n);
    b[0] = 0x89; b[1] = 0x80; memset(b + 2, 0, 4);
    feed(b, 6);
    sim_quiesce();
    char ctx[40]; snprintf(ctx, sizeof ctx, " length %d cut %zu", L, at);
    model_check(&M, C, FD, true, ctx);
}


/* W01 in the running server: frames of every small length and around each boundary,
 * at different offsets of the receive buffer, under several keys, and buffers of several sizes */
static void sc_decode(long arg) {
    static uint8_t b[1 << 18], d[1 << 17];
    static const uint32_t keys[] = { 0, 0xffffffff, 0x01020304, 0x80000000, 0x00ff00ff };
    int op = arg & 3, big = arg >> 2 & 1;
    cfg.size_buffer = arg >> 3 ? arg >> 3 : cfg.size_buffer;
    boot("probe");
    static const int bl[] = { 1000, 4095, 4096, 16383, 16384, 32750, 32759, 32760, 32761, 32762, 32767, 32768, 32769, 65519, 65520, 65521, 65522, 65527, 65528, 65534, 65535, 65536, 65537, 70000, 98303, 98304, 100000 };
    int L = big ? bl[mc_choose(sizeof bl / sizeof *bl, "length")] : mc_choose(270, "length");
    int off = big ? mc_choose(2, "before") * 5 : mc_choose(9, "before"), key = mc_choose(big ? 2 : 5, "key");
    size_t n = 0;
    for (int i = 0; i < L; i++) d[i] = op == 1 ? 'a' + (i + i / 26) % 26 : i * 7 + (i >> 8) * 3;
    if (off) n += enc_frame(b, 0x8a, true, "zzzzzzzzz", off - 1, 0x0a0b0c0d); /* a pong: absorbed */
    int form = L > 125 ? 0 : mc_choose(3, "length form"); /* longer forms than needed */
    size_t h = n;
    b[n++] = 0x80 | op;
    if (form == 0) { n = h + enc_frame(b + h, 0x80 | op, true, d, L, keys[key]); }
    else {
        int z = form == 1 ? 2 : 8;
        b[n++] = 0x80 | (form == 1 ? 126 : 127);
        for (int i = 0; i < z; i++) b[n++] = i < z - 2 ? 0 : L >> (8 * (z - 1 - i));
        for (int i = 0; i < 4; i++) b[n++] = keys[key] >> (24 - 8 * i);
        for (int i = 0; i < L; i++) { b[n] = d[i] ^ b[n - i - 4 + i % 4]; n++; }
    }
    n += enc_frame(b + n, 0x89, true, "next", 4, 0x51525354);
    n += enc_frame(b + n, 0x82, true, "\1\2\3", 3, 0x61626364);
    feed(b, n); sim_quiesce();
    char ctx[80]; snprintf(ctx, sizeof ctx, " length %d behind %d bytes, key %d, form %d", L, off, key, form);
    model_check(&M, C, FD, true, ctx);
}
/* W02 in the running server: what an application or a service sends, of any length and
 * type, arrives as frames of at most the configured size */
static void check_frames(int c, size_t *at, int op, const uint8_t *d, size_t len, size_t lim, const char *ctx) {
    size_t n, k = 0, i = *at; int fr = 0; bool fin = false;
    const uint8_t *o = sim_out(c, &n);
    do {
        MC_CHECK(i + 2 <= n, "out:missing", "%s: %zu of %zu bytes are sent", ctx, k, len);
        int b0 = o[i], b1 = o[i + 1]; size_t l = b1 & 127, h = 2;
        MC_CHECK(!(b1 & 128), "out:masked", "%s: frame %d is masked", ctx, fr);
        if (l == 126) { MC_CHECK(i + 4 <= n, "out:missing", "%s: the header of frame %d is not complete", ctx, fr); l = o[i + 2] << 8 | o[i + 3]; h = 4; MC_CHECK(l > 125, "out:length", "%s: frame %d has its length %zu not in the shortest form", ctx, fr, l); }
        else if (l == 127) { MC_CHECK(i + 10 <= n, "out:missing", "%s: the header of frame %d is not complete", ctx, fr); l = 0; for (int j = 0; j < 8; j++) l = l << 8 | o[i + 2 + j]; h = 10; MC_CHECK(l > 65535, "out:length", "%s: frame %d has its length %zu not in the shortest form", ctx, fr, l); }
        MC_CHECK(!(b0 & 0x70), "out:bits", "%s: frame %d has reserved bits", ctx, fr);
        MC_CHECK((b0 & 15) == (fr ? 0 : op), "out:type", "%s: frame %d has type %d", ctx, fr, b0 & 15);
        MC_CHECK(l <= lim, "out:size", "%s: frame %d has %zu bytes", ctx, fr, l);
        MC_CHECK(i + h + l <= n, "out:missing", "%s: frame %d is not complete", ctx, fr);
        MC_CHECK(k + l <= len && !memcmp(o + i + h, d + k, l), "out:data", "%s: frame %d (%zu bytes at %zu) is not that part of the message", ctx, fr, l, k);
        i += h + l; k += l; fr++; fin = b0 & 0x80;
    } while (!fin);
    MC_CHECK(k == len, "out:missing", "%s: the message ends after %zu of %zu bytes", ctx, k, len);
    *at = i;
}
static const uint8_t *od; static size_t on; static int oop;
static void out_hook(int type, int fd, int op, char *msg, size_t len) { (void)op; (void)msg; (void)len; (void)fd; if (type == EV_MESSAGE) { psend(FD, oop, (char *)od, on); psend(FD, 2, "\1", 1); } }
static const int fsz[] = { 1, 2, 3, 5, 7, 64, 124, 125, 126, 127, 128, 1000, 65534, 65535, 65536, 65537, 80000 };
static void sc_outgoing(long arg) {
    static uint8_t d[1 << 18];
    int way = arg & 3, fi = arg >> 2 & 31; /* 0 the application sends, 1 echo, 2 broadcast */
    cfg.size_frame = fsz[fi];
    size_t lim = fsz[fi];
    const char *proto = way == 0 ? "probe" : way == 1 ? "echo" : "broadcast";
    if (way == 0) { probe_echo = false; probe_hook = out_hook; }
    srv_start();
    C = ws_open(proto); FD = sim_fd_of(C);
    int D = ws_open(proto);
    sim_quiesce();
    size_t at; sim_out(C, &at);
    mc_checkpoint();
    static const int around[] = { 0, 1, 2, 3, 124, 125, 126, 127, 128, 250, 251, 252, 253, 254, 255, 256, 65534, 65535, 65536, 65537, 131070, 131071, 131072, 200000 };
    size_t len;
    int NA_ = sizeof around / sizeof *around, k = mc_choose(NA_ + 12, "length");
    if (k < NA_) len = around[k]; else { size_t m = (k - NA_) / 4 + 1; len = m * lim + (k - NA_) % 4 - 1; if ((k - NA_) % 4 == 3) len = m * lim + lim / 2; }
    if (len / lim > 1000) len = 1000 * lim - len % 3;
    if (len > 260000) len = 260000;
    int op = 1 + mc_choose(2, "type");
    int win = mc_choose(3, "window");
    for (size_t i = 0; i < len; i++) d[i] = op == 1 ? 'a' + (i + i / 26 + i / 700) % 26 : (i * 7 + (i >> 8) * 3) & 255;
    char ctx[100]; snprintf(ctx, sizeof ctx, "%s, message of %zu bytes, frames of %zu", proto, len, lim);
    if (win) sim_window(C, win == 1 ? 3 : (int)(len / 2 + 4));
    if (way == 0) { od = d; on = len; oop = op; ws_text(D, "g"); sim_quiesce(); }
    else {
        int from = way == 1 ? C : D;
        size_t m = 0;
        static uint8_t b[(1 << 18) + 64000];
        size_t n = 0;
        do { size_t l = len - m < lim ? len - m : lim; n += enc_frame(b + n, (m ? 0 : op) | (m + l == len ? 0x80 : 0), true, d + m, l, 0x13572468 + m); m += l; } while (m < len);
        sim_send(from, b, n); sim_quiesce();
        ws_send(from, 0x82, "\1", 1); sim_quiesce();
    }
    if (win) { if (win == 2) { sim_window(C, 70000); sim_quiesce(); } sim_window(C, -1); sim_quiesce(); }
    check_frames(C, &at, op, d, len, lim, ctx);
    check_frames(C, &at, 2, (const uint8_t *)"\1", 1, lim, ctx);
    size_t n; sim_out(C, &n);
    MC_CHECK(n == at, "out:more", "%s: %zu bytes are sent behind the messages", ctx, n - at);
    mc_outcome(mc_hash(len, &lim, sizeof lim));
}

/* ------------------------------------------------------------ W05 server */
static void sc_utf8(long arg) {
    static const uint8_t B[] = { 'a', 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xdf, 0xe0, 0xe1, 0xed, 0xef, 0xf0, 0xf1, 0xf4, 0xf5, 0xff, 0x00 };
    int maxlen = arg & 15, kind = arg >> 4;
    boot("probe");
    uint8_t s[8], b[64];
    int n = 0;
    while (n < maxlen) { int k = mc_choose(sizeof B + (n > 0), "byte"); if (k == (int)sizeof B) break; s[n++] = B[k]; }
    size_t k = 0;
    if (kind == 0) {
        /* as one, two or three frames, with a ping in between */
        int c1 = mc_choose(n + 2, "split");
        if (c1 == n + 1) k = enc_frame(b, 0x81, true, s, n, 0x01020304);
        else {
            k = enc_frame(b, 0x01, true, s, c1, 0x01020304);
            k += enc_frame(b + k, 0x89, true, "\xff", 1, 0x01020304);
            k += enc_frame(b + k, 0x80, true, s + c1, n - c1, 0x09080706);
        }
    } else if (kind == 1) { /* the reason of a close frame */
        uint8_t r[16] = { 0x03, 0xe9 };
        memcpy(r + 2, s, n);
        k = enc_frame(b, 0x88, true, r, n + 2, 0x01020304);
    } else k = enc_frame(b, 0x82, true, s, n, 0x01020304);
    feed(b, k);
    sim_quiesce();
    model_check(&M, C, FD, true, "");
}

/* ----------------------------------------------------------- W06 closing */
static void sc_closecode(long arg) {
    static const int hi[] = { 5101, 6000, 9999, 10000, 32767, 32768, 65534, 65535 };
    boot("probe");
    int code = mc_choose(256 * 20 + 8, "code");
    if (code >= 256 * 20) code = hi[code - 256 * 20];
    uint8_t p[128] = { code >> 8, code }, b[256];
    int rl = arg == 0 ? 0 : arg == 1 ? 5 : 123;
    for (int i = 0; i < rl; i++) p[2 + i] = 'a' + i % 26;
    size_t n = enc_frame(b, 0x88, true, p, 2 + rl, 0x55667788);
    feed(b, n);
    sim_quiesce();
    model_check(&M, C, FD, true, "close code");
}
/* ping payloads of every length, singly and in rows */
static void sc_pings(long arg) {
    boot("probe");
    uint8_t b[1024], d[126];
    size_t n = 0;
    int L = mc_choose(126, "length");
    for (int i = 0; i < L; i++) d[i] = i * 5 + L;
    int frag = mc_choose(3, "where");
    if (frag) n += enc_frame(b, 0x02, true, "ab", 2, 1);
    int k = 1 + arg;
    for (int i = 0; i < k; i++) { if (L) d[0] = i; n += enc_frame(b + n, 0x89, true, d, L, 0x99887766 + i); }
    if (frag == 2) n += enc_frame(b + n, 0x80, true, "cd", 2, 7);
    feed(b, n);
    sim_quiesce();
    model_check(&M, C, FD, true, "pings");
}
/* the server's own side of the close: pending output first */
static void sc_closepending(long arg) {
    boot("probe");
    uint8_t b[256];
    size_t n = 0;
    sim_window(C, mc_choose(24, "window"));
    n += enc_frame(b + n, 0x81, true, "hello", 5, 3);
    n += enc_frame(b + n, 0x89, true, "pp", 2, 4);
    n += enc_frame(b + n, 0x82, true, "world", 5, 5);
    n += enc_frame(b + n, 0x88, true, "\x03\xe9zz", 4, 6);
    n += enc_frame(b + n, 0x81, true, "no", 2, 7);
    if (arg) { size_t k = mc_choose(4, "cut") * 9 + 5; feed(b, k); sim_quiesce(); feed(b + k, n - k); } else feed(b, n);
    sim_quiesce();
    int w = mc_choose(6, "more");
    if (w) { sim_window(C, w * 3); sim_quiesce(); }
    sim_window(C, -1);
    sim_quiesce();
    model_check(&M, C, FD, true, " small window");
}

/* more answers than the queue of a client that does not read has room for */
static void sc_fullqueue(long arg) {
    cfg.size_ringbuffer = arg;
    boot("probe");
    sim_window(C, mc_choose(5, "window"));
    int k = mc_choose((int)arg * 2 + 3, "messages"), kind = mc_choose(3, "kind"), seg = mc_choose(2, "segments"), end = mc_choose(5, "end");
    static uint8_t b[8192];
    uint8_t m[16];
    size_t n = 0;
    for (int i = 0; i < k; i++) {
        int b0 = kind == 0 || (kind == 2 && i & 1) ? 0x89 : 0x82;
        m[0] = i; m[1] = 7;
        n += enc_frame(b + n, b0, true, m, 2, 5 + i);
        if (seg) { feed(b, n); n = 0; sim_quiesce(); }
    }
    bool same = !seg && (end == 1 || end == 2) && mc_choose(2, "end in the same segment");
    if (n && !same) { feed(b, n); n = 0; sim_quiesce(); }
    static const char *en[] = { "no end", "close", "violation", "close by the client", "reset" };
    char ctx[100];
    snprintf(ctx, sizeof ctx, "queue of %ld, %d unread messages, then %s", arg, k, en[end]);
    if (end == 1) n += enc_frame(b + n, 0x88, true, "\x03\xe8", 2, 9);
    if (end == 2) n += enc_frame(b + n, 0x83, true, "x", 1, 9);
    if (end == 1 || end == 2) { feed(b, n); if (mc_choose(2, "pause")) sim_quiesce(); n = enc_frame(b, 0x81, true, "late", 4, 9); feed(b, n); sim_quiesce(); }
    if (end == 3) { sim_shutdown_client(C); sim_quiesce(); }
    if (end == 4) { sim_reset_client(C); sim_quiesce(); }
    sim_window(C, -1);
    sim_quiesce();
    /* deliveries do not depend on the queue; what is sent are whole answers in order, and as many as there is room for */
    int nm = 0, nx = 0;
    for (int i = 0; i < npev; i++) if (pev[i].fd == FD) {
        if (pev[i].type == EV_MESSAGE) { MC_CHECK(nm < M.ndel && M.del[nm].len == pev[i].len && !memcmp(M.buf + M.del[nm].off, pev[i].data, pev[i].len), "deliver:extra", "%s: delivery %d is %s", ctx, nm, hexs(pev[i].data, pev[i].len)); nm++; }
        nx += pev[i].type == EV_CLOSE;
    }
    if (end < 3) MC_CHECK(nm == M.ndel, "deliver:missing", "%s: %d of %d messages are delivered", ctx, nm, M.ndel);
    int e = 0, p = 0, total = 0, closes = 0;
    for (;;) {
        size_t l; uint8_t o[64];
        int t = out_msg(C, o, sizeof o, &l);
        if (t == -1 && end == 4) break;
        MC_CHECK(t >= 0, "out:malformed", "%s: the output is damaged", ctx);
        if (!t) break;
        MC_CHECK(!closes, "out:after-close", "%s: something is sent after the close frame", ctx);
        if (t == 8) {
            int code = l >= 2 ? o[0] << 8 | o[1] : -1; bool ok = false;
            for (int i = 0; i < M.ncodes; i++) ok |= M.codes[i] == code;
            MC_CHECK(ok, "close:code", "%s: closed with code %d", ctx, code);
            closes++;
        }
        else if (t == 10) { while (p < M.npong && memcmp(M.buf + M.pong[p].off, o, l)) p++; MC_CHECK(p < M.npong, "pong:extra", "%s: pong %s", ctx, hexs(o, l)); p++; total++; }
        else { while (e < M.ndel && memcmp(M.buf + M.del[e].off, o, l)) e++; MC_CHECK(e < M.ndel, "echo:extra", "%s: answer %s", ctx, hexs(o, l)); e++; total++; }
    }
    if (end != 4) {
        MC_CHECK(total >= (k < arg - 1 ? k : arg - 1), "write:missing", "%s: only %d messages are sent", ctx, total);
        if (k < arg - 1 && (end == 1 || end == 2)) MC_CHECK(closes, "close:missing", "%s: no close frame", ctx);
        if (k == 0 && (end == 1 || end == 2)) MC_CHECK(closes, "close:missing", "%s: no close frame", ctx);
    }
    bool closed = sim_server_closed(C);
    MC_CHECK(closed == (end > 0), "close:socket", "%s: the socket is %s", ctx, closed ? "closed" : "not closed");
    MC_CHECK(nx == (end > 0), "app:close", "%s: the application is told %d times of the close", ctx, nx);
    if (!closed) { feed("\x89\x83\0\0\0\0end", 9); sim_quiesce(); size_t l; uint8_t o[8]; MC_CHECK(out_msg(C, o, 8, &l) == 10 && l == 3, "write:later", "%s: a later ping is not answered", ctx); }
    still_serving(ctx);
    mc_outcome(mc_hash(total * 8 + end, ctx, strlen(ctx)));
}

/* -------------------------------------------------------------- W14 size */
static void sc_framesize(long arg) {
    cfg.size_frame = arg;
    boot("probe");
    static uint8_t b[1 << 17], d[1 << 16];
    int lim = cfg.size_frame;
    int L = lim - 3 + mc_choose(8, "length");
    if (L < 0) mc_prune();
    for (int i = 0; i < L; i++) d[i] = 'a' + i % 26;
    int pos = mc_choose(4, "position");
    size_t n = 0;
    int cut = mc_choose(2, "segments");
    if (pos == 1) { n += enc_frame(b + n, 0x01, true, "x", 1, 1); n += enc_frame(b + n, 0x80, true, d, L, 2); }
    else if (pos == 2) { n += enc_frame(b + n, 0x01, true, d, L, 1); n += enc_frame(b + n, 0x80, true, d, lim < 100 ? lim : 100, 2); }
    else if (pos == 3) { n += enc_frame(b + n, 0x81, true, "ok", 2, 2); n += enc_frame(b + n, 0x82, true, d, L, 1); }
    else n += enc_frame(b + n, 0x81, true, d, L, 1);
    n += enc_frame(b + n, 0x81, true, "next", 4, 1);
    if (cut) { feed(b, 1); sim_quiesce(); feed(b + 1, n - 1); } else feed(b, n);
    sim_quiesce();
    char ctx[60]; snprintf(ctx, sizeof ctx, " frame of %d bytes, limit %d", L, lim);
    model_check(&M, C, FD, true, ctx);
}
/* long length fields: announced but not (completely) sent */
static void sc_announce(long arg) {
    static const uint64_t v[] = { 0, 1, 125, 126, 127, 128, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xfffffffffffffff0, 0xffffffffffffffff };
    boot("probe");
    (void)arg;
    uint64_t L = mc_choose(2, "kind") ? (uint64_t)-mc_choose(40, "below") - 1 : v[mc_choose(16, "value")];
    uint8_t b[64] = { 0x82, 0xff };
    b[0] = "\x82\x02\x80\x89\x88"[mc_choose(5, "type")];
    for (int i = 0; i < 8; i++) b[2 + i] = L >> (56 - 8 * i);
    memset(b + 10, 0, 54);
    int k = mc_choose(4, "sent");
    int n = k == 0 ? 10 : k == 1 ? 14 : k == 2 ? 20 : 60;
    feed(b, n);
    sim_quiesce();
    /* what may still be unfinished is ended by the client */
    if (!sim_server_closed(C)) {
        M.in[M.nin] = 0;
        sim_close_client(C); sim_quiesce();
        MC_CHECK(sim_server_closed(C), "stuck", "a client that announced %llu bytes, sent %d and closed is never closed by the server", (unsigned long long)L, n);
    } else if (M.closed || M.maybe) {
        if (M.maybe) M.closed = 1;
        if (M.closed) {}
        model_check(&M, C, FD, true, " announced length");
    } else mc_fail("close:unexpected", "the connection is closed after a frame header announcing %llu bytes without a violation", (unsigned long long)L);
    still_serving("an announced length");
}
static void sc_framecount(long arg) {
    cfg.max_frames = arg;
    boot("probe");
    uint8_t b[1024];
    size_t n = 0;
    int lim = cfg.max_frames, per = mc_choose(2, "segments"), pings = mc_choose(3, "pings"), before = mc_choose(3, "before");
    int k = 1 + mc_choose(lim + 3, "frames");
    for (int i = 0; i < before * lim; i++) { n += enc_frame(b + n, 0x82, true, "s", 1, 5); if (per) { feed(b, n); n = 0; sim_quiesce(); } }
    for (int i = 0; i < k; i++) {
        uint8_t c = 'a' + i;
        n += enc_frame(b + n, (i ? 0 : 1) | (i == k - 1 ? 0x80 : 0), true, &c, 1, 9);
        for (int j = 0; j < pings; j++) n += enc_frame(b + n, 0x89, true, &c, 1, 7);
        if (per) { feed(b, n); n = 0; sim_quiesce(); }
    }
    n += enc_frame(b + n, 0x81, true, "next", 4, 1);
    feed(b, n);
    sim_quiesce();
    char ctx[60]; snprintf(ctx, sizeof ctx, " message of %d frames, limit %d", k, lim);
    model_check(&M, C, FD, true, ctx);
}

/* ---------------------------------------------------------- W11 hostile */
static void sc_raw(long arg) {
    boot("probe");
    uint8_t b[16];
    int n = arg & 15;
    static const uint8_t I[] = { 0, 1, 2, 3, 8, 9, 10, 0x7d, 0x7e, 0x7f, 0x80, 0x81, 0x82, 0x88, 0x89, 0x8a, 0x8f, 0xc1, 0xfd, 0xfe, 0xff };
    for (int i = 0; i < n; i++) b[i] = (arg >> 4) == 0 ? mc_choose(256, "byte") : I[mc_choose(sizeof I, "byte")];
    feed(b, n);
    sim_quiesce();
    if (M.maybe && sim_server_closed(C)) { M.closed = 1; }
    model_check(&M, C, FD, true, " raw");
    if (!sim_server_closed(C)) {
        sim_close_client(C); sim_quiesce();
        MC_CHECK(sim_server_closed(C), "stuck", "after the bytes %s and a close by the client the server does not close the connection", hexs(b, n));
    }
}
/* every header with a payload that follows */
static void sc_headers(long arg) {
    boot("probe");
    static uint8_t b[70000];
    (void)arg;
    b[0] = mc_choose(256, "byte0");
    static const uint8_t L1[] = { 0, 1, 2, 3, 0x7d, 0x7e, 0x7f, 0x80, 0x81, 0x82, 0x83, 0xfd, 0xfe, 0xff };
    b[1] = L1[mc_choose(sizeof L1, "byte1")];
    int l = b[1] & 127, h = 2;
    if (l == 126) { b[2] = 0; b[3] = mc_choose(2, "len") ? 200 : 3; l = b[3]; h = 4; }
    else if (l == 127) { memset(b + 2, 0, 8); b[9] = mc_choose(2, "len") ? 200 : 3; l = b[9]; h = 10; }
    if (b[1] & 128) { memcpy(b + h, "\0\0\0\0", 4); h += 4; }
    int body = mc_choose(2, "body");
    memset(b + h, 'x', l);
    if (body && l >= 2) { b[h] = 3; b[h + 1] = 0xe8; }
    int before = mc_choose(2, "in a message");
    uint8_t s[16];
    if (before) feed(s, enc_frame(s, 0x02, true, "q", 1, 1));
    feed(b, h + l);
    sim_quiesce();
    model_check(&M, C, FD, true, " header");
}

/* ------------------------------------------------------------ W07 writes */
static void w07_hook(int type, int fd, int op, char *msg, size_t len) {
    (void)op;
    /* "Nxx": xx is sent to connection N's descriptor, whatever the sender */
    if (type == EV_MESSAGE && len && msg[0] == '>') {
        for (size_t i = 1; i < len; i++) { char m[12]; int k = msg[i] - '0'; memset(m, 'A' + i, k); psend(FD, 2, m, k); }
    } else if (type == EV_MESSAGE && fd == FD) psend(fd, 1, msg, len);
}
static uint8_t want[1 << 16]; static size_t nwant, nstart;
static void w_expect(int b0, const void *p, size_t n) { nwant += enc_frame(want + nwant, b0, false, p, n, 0); }
static void w_prefix(const char *when, bool all) {
    size_t n;
    const uint8_t *o = sim_out(C, &n);
    o += nstart; n -= nstart;
    MC_CHECK(n <= nwant, "write:more", "%s: %zu bytes are sent where %zu were queued: %s", when, n, nwant, hexs(o, n));
    MC_CHECK(!memcmp(o, want, n), "write:bytes", "%s: the bytes sent are not a prefix of the messages queued: %s instead of %s", when, hexs(o, n), hexs(want, nwant));
    if (all) MC_CHECK(n == nwant, "write:missing", "%s: %zu of the %zu bytes queued are sent although the client reads (%s)", when, n, nwant, hexs(o, n));
    mc_outcome(mc_hash(nwant, &n, sizeof n));
}
/* own: the client itself asks for the answers; foreign: another connection's message
 * makes the application send to it */
static void sc_writes(long arg) {
    int foreign = arg & 1, closeit = arg >> 1 & 1, window = arg >> 2 & 1;
    probe_echo = false; probe_hook = w07_hook;
    srv_start();
    C = ws_open("probe"); FD = sim_fd_of(C);
    int D = ws_open("probe");
    sim_quiesce();
    (void)sim_out(C, &nstart);
    nwant = 0;
    mc_checkpoint();
    static const char *plans[] = { ">3", ">31", ">2032", ">9", ">1111" };
    int np = sim_thorough ? 5 : 4;
    int p1 = mc_choose(np, "plan");
    sim_faults_on = true;
    if (window) sim_window(C, mc_choose(14, "window"));
    ws_text(foreign ? D : C, plans[p1]);
    for (const char *q = plans[p1] + 1; *q; q++) { char m[12]; memset(m, 'A' + (q - plans[p1]), *q - '0'); w_expect(0x82, m, *q - '0'); }
    int second = mc_choose(3, "second");
    if (second < 2) sim_quiesce();
    if (second) {
        w_prefix("first", false);
        ws_text(second == 2 || !foreign ? C : D, "xy");
        if (second == 2 || !foreign) w_expect(0x81, "xy", 2);
    }
    if (closeit) { ws_send(C, 0x88, "\x03\xe8", 2); w_expect(0x88, "\x03\xe8", 2); }
    sim_quiesce();
    if (second == 2 || !window) {}
    w_prefix("before", false);
    if (window) {
        int k = mc_choose(4, "more");
        if (k) { sim_window(C, k * 2); sim_quiesce(); w_prefix("partly", false); }
        sim_window(C, -1);
        sim_quiesce();
    }
    sim_quiesce();
    sim_faults_on = false;
    if (second == 2 && foreign) {
        /* order between the two senders is open */
        size_t n; sim_out(C, &n);
        MC_CHECK(n - nstart == nwant, "write:missing", "%zu of %zu bytes are sent although the client reads", n - nstart, nwant);
    } else w_prefix("at last", true);
    MC_CHECK(sim_server_closed(C) == closeit, "close:socket", "the socket is %s", closeit ? "not closed after the close frame was written" : "closed");
    if (!closeit) {
        ws_text(C, "last"); w_expect(0x81, "last", 4);
        sim_quiesce();
        size_t n; sim_out(C, &n);
        MC_CHECK(n - nstart == nwant, "write:missing", "a later message is not answered");
    }
    ws_text(D, "z"); sim_quiesce();
}


/* long messages of which the socket takes a part at a time */
static void big_hook(int type, int fd, int op, char *msg, size_t len) { (void)op; (void)msg; (void)len; (void)fd; if (type == EV_MESSAGE) psend(FD, 2, (char *)od, on); }
static void sc_bigwrites(long arg) {
    static uint8_t d[1 << 18];
    static const int ls[] = { 300, 5000, 32767, 32768, 65535, 65536, 66000, 140000 };
    probe_echo = false; probe_hook = big_hook;
    int L = ls[arg & 7], foreign = arg >> 3 & 1;
    srv_start();
    C = ws_open("probe"); FD = sim_fd_of(C);
    int D = ws_open("probe");
    sim_quiesce();
    (void)sim_out(C, &nstart);
    for (int i = 0; i < L; i++) d[i] = (i * 7 + (i >> 8) * 3) & 255;
    od = d;
    mc_checkpoint();
    size_t at = 0, total = 0;
    static const int ms[3] = { 0, 1, 300 };
    int extra = ms[mc_choose(3, "second message")];
    static uint8_t *w; w = sim_alloc_lib(2 * L + 4096);
    on = L; total += enc_frame(w, 0x82, false, d, L, 0);
    static const int steps[] = { 0, 1, 2, 3, 4, 5, 9, 10, 11, 127, 128, 255, 256, 257, 299, 300, 301, 4096, 32767, 32768, 65535, 65536, 65537 };
    int NS_ = sizeof steps / sizeof *steps;
    for (int i = 0; i < (sim_thorough ? 3 : 2); i++) {
        int k = mc_choose(NS_ + 5, "window");
        size_t win = k < NS_ ? (size_t)steps[k] : total - (k - NS_); /* up to a few bytes before the end */
        if (i == 0) { sim_window(C, (long)win); ws_text(foreign ? D : C, "g"); }
        else {
            sim_window(C, 0);
            if (i == 1 && extra) { on = extra; total += enc_frame(w + total, 0x82, false, d, extra, 0); ws_text(foreign ? D : C, "g"); sim_quiesce(); }
            sim_window(C, (long)win);
        }
        sim_quiesce();
        size_t n; const uint8_t *o = sim_out(C, &n) + nstart; n -= nstart;
        MC_CHECK(n >= at && n <= total && !memcmp(o, w, n), "write:bytes", "message of %d bytes: the %zu bytes sent are not a prefix of what was queued", L, n);
        MC_CHECK(n == (at + win < total ? at + win : total), "write:missing", "message of %d bytes: %zu bytes are sent where %zu fit", L, n - at, win);
        at = n;
    }
    sim_window(C, -1); sim_quiesce();
    size_t n; const uint8_t *o = sim_out(C, &n) + nstart; n -= nstart;
    MC_CHECK(n == total, "write:missing", "message of %d bytes: %zu of %zu bytes are sent although the client reads", L, n, total);
    MC_CHECK(!memcmp(o, w, n), "write:bytes", "message of %d bytes: the bytes sent are not those queued", L);
    mc_outcome(mc_hash(L, &at, sizeof at));
}
/* ---------------------------------------------------------- W21 stalled */
static void sc_stalled(long arg) {
    probe_echo = true;
    srv_start();
    int P = ws_open(arg & 1 ? "broadcast" : "echo"), Q = ws_open(arg & 1 ? "broadcast" : "echo");
    int T = 0;
    int kind = arg >> 1;
    char rq[1024]; int rn = ws_request(rq, sizeof rq, "/", arg & 1 ? "broadcast" : "echo", NULL);
    if (kind != 0) { T = ws_open(arg & 1 ? "broadcast" : "echo"); }
    mc_checkpoint();
    if (kind == 0) { /* unfinished request */
        T = sim_connect(PORT);
        int k = mc_choose(rn, "cut");
        if (k) sim_send(T, rq, k);
    } else if (kind == 1) { /* unfinished frame or fragmented message */
        static const char *st[] = { "text... ping cont", "bin... cont... cont", "text... cont0" };
        uint8_t b[256];
        size_t n = mkstream(b, st[mc_choose(3, "stream")]);
        sim_send(T, b, 1 + mc_choose((int)n - 1, "cut"));
    } else { /* does not read */
        sim_window(T, mc_choose(8, "window"));
        if (!(arg & 1)) ws_text(T, "unread");
    }
    sim_quiesce();
    uint8_t b[256]; size_t n;
    for (int round = 0; round < 2; round++) {
        char m[16]; snprintf(m, sizeof m, "round%d", round);
        ws_text(P, m); sim_quiesce();
        int t = out_msg(arg & 1 ? Q : P, b, sizeof b, &n);
        MC_CHECK(t == 1 && n == strlen(m) && !memcmp(b, m, n), "stalled:others", "with a stalled client, message %d of another client does not arrive (%d)", round, t);
        ws_text(Q, m); sim_quiesce();
        t = out_msg(arg & 1 ? P : Q, b, sizeof b, &n);
        MC_CHECK(t == 1 && n == strlen(m) && !memcmp(b, m, n), "stalled:others", "with a stalled client, message %d of the second client does not arrive (%d)", round, t);
    }
    int end = mc_choose(2, "end");
    if (end == 0) {
        if (kind == 2) sim_reset_client(T); else sim_close_client(T); sim_quiesce();
        MC_CHECK(sim_server_closed(T), "stalled:close", "the stalled client cannot be disconnected");
        still_serving("a stalled client");
        return;
    }
    /* it resumes */
    sim_window(T, -1);
    if (kind == 1 && (arg & 1)) { /* what was addressed to it arrived though it was in the middle of sending */
        sim_quiesce();
    }
    if (kind == 2 || (kind == 1 && (arg & 1))) {
        sim_quiesce();
        int got = 0;
        for (;;) {
            int t = out_msg(T, b, sizeof b, &n);
            if (t == 0) break;
            MC_CHECK(t > 0, "stalled:broken", "the output of the stalled client is damaged");
            if (t == 1) got++;
        }
        int exp = (arg & 1) ? 4 : 1;
        MC_CHECK(got == exp, "stalled:missing", "the stalled client receives %d of %d messages when it resumes", got, exp);
    }
}

/* --------------------------------------------- W20: broadcasts, one after another */
static uint8_t *bc_d;
static size_t bc_cap;
static int bc_seq;
/* message number bc_seq of the length asked for, as text or binary */
static void bc_fill(int L, bool text) {
    for (int i = 0; i < L; i++) bc_d[i] = text ? 'a' + (i + i / 26 + bc_seq) % 26 : i * 7 + (i >> 8) * 3 + bc_seq;
    bc_seq++;
}
static void bc_send(int c, int L, bool text, int parts) {
    bc_fill(L, text);
    for (int k = 0; k < parts; k++) {
        int a = (long)L * k / parts, e = (long)L * (k + 1) / parts;
        ws_send(c, (k ? 0 : text ? 1 : 2) | (k == parts - 1 ? 0x80 : 0), bc_d + a, e - a);
    }
    sim_quiesce();
}
static void bc_check(int c, bool gets, int L, bool text, const char *who) {
    uint8_t *b = bc_d + bc_cap;
    size_t n, cap = bc_cap;
    int t = out_msg(c, b, cap, &n);
    if (!gets) { MC_CHECK(t == 0, "bc:unwanted", "%s gets a message (type %d, %zu bytes)", who, t, n); return; }
    MC_CHECK(t != 0, "bc:lost", "%s does not get the message of %d bytes", who, L);
    MC_CHECK(t == (text ? 1 : 2), "bc:type", "%s gets a message of type %d instead of %d", who, t, text ? 1 : 2);
    MC_CHECK(n == (size_t)L && !memcmp(b, bc_d, n), "bc:altered", "%s gets an altered message (%zu bytes instead of %d)", who, n, L);
    t = out_msg(c, b, cap, &n);
    MC_CHECK(t == 0, "bc:twice", "%s gets more than the message (type %d, %zu bytes)", who, t, n);
}
static const int bcl[] = { 4095, 4096, 16383, 16384, 32757, 32758, 32759, 32760, 32767, 32768, 65534, 65535, 65536, 65537, 100000, 131072, 1000000 };
static void sc_bclen(long arg) {
    int fs = arg & 3;
    if (fs) cfg.size_frame = fs == 1 ? 100 : 70;
    int nc = arg >> 4;
    int c[8], e;
    srv_start();
    for (int i = 0; i < nc; i++) c[i] = ws_open("broadcast");
    e = ws_open("echo");
    mc_checkpoint();
    bc_cap = 1 << 20; bc_d = sim_xalloc(2 * bc_cap);
    for (int k = 0; k < 2; k++) {
        int s = mc_choose(nc, "sender"), L, parts = 1;
        if (fs == 0 && !k) { int z = mc_choose(270 + (int)(sizeof bcl / sizeof *bcl), "length"); L = z < 270 ? z : bcl[z - 270]; if (L < 200) parts = 1 + 2 * mc_choose(2, "frames"); }
        else if (fs == 0) L = mc_choose(2, "length") * 3;
        else L = mc_choose(320, "length");
        bool text = mc_choose(2, "type");
        if ((size_t)L > cfg.size_frame) parts = (L + cfg.size_frame - 1) / cfg.size_frame;
        bc_send(c[s], L, text, parts);
        for (int i = 0; i < nc; i++) bc_check(c[i], i != s, L, text, i != s ? "another client" : "the sender");
        bc_check(e, false, 0, false, "a client of another service");
        if (fs) break;
    }
    sim_xfree(bc_d);
}
/* every sequence of clients joining, leaving and sending */
static void sc_bcseq(long depth) {
    int kind[24] = { 0 }, n = 0, live = 0; /* 1 broadcast, 2 echo, 0 gone */
    srv_start();
    mc_checkpoint();
    bc_cap = 4096; bc_d = sim_xalloc(2 * bc_cap);
    int id[24];
    char h[200] = "";
    for (int d = 0; d < depth; d++) {
        /* choices: a new client of either service; for each client there: send, close, end, reset */
        int z = mc_choose((live < 5 ? 2 : 0) + 4 * live, "step");
        if (live >= 5) z += 2;
        if (z < 2) {
            sprintf(h + strlen(h), "%s ", z ? "echo" : "join");
            id[n] = ws_open(z ? "echo" : "broadcast"); kind[n++] = z + 1; live++;
        } else {
            int k = (z - 2) / 4, w = (z - 2) % 4, i = 0;
            for (;; i++) if (kind[i] && k-- == 0) break;
            sprintf(h + strlen(h), "%d%s ", i, w == 0 ? "send" : w == 1 ? "close" : w == 2 ? "end" : "reset");
            if (w == 0) {
                int L = 1 + bc_seq % 3 * 60;
                bc_send(id[i], L, true, 1);
                for (int j = 0; j < n; j++) if (kind[j]) {
                    char who[260]; snprintf(who, sizeof who, "%s: client %d", h, j);
                    bc_check(id[j], kind[i] == 1 ? j != i && kind[j] == 1 : j == i, L, true, who);
                }
            } else {
                if (w == 1) ws_send(id[i], 0x88, "\x03\xe8", 2); else if (w == 2) sim_shutdown_client(id[i]); else sim_reset_client(id[i]);
                sim_quiesce();
                kind[i] = 0; live--;
                for (int j = 0; j < n; j++) if (kind[j]) bc_check(id[j], false, 0, true, "a client that another one leaves");
            }
        }
    }
    for (int i = 0; i < n; i++) if (kind[i] == 1) {
        bc_send(id[i], 5, false, 1);
        for (int j = 0; j < n; j++) if (kind[j]) { char who[260]; snprintf(who, sizeof who, "%s: client %d", h, j); bc_check(id[j], j != i && kind[j] == 1, 5, false, who); }
        break;
    }
    sim_xfree(bc_d);
}

void harness_init(void) {
    memset(big126, 'z', sizeof big126);
    bool T = sim_thorough;
    memset(&sim_cfg, 0, sizeof sim_cfg);
    sim_cfg.max_steps = 2000000; sim_cfg.max_sleeps = 50;
    srv_defaults();
#define IS(p) (!strcmp(sim_property, p))
    if (IS("W01") || IS("W03")) {
        static const int bs[] = { 0, 1, 2, 7, 64, 1000, 4096 };
        for (int op = 1; op <= 2; op++) for (int big = 0; big < 2; big++) for (int i = 0; i < 7; i++) {
            if (big && bs[i] && bs[i] < 64 && !T) continue;
            if (IS("W03") && !T && (op == 1 || !bs[i])) continue;
            char nm[80]; snprintf(nm, sizeof nm, "%s frames of %s, buffer %d", big ? "large" : "small", op == 1 ? "text" : "binary", bs[i]);
            sim_scenario(nm, sc_decode, op | big << 2 | bs[i] << 3);
        }
    }
    if (IS("W02")) for (int way = 0; way < 3; way++) for (int i = 0; i < (int)(sizeof fsz / sizeof *fsz); i++) {
        char nm[80]; snprintf(nm, sizeof nm, "%s, frames of %d", way == 0 ? "application" : way == 1 ? "echo" : "broadcast", fsz[i]);
        sim_scenario(nm, sc_outgoing, way | i << 2);
    }
    if (IS("W04")) {
        sim_scenario("frames in one segment", sc_seq, T ? 4 : 3);
        sim_scenario("frames one by one", sc_seq, 16 | (T ? 4 : 3));
        if (T) { sim_scenario("frames with the last byte late", sc_seq, 32 | 3); sim_scenario("valid frames", sc_seq, 5 | NVALID << 8); }
        sim_scenario("close codes", sc_closecode, 0);
        sim_scenario("headers", sc_headers, 0);
        sim_scenario("lengths", sc_lengths, 2);
    }
    if (IS("W03")) {
        for (int i = 0; i < NS; i++) {
            char nm[120]; snprintf(nm, sizeof nm, "cuts: %s", streams[i]);
            sim_scenario(nm, sc_cuts, i | (T ? 3 : 2) << 8);
            snprintf(nm, sizeof nm, "pieces: %s", streams[i]);
            sim_scenario(nm, sc_cuts, i | 255 << 8);
        }
        sim_scenario("lengths text", sc_lengths, 1);
        sim_scenario("lengths binary", sc_lengths, 2);
        sim_scenario("frames with the last byte late", sc_seq, 32 | (T ? 3 : 2));
        sim_cfg.f_short_read = true; sim_cfg.f_eintr_read = true; sim_cfg.short_read_all = 64; sim_cfg.fault_budget = T ? 3 : 2;
        for (int i = 0; i < NS; i++) {
            char nm[120]; snprintf(nm, sizeof nm, "short reads: %s", streams[i]);
            sim_scenario(nm, sc_reads, i);
        }
    }
    if (IS("W05")) {
        sim_scenario("text over frames", sc_utf8, T ? 4 : 3);
        sim_scenario("close reason", sc_utf8, 16 | (T ? 4 : 3));
        sim_scenario("binary", sc_utf8, 32 | 3);
    }
    if (IS("W06")) {
        sim_scenario("close codes", sc_closecode, 0);
        sim_scenario("close codes with reason", sc_closecode, 1);
        sim_scenario("close codes with long reason", sc_closecode, 2);
        sim_scenario("ping", sc_pings, 0); sim_scenario("three pings", sc_pings, 2);
        sim_scenario("close behind pending output", sc_closepending, 0);
        sim_scenario("close behind pending output, two segments", sc_closepending, 1);
        sim_scenario("valid frames", sc_seq, (T ? 5 : 4) | NVALID << 8);
        sim_scenario("valid frames one by one", sc_seq, 16 | (T ? 4 : 3) | NVALID << 8);
    }
    if (IS("W04") || IS("W06") || IS("W07")) for (int i = 2; i <= (T ? 16 : 8); i += 3) { char nm[60]; snprintf(nm, sizeof nm, "queue of %d messages", i); sim_scenario(nm, sc_fullqueue, i); }
    if (IS("W07")) {
        for (int k = 0; k < 8; k++) {
            char nm[80]; snprintf(nm, sizeof nm, "%s%s%s", k & 1 ? "sent by another connection" : "sent by itself", k & 2 ? ", then close" : "", k & 4 ? ", slow reader" : "");
            sim_cfg.f_short_write = sim_cfg.f_eagain_write = sim_cfg.f_eintr_write = true; sim_cfg.short_write_all = 16;
            sim_cfg.fault_budget = k & 4 ? 1 : T ? 4 : 3;
            sim_scenario(nm, sc_writes, k);
        }
    }
    if (IS("W07")) for (int k = 0; k < 16; k++) { sim_cfg.fault_budget = 0; char nm[60]; static const int ls[] = { 300, 5000, 32767, 32768, 65535, 65536, 66000, 140000 }; snprintf(nm, sizeof nm, "%d bytes in parts, sent by %s", ls[k & 7], k & 8 ? "another connection" : "itself"); sim_scenario(nm, sc_bigwrites, k); }
    if (IS("W11")) {
        sim_scenario("raw 1", sc_raw, 1); sim_scenario("raw 2", sc_raw, 2);
        sim_scenario("raw 3", sc_raw, 3 | 16);
        if (T) sim_scenario("raw 4", sc_raw, 4 | 16);
        sim_scenario("headers", sc_headers, 0);
        sim_scenario("announced lengths", sc_announce, 0);
        if (T) sim_scenario("frames", sc_seq, 3);
    }
    if (IS("W14")) {
        sim_scenario("announced lengths", sc_announce, 0);
        static const int lim[] = { 0, 1, 7, 125, 126, 200, 4096, 65530 };
        for (int i = 1; i < 8; i++) { char nm[60]; snprintf(nm, sizeof nm, "frame size %d", lim[i]); sim_scenario(nm, sc_framesize, lim[i]); }
        for (int i = 1; i <= (T ? 6 : 4); i++) { char nm[60]; snprintf(nm, sizeof nm, "at most %d frames", i); sim_scenario(nm, sc_framecount, i); }
    }
    if (IS("W20")) {
        for (int i = 2; i <= (T ? 5 : 3); i++) for (int f = 0; f < 3; f++) {
            char nm[80]; snprintf(nm, sizeof nm, "%d clients, every length%s", i, f == 0 ? "" : f == 1 ? ", frames of at most 100 bytes" : ", frames of at most 70 bytes");
            sim_scenario(nm, sc_bclen, f | i << 4);
        }
        sim_scenario("joining, leaving and sending", sc_bcseq, T ? 8 : 7);
    }
    if (IS("W21")) {
        for (int k = 0; k < 6; k++) {
            char nm[80]; snprintf(nm, sizeof nm, "%s client, %s", k >> 1 == 0 ? "unfinished request" : k >> 1 == 1 ? "unfinished message" : "not reading", k & 1 ? "broadcast" : "echo");
            sim_scenario(nm, sc_stalled, k);
        }
    }
}

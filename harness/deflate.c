/* W13: permessage-deflate is transparent. The client's side is written from
 * RFC 7692 and RFC 1951: an own inflater that knows the agreed window, own
 * encoders that use all of it, and zlib as a third party's compressor. */
#include "srv.h"
#include <zlib.h>
const char *harness_rule = "every combination of the listed settings, offers, message contents, encodings, fragmentations, faults and schedules is executed on the running server; what the application receives and what comes back is compared with the messages, decoded by an independent inflater with the agreed parameters";
#define IS(p) (!strcmp(sim_property, p))

/* ------------------------------------------------- inflate (RFC 1951), strict */
typedef struct { const uint8_t *p; size_t n, bit; bool eof; } br_t;
static int bits(br_t *b, int k) {
    int v = 0;
    for (int i = 0; i < k; i++, b->bit++) {
        if (b->bit >= b->n * 8) { b->eof = true; return 0; }
        v |= (b->p[b->bit >> 3] >> (b->bit & 7) & 1) << i;
    }
    return v;
}
typedef struct { short count[16], sym[320]; } huff_t;
static int build(huff_t *h, const uint8_t *len, int n) { /* what is left of the code space; negative: too many */
    short offs[16];
    memset(h->count, 0, sizeof h->count);
    for (int i = 0; i < n; i++) h->count[len[i]]++;
    if (h->count[0] == n) return 0;
    int left = 1;
    for (int i = 1; i < 16; i++) { left = 2 * left - h->count[i]; if (left < 0) return left; }
    offs[1] = 0;
    for (int i = 1; i < 15; i++) offs[i + 1] = offs[i] + h->count[i];
    for (int i = 0; i < n; i++) if (len[i]) h->sym[offs[len[i]]++] = i;
    return left;
}
static int dec(br_t *b, huff_t *h) {
    int code = 0, first = 0, index = 0;
    for (int l = 1; l < 16; l++) {
        code |= bits(b, 1);
        if (b->eof) return -1;
        int c = h->count[l];
        if (code - c < first) return h->sym[index + code - first];
        index += c; first += c; first <<= 1; code <<= 1;
    }
    return -2;
}
static const short lbase[29] = { 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258 };
static const short lext[29] = { 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0 };
static const short dbase[30] = { 1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577 };
static const short dext[30] = { 0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13 };
#define HCAP (1 << 19)
typedef struct { uint8_t *h; size_t n, base; } hist_t; /* all that was (de)compressed so far; base: where references may start */
static bool put(hist_t *h, uint8_t c) { if (!h->h) h->h = sim_xalloc(HCAP); if (h->n == HCAP) return false; h->h[h->n++] = c; return true; }
/* 0: decoded (appended to the history), 1: not decodable, 2: decodable, but
 * with references farther back than allowed, or not at the end of an empty
 * stored block (what a conforming client never sends) */
static int inflate_ref(hist_t *h, size_t window, const uint8_t *p, size_t n) {
    br_t b = { p, n, 0, false };
    huff_t lc, dc;
    uint8_t len[320];
    bool gray = false, marked = false;
    while (b.bit < n * 8) {
        int final = bits(&b, 1), type = bits(&b, 2);
        if (b.eof) return 1;
        if (type == 0) {
            b.bit = (b.bit + 7) / 8 * 8;
            int l = bits(&b, 16), nl = bits(&b, 16);
            if (b.eof || l != (~nl & 0xffff)) return 1;
            marked = !l && !final;
            while (l--) { int c = bits(&b, 8); if (b.eof) return 1; if (!put(h, c)) return 1; }
        } else if (type == 3) return 1;
        else {
            marked = false;
            if (type == 1) {
                memset(len, 8, 144); memset(len + 144, 9, 112); memset(len + 256, 7, 24); memset(len + 280, 8, 8);
                build(&lc, len, 288);
                memset(len, 5, 30);
                build(&dc, len, 30);
            } else {
                static const uint8_t ord[19] = { 16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15 };
                int nlen = bits(&b, 5) + 257, ndist = bits(&b, 5) + 1, ncode = bits(&b, 4) + 4, i;
                if (b.eof || nlen > 286 || ndist > 30) return 1;
                memset(len, 0, 19);
                for (i = 0; i < ncode; i++) len[ord[i]] = bits(&b, 3);
                if (b.eof || build(&lc, len, 19) != 0) return 1;
                if (lc.count[0] == 19) return 1;
                for (i = 0; i < nlen + ndist;) {
                    int s = dec(&b, &lc), prev = 0, rep;
                    if (s < 0) return 1;
                    if (s < 16) { len[i++] = s; continue; }
                    if (s == 16) { if (!i) return 1; prev = len[i - 1]; rep = 3 + bits(&b, 2); }
                    else rep = s == 17 ? 3 + bits(&b, 3) : 11 + bits(&b, 7);
                    if (b.eof || i + rep > nlen + ndist) return 1;
                    while (rep--) len[i++] = prev;
                }
                if (!len[256]) return 1;
                int e = build(&lc, len, nlen);
                if (e < 0 || (e > 0 && nlen - lc.count[0] != 1)) return 1;
                if (e > 0 && lc.count[1] != 1) return 1;
                e = build(&dc, len + nlen, ndist);
                if (e < 0 || (e > 0 && (ndist - dc.count[0] != 1 || dc.count[1] != 1))) return 1;
            }
            for (;;) {
                int s = dec(&b, &lc);
                if (s < 0) return 1;
                if (s == 256) break;
                if (s < 256) { if (!put(h, s)) return 1; continue; }
                s -= 257;
                if (s >= 29) return 1;
                int l = lbase[s] + bits(&b, lext[s]), d = dec(&b, &dc);
                if (d < 0 || d >= 30) return 1;
                size_t dist = dbase[d] + bits(&b, dext[d]);
                if (b.eof || dist > h->n) return 1;
                if (dist > window || dist > h->n - h->base) gray = true;
                while (l--) if (!put(h, h->h[h->n - dist])) return 1;
            }
        }
        if (final) { b.bit = (b.bit + 7) / 8 * 8; if (b.bit >= n * 8) gray = true; }
    }
    return gray || !marked ? 2 : 0;
}

/* ------------------------------------------------------------- the encoders */
typedef struct { uint8_t *b; size_t n, cap; int bit; } bw_t;
static void wbits(bw_t *w, uint32_t v, int k) {
    for (int i = 0; i < k; i++) {
        if (!w->bit) { if (w->n == w->cap) { fprintf(stderr, "ENGINE ERROR: encoder\n"); abort(); } w->b[w->n++] = 0; }
        w->b[w->n - 1] |= (v >> i & 1) << w->bit;
        w->bit = (w->bit + 1) & 7;
    }
}
static void whuff(bw_t *w, uint32_t v, int k) { for (int i = k - 1; i >= 0; i--) wbits(w, v >> i, 1); }
static void align(bw_t *w) { w->bit = 0; }
static void sym_fixed(bw_t *w, int s) {
    if (s < 144) whuff(w, 0x30 + s, 8); else if (s < 256) whuff(w, 0x190 + s - 144, 9);
    else if (s < 280) whuff(w, s - 256, 7); else whuff(w, 0xc0 + s - 280, 8);
}
static void stored(bw_t *w, const uint8_t *p, size_t n, int final) {
    wbits(w, final, 1); wbits(w, 0, 2); align(w);
    wbits(w, n, 16); wbits(w, ~n & 0xffff, 16);
    for (size_t i = 0; i < n; i++) wbits(w, p[i], 8);
}
/* one block of n bytes at the end of h (from position at); matches: 0 none, 1 the farthest, 2 the nearest */
static void fixed(bw_t *w, hist_t *h, size_t at, size_t n, size_t window, int matches, int final) {
    wbits(w, final, 1); wbits(w, 1, 2);
    for (size_t i = at; i < at + n;) {
        size_t best = 0, bd = 0, from = i > window ? i - window : 0;
        if (from < h->base) from = h->base;
        if (matches && n <= 4096) for (size_t k = from; k < i; k++) {
            size_t l = 0;
            while (l < 258 && i + l < at + n && h->h[k + l] == h->h[i + l]) l++;
            if (l >= 3 && (l > best || (matches == 2 && l == best))) { best = l; bd = i - k; }
        }
        if (!best) { sym_fixed(w, h->h[i++]); continue; }
        int s = 28; while (lbase[s] > (int)best) s--;
        sym_fixed(w, 257 + s); wbits(w, best - lbase[s], lext[s]);
        int d = 29; while (dbase[d] > (int)bd) d--;
        whuff(w, d, 5); wbits(w, bd - dbase[d], dext[d]);
        i += best;
    }
    sym_fixed(w, 256);
}
static void *zx(void *o, unsigned a, unsigned b) { (void)o; return sim_xalloc((size_t)a * b); }
static void zf(void *o, void *p) { (void)o; sim_xfree(p); }
static void zlib(bw_t *w, hist_t *h, size_t at, size_t n, int wb, int level, int mem, int strategy, int mid, int end) {
    z_stream z = { .zalloc = zx, .zfree = zf };
    if (deflateInit2(&z, level, Z_DEFLATED, -wb, mem, strategy) != Z_OK) { fprintf(stderr, "ENGINE ERROR: deflateInit2\n"); abort(); }
    size_t from = at - h->base > ((size_t)1 << wb) ? at - ((size_t)1 << wb) : h->base;
    if (at > from) deflateSetDictionary(&z, h->h + from, at - from);
    z.next_out = w->b + w->n; z.avail_out = w->cap - w->n;
    size_t half = mid >= 0 ? n / 2 : 0;
    if (mid >= 0) { z.next_in = h->h + at; z.avail_in = half; deflate(&z, mid); }
    z.next_in = h->h + at + half; z.avail_in = n - half;
    deflate(&z, end);
    w->n = z.next_out - w->b; w->bit = 0;
    deflateEnd(&z);
}
enum { E_PLAIN, E_FAR, E_ZLIB, E_STORED, E_FINISH, E_PARTS, E_LIT, E_FULL, E_HUFF, E_NEAR, E_BEST, E_FINALS, E_RLE, E_ZFIXED, NENC };
static const char *ename[NENC] = { "uncompressed", "farthest matches", "zlib", "stored", "zlib, finished", "flushed inside", "literals", "zlib, full flush", "zlib, Huffman only", "nearest matches", "zlib, best", "two final blocks", "zlib, run lengths", "zlib, fixed codes" };
/* the application data of the message, with the marker taken off */
static size_t encode(hist_t *h, int wb, const uint8_t *p, size_t n, int e, uint8_t *out, size_t cap) {
    bw_t w = { out, 0, cap, 0 };
    size_t at = h->n, win = (size_t)1 << wb, k;
    for (size_t i = 0; i < n; i++) put(h, p[i]);
    if (wb < 9 && e != E_STORED && e != E_PARTS && e != E_LIT && e != E_NEAR && e != E_FINALS) e = E_FAR;
    switch (e) {
        case E_FAR: case E_NEAR: case E_LIT: fixed(&w, h, at, n, win, e == E_FAR ? 1 : e == E_NEAR ? 2 : 0, 0); break;
        case E_STORED: for (k = 0; k < n; k += 100) stored(&w, p + k, n - k < 100 ? n - k : 100, 0); break;
        case E_PARTS: fixed(&w, h, at, n / 3, win, 1, 0); stored(&w, NULL, 0, 0); fixed(&w, h, at + n / 3, n - n / 3, win, 1, 0); break;
        case E_FINALS: fixed(&w, h, at, n / 2, win, 1, 1); align(&w); fixed(&w, h, at + n / 2, n - n / 2, win, 1, 1); align(&w); break;
        case E_ZLIB: zlib(&w, h, at, n, wb, 6, 8, Z_DEFAULT_STRATEGY, -1, Z_SYNC_FLUSH); goto marked;
        case E_FINISH: zlib(&w, h, at, n, wb, 6, 8, Z_DEFAULT_STRATEGY, -1, Z_FINISH); break;
        case E_FULL: zlib(&w, h, at, n, wb, 6, 8, Z_DEFAULT_STRATEGY, Z_FULL_FLUSH, Z_SYNC_FLUSH); goto marked;
        case E_HUFF: zlib(&w, h, at, n, wb, 6, 1, Z_HUFFMAN_ONLY, Z_PARTIAL_FLUSH, Z_SYNC_FLUSH); goto marked;
        case E_BEST: zlib(&w, h, at, n, wb, 9, 9, Z_DEFAULT_STRATEGY, Z_BLOCK, Z_SYNC_FLUSH); goto marked;
        case E_RLE: zlib(&w, h, at, n, wb, 1, 1, Z_RLE, Z_SYNC_FLUSH, Z_FULL_FLUSH); goto marked;
        case E_ZFIXED: zlib(&w, h, at, n, wb, 3, 2, Z_FIXED, -1, Z_SYNC_FLUSH); goto marked;
    }
    /* an empty stored block, of which the last four bytes are left out */
    wbits(&w, 0, 3);
    return w.n;
marked:
    if (w.n >= 5 && !memcmp(w.b + w.n - 4, "\0\0\xff\xff", 4)) return w.n - 4;
    wbits(&w, 0, 3);        /* nothing to flush */
    return w.n;
}

/* ------------------------------------------------------------- connections */
typedef struct { int c, fd; bool on, snct, cnct; int smwb, cmwb; hist_t out, in; } cl_t;
static const char *offers[] = { "", "; client_max_window_bits", "; client_max_window_bits=8", "; client_max_window_bits=9", "; client_no_context_takeover", "; server_no_context_takeover",
    "; server_max_window_bits=9", "; server_max_window_bits=15; client_max_window_bits=15", "; client_no_context_takeover; server_no_context_takeover; client_max_window_bits=8; server_max_window_bits=9", "; server_max_window_bits=12; client_max_window_bits=12", "; client_no_context_takeover; client_max_window_bits=10", "; server_no_context_takeover; server_max_window_bits=10" };
#define NOFF 12
static const char *settings[] = { NULL, "chunk_size=1", "chunk_size=7; memory_level=1", "memory_level=9; server_no_context_takeover", "server_max_window_bits=9; client_max_window_bits=9", "server_max_window_bits=8; client_max_window_bits=8; chunk_size=300", "chunk_size=65536; server_max_window_bits=11" };
#define NSET 7
static int param(const char *h, const char *name, int dflt) {
    const char *p = strstr(h, name);
    if (!p) return dflt;
    p += strlen(name);
    return *p == '=' ? atoi(p + 1) : 1;
}
static void open_cl(cl_t *k, const char *offer) {
    char extra[300], hdr[2000];
    memset(k, 0, sizeof *k);
    if (offer) snprintf(extra, sizeof extra, "Sec-WebSocket-Extensions: permessage-deflate%s\r\n", offer);
    k->c = ws_open_ex(PORT, "probe", offer ? extra : NULL, hdr, sizeof hdr);
    k->fd = sim_fd_of(k->c);
    k->smwb = k->cmwb = 15;
    char *x = strstr(hdr, "permessage-deflate");
    k->on = x != NULL;
    MC_CHECK(!offer || x, "deflate:declined", "the offer '%s' is declined", offer);
    if (!x) return;
    char *e = strstr(x, "\r\n"); if (e) *e = 0;
    k->snct = param(x, "server_no_context_takeover", 0); k->cnct = param(x, "client_no_context_takeover", 0);
    k->smwb = param(x, "server_max_window_bits", 15); k->cmwb = param(x, "client_max_window_bits", 15);
    MC_CHECK(k->smwb >= 8 && k->smwb <= 15 && k->cmwb >= 8 && k->cmwb <= 15, "deflate:agreed", "the server agrees on %s", x);
}
/* frames: cut into parts at a and b (a <= b <= n), with a ping between the first two if wanted */
static void send_parts(cl_t *k, int op, bool rsv, const uint8_t *p, size_t n, int parts, size_t a, size_t b, bool ping) {
    size_t from[4] = { 0, parts > 1 ? a : n, parts > 2 ? b : n, n };
    for (int i = 0; i < parts; i++) {
        size_t f = from[i], t = i + 1 == parts ? n : from[i + 1];
        ws_send(k->c, (i + 1 == parts ? 0x80 : 0) | (i ? 0 : op | (rsv ? 0x40 : 0)), p + f, t - f);
        if (ping && i == 0 && parts > 1) ws_send(k->c, 0x89, "?", 1);
    }
}
static uint8_t *ebuf; static size_t ecap;
static size_t make(cl_t *k, int e, const uint8_t *p, size_t n) {
    if (!ebuf) { ecap = 1 << 18; ebuf = sim_xalloc(ecap); }
    if (k->cnct) k->out.base = k->out.n;
    size_t z = encode(&k->out, k->cmwb, p, n, e, ebuf, ecap);
    return z;
}
static void send_msg(cl_t *k, int op, const uint8_t *p, size_t n, int e, int parts, size_t a, size_t b, bool ping) {
    if (e == E_PLAIN || !k->on) { send_parts(k, op, false, p, n, parts, a > n ? n : a, b > n ? n : b, ping); return; }
    size_t z = make(k, e, p, n);
    send_parts(k, op, true, ebuf, z, parts, a > z ? z : a, b > z ? z : b, ping);
}
/* one message as the client understands it: its type, 0 nothing there, -1 incomplete */
static uint8_t *mbuf, *fbuf; static size_t mlen; static bool mcomp; static int mframes;
#define MCAP 300000
static int recv_msg(cl_t *k) {
    if (!mbuf) { mbuf = sim_xalloc(MCAP); fbuf = sim_xalloc(MCAP); }
    size_t start = opos[k->c], n = 0;
    int type = -1;
    bool comp = false;
    mframes = 0;
    for (;;) {
        ofr_t f;
        int r = out_frame(k->c, &f);
        if (r <= 0) { opos[k->c] = start; return r == 0 && type < 0 ? 0 : -1; }
        MC_CHECK(!(f.rsv & 3), "deflate:reserved", "the server sends a frame with reserved bits %d", f.rsv);
        if (f.op >= 8) {
            MC_CHECK(type < 0 && f.fin && !f.rsv && f.len <= 125, "deflate:control", "the server sends a bad control frame (fin %d, reserved %d, %zu bytes) %s", f.fin, f.rsv, (size_t)f.len, type < 0 ? "" : "inside of a message");
            memcpy(mbuf, f.p, f.len); mlen = f.len; mcomp = false;
            return f.op;
        }
        MC_CHECK((type < 0) == (f.op != 0) && f.op <= 2, "deflate:opcode", "the server sends a frame with opcode %d %s a message", f.op, type < 0 ? "at the start of" : "inside of");
        MC_CHECK(type < 0 || !f.rsv, "deflate:reserved", "the server sends a continuation frame with reserved bits %d", f.rsv);
        if (type < 0) { type = f.op; comp = f.rsv; MC_CHECK(!comp || k->on, "deflate:unasked", "the server compresses a message for a client that has not agreed to it"); }
        MC_CHECK(n + f.len + 4 <= MCAP, "deflate:size", "the server sends a message of more than %zu bytes", n);
        MC_CHECK(f.len <= cfg.size_frame, "deflate:frame", "the server sends a frame of %zu bytes", (size_t)f.len);
        memcpy(fbuf + n, f.p, f.len); n += f.len; mframes++;
        if (f.fin) break;
    }
    mcomp = comp;
    if (!comp) { memcpy(mbuf, fbuf, n); mlen = n; return type; }
    memcpy(fbuf + n, "\0\0\xff\xff", 4);
    if (k->snct) k->in.base = k->in.n;
    size_t at = k->in.n;
    int r = inflate_ref(&k->in, (size_t)1 << k->smwb, fbuf, n + 4);
    MC_CHECK(r != 1, "deflate:undecodable", "the client can not decompress what the server sends: %s", hexs(fbuf, n));
    MC_CHECK(r != 2, "deflate:beyond", "what the server sends refers to more than the agreed context (window of %d bits%s): %s", k->smwb, k->snct ? ", no context" : "", hexs(fbuf, n));
    mlen = k->in.n - at;
    memcpy(mbuf, k->in.h + at, mlen);
    return type;
}
static int pevi; /* events judged so far */
static void got(int fd, int op, const uint8_t *p, size_t n, const char *ctx) {
    MC_CHECK(pevi < npev, "deflate:lost", "%s: the application does not receive the message of %zu bytes", ctx, n);
    pev_t *e = &pev[pevi++];
    MC_CHECK(e->type == EV_MESSAGE && e->fd == fd, "deflate:event", "%s: instead of a message the application is told of %s of descriptor %d", ctx, e->type == EV_CLOSE ? "the end" : "something", e->fd);
    MC_CHECK(e->op == op && e->len == n && (!n || !memcmp(e->data, p, n)), "deflate:wrong", "%s: the application receives %d:%zu bytes %s instead of %d:%zu bytes %s", ctx, e->op, e->len, hexs(e->data, e->len), op, n, hexs(p, n));
}
static void came(cl_t *k, int op, const uint8_t *p, size_t n, const char *ctx) {
    int t = recv_msg(k);
    MC_CHECK(t == op && mlen == n && (!n || !memcmp(mbuf, p, n)), "deflate:back", "%s: the client receives %d:%zu bytes %s instead of %d:%zu bytes %s", ctx, t, t > 0 ? mlen : 0, t > 0 ? hexs(mbuf, mlen) : "", op, n, hexs(p, n));
}

/* ---------------------------------------------------------------- contents */
static uint32_t rnd; static uint8_t r8(void) { rnd = rnd * 1103515245 + 12345; return rnd >> 16; }
#define NCON 12
static const char *cname[NCON] = { "empty", "a", "Hello", "hello...", "the same 300", "other 300", "200 x", "2000", "33000 random", "70000 repetitive", "not ASCII", "same 300 shifted" };
static int content(int k, int i, uint8_t *b, size_t *n) {
    static const char *u = "\xc5\xbelu\xc5\xa5ou\xc4\x8dk\xc3\xbd k\xc5\xaf\xc5\x88 \xf0\x9f\x90\x8e\xf0\x9f\x90\x8e";
    size_t m = 0;
    switch (k) {
        case 0: break;
        case 1: b[m++] = 'a'; break;
        case 2: memcpy(b, "Hello", m = 5); break;
        case 3: m = sprintf((char *)b, "hello, hello, hello, hello, %d", i); break;
        case 4: rnd = 1; while (m < 300) b[m++] = r8(); break;
        case 5: rnd = 100 + i; while (m < 300) b[m++] = r8(); break;
        case 6: memset(b, 'x', m = 200); break;
        case 7: rnd = 1; while (m < 300) b[m++] = r8(); memset(b + m, 'y', 1000); m += 1000; memcpy(b + m, b, 300); m += 300; rnd = 200 + i; while (m < 2000) b[m++] = r8() & 15; break;
        case 8: rnd = 300 + i; while (m < 33000) b[m++] = r8(); break;
        case 9: rnd = 1; while (m < 300) b[m++] = r8(); while (m < 70000) { b[m] = b[m - 300]; m++; } b[69000] = i; break;
        case 10: memcpy(b, u, m = strlen(u)); break;
        case 11: rnd = 1; while (m < 300) b[m++] = r8(); memmove(b, b + 17, m -= 17); break;
    }
    *n = m;
    return k <= 3 || k == 6 || k == 10 ? 1 : 2;
}
static uint8_t *cbuf[4];
static void cbufs(void) { for (int i = 0; i < 4; i++) if (!cbuf[i]) cbuf[i] = sim_xalloc(70400); }

/* ------------------------------------------------- sequences of messages */
/* arg: setting, offer, number of messages, selection of contents and encodings, small frames */
static int A_set, A_off, A_len, A_con, A_enc, A_small, A_pipe;
static const int SEL_C[4][13] = { { 0, 1, 2, 3, 4, 5, 6, 7, 10, 11, -1 }, { 4, 5, 11, 6, 0, -1 }, { 8, 9, 4, 7, -1 }, { 3, 4, 5, 6, 7, 11, 0, 1, 8, 9, -1 } };
static const int SEL_E[4][15] = { { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, -1 }, { E_PLAIN, E_FAR, E_ZLIB, E_FINISH, E_STORED, E_FINALS, -1 }, { E_ZLIB, E_PLAIN, E_STORED, -1 }, { E_PLAIN, E_FAR, E_ZLIB, E_FINISH, -1 } };
static int pick(const int *sel, const char *label) { int n = 0; while (sel[n] >= 0) n++; return sel[mc_choose(n, label)]; }
static void unpack(long a) { A_set = a & 15; A_off = a >> 4 & 15; A_len = a >> 8 & 7; A_con = a >> 11 & 3; A_enc = a >> 13 & 3; A_small = a >> 15 & 1; A_pipe = a >> 16 & 1; }
static long pack(int set, int off, int len, int con, int enc, int small, int pipe) { return set | off << 4 | len << 8 | con << 11 | enc << 13 | (long)small << 15 | (long)pipe << 16; }
static void boot(void) {
    srv_deflate = true;
    srv_extcfg[0] = (char *)settings[A_set];
    if (A_small) cfg.size_frame = 60;
    srv_start();
}
static void s_seq(long arg) {
    unpack(arg);
    boot();
    cl_t k;
    open_cl(&k, offers[A_off]);
    npev = pevi = 0;
    mc_checkpoint();
    cbufs();
    char ctx[300]; int cl = 0;
    int op[4], e[4], parts[4]; size_t n[4]; bool ping[4];
    uint64_t h = 0;
    ctx[0] = 0;
    for (int i = 0; i < A_len; i++) {
        int c = pick(SEL_C[A_con], "content");
        e[i] = pick(SEL_E[A_enc], "encoding");
        op[i] = content(c, i, cbuf[i], &n[i]);
        /* a frame may have only so many bytes */
        parts[i] = A_small ? 1 : 1 + mc_choose(3, "frames");
        ping[i] = parts[i] == 3;
        cl += snprintf(ctx + cl, sizeof ctx - cl, "%s%s (%s, %d frames)", i ? ", then " : "", cname[c], ename[e[i]], parts[i]);
        if (A_small) {
            const uint8_t *p = cbuf[i]; size_t z = n[i]; bool rsv = e[i] != E_PLAIN;
            if (rsv) { z = make(&k, e[i], cbuf[i], n[i]); p = ebuf; }
            for (size_t at = 0; at == 0 || at < z; at += 60) ws_send(k.c, (at + 60 >= z ? 0x80 : 0) | (at ? 0 : op[i] | (rsv ? 0x40 : 0)), p + at, z - at < 60 ? z - at : 60);
        } else send_msg(&k, op[i], cbuf[i], n[i], e[i], parts[i], parts[i] == 2 ? (size_t)n[i] / 7 + 1 : 0, n[i] / 5 + 2, ping[i]);
        if (A_pipe && i + 1 < A_len) continue;
        sim_quiesce();
        int from = A_pipe ? 0 : i;
        for (int j = from; j <= i; j++) got(k.fd, op[j], cbuf[j], n[j], ctx);
        for (int j = from; j <= i; j++) {
            if (ping[j]) { int t = recv_msg(&k); MC_CHECK(t == 10 && mlen == 1 && *mbuf == '?', "deflate:pong", "%s: the ping inside of the message is answered with type %d", ctx, t); }
            came(&k, op[j], cbuf[j], n[j], ctx);
            h = h * 31 + mcomp * 7 + mframes;
        }
    }
    MC_CHECK(pevi == npev && recv_msg(&k) == 0, "deflate:more", "%s: there are more messages than were sent", ctx);
    mc_outcome(mc_hash(h, ctx, cl));
    if (mc_want_sample()) mc_sample("offer '%s', setting '%s': %s", offers[A_off], settings[A_set] ? settings[A_set] : "", ctx);
}
/* all fragmentations of short messages, and all ways of their arrival */
static void s_frag(long arg) {
    unpack(arg);
    boot();
    cl_t k;
    open_cl(&k, offers[A_off]);
    npev = pevi = 0;
    mc_checkpoint();
    cbufs();
    size_t n; char ctx[200];
    for (int i = 0; i < 2; i++) {
        int c = i ? 3 : 2 + mc_choose(2, "content"), e = pick(SEL_E[A_enc], "encoding");
        int op = content(c, i, cbuf[i], &n);
        const uint8_t *p = cbuf[i]; size_t z = n; bool rsv = e != E_PLAIN;
        if (rsv) { z = make(&k, e, cbuf[i], n); p = ebuf; }
        int parts = A_con == 1 ? 1 : A_con == 2 && i ? 1 : 1 + mc_choose(3, "frames");
        size_t a = parts > 1 ? mc_choose(z + 1, "first cut") : 0, b = parts > 2 ? a + mc_choose(z + 1 - a, "second cut") : z;
        bool ping = parts > 1 && mc_choose(2, "ping");
        if (A_con == 1) { /* the bytes arrive in two parts */
            uint8_t q[200]; size_t m = enc_frame(q, 0x80 | op | (rsv ? 0x40 : 0), true, p, z, 0x55aa00ff), t = mc_choose(m, "cut");
            if (t) { sim_send(k.c, q, t); sim_quiesce(); }
            sim_send(k.c, q + t, m - t);
        } else send_parts(&k, op, rsv, p, z, parts, a, b, ping);
        sim_quiesce();
        snprintf(ctx, sizeof ctx, "message %d (%s) in %d frames cut at %zu and %zu of %zu", i, ename[e], parts, a, b, z);
        got(k.fd, op, cbuf[i], n, ctx);
        if (ping) MC_CHECK(recv_msg(&k) == 10, "deflate:pong", "%s: no pong", ctx);
        came(&k, op, cbuf[i], n, ctx);
        mc_outcome(mc_hash(i, ctx, strlen(ctx)));
    }
    MC_CHECK(pevi == npev && recv_msg(&k) == 0, "deflate:more", "%s: there are more messages than were sent", ctx);
}

/* ----------------------------------------------------- undecodable messages */
/* a message with the payload p: what the application gets is what the reference decodes, or the connection is closed */
static int judge_payload(cl_t *k, int op, const uint8_t *p, size_t n, const char *ctx) {
    uint8_t q[4096];
    int fd = sim_fd_of(k->c);
    if (n > 4000) { fprintf(stderr, "ENGINE ERROR: payload\n"); abort(); }
    memcpy(q, p, n); memcpy(q + n, "\0\0\xff\xff", 4);
    if (k->cnct) k->out.base = k->out.n;
    size_t at = k->out.n;
    int r = inflate_ref(&k->out, (size_t)1 << k->cmwb, q, n + 4);
    size_t len = k->out.n - at;
    const uint8_t *m = k->out.h + at;
    send_parts(k, op, true, p, n, 1, 0, 0, false);
    sim_quiesce();
    bool text_ok = true;
    if (op == 1 && r != 1) { /* valid UTF-8? */
        for (size_t i = 0; i < len && text_ok;) {
            uint8_t c = m[i]; int l = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0;
            if (!l || i + l > len) { text_ok = false; break; }
            for (int j = 1; j < l; j++) if ((m[i + j] & 0xc0) != 0x80) text_ok = false;
            if ((c == 0xe0 && m[i + 1] < 0xa0) || (c == 0xed && m[i + 1] >= 0xa0) || (c == 0xf0 && m[i + 1] < 0x90) || (c == 0xf4 && m[i + 1] >= 0x90)) text_ok = false;
            i += l;
        }
    }
    bool delivered = false, closed = false;
    for (; pevi < npev; pevi++) {
        pev_t *e = &pev[pevi];
        if (e->fd != fd) continue;
        if (e->type == EV_CLOSE) { closed = true; continue; }
        if (e->type != EV_MESSAGE) continue;
        MC_CHECK(!delivered, "deflate:more", "%s: two messages are delivered", ctx);
        delivered = true;
        MC_CHECK(r != 1, "deflate:rubbish", "%s: %s can not be decompressed, but the application receives %zu bytes %s", ctx, hexs(p, n), e->len, hexs(e->data, e->len));
        MC_CHECK(text_ok, "deflate:text", "%s: %s does not decompress to text, but is delivered as text: %s", ctx, hexs(p, n), hexs(e->data, e->len));
        MC_CHECK(e->op == op && e->len == len && (!len || !memcmp(e->data, m, len)), "deflate:wrong", "%s: %s is decompressed to %zu bytes %s instead of %zu bytes %s", ctx, hexs(p, n), e->len, hexs(e->data, e->len), len, hexs(m, len));
    }
    if (r == 0 && text_ok) { MC_CHECK(delivered && !closed, "deflate:lost", "%s: %s is a compressed message, but %s", ctx, hexs(p, n), closed ? "the connection is closed" : "it is not delivered"); came(k, op, m, len, ctx); return 0; }
    if (delivered) { MC_CHECK(!closed, "deflate:closed", "%s: the connection is closed after a message that was delivered", ctx); came(k, op, m, len, ctx); return 0; }
    int t = recv_msg(k);
    MC_CHECK(t == 8 || (t == 0 && closed), "deflate:undecided", "%s: %s can not be decompressed, but the connection is not closed (%d)", ctx, hexs(p, n), t);
    if (t == 8) {
        int status = mlen >= 2 ? mbuf[0] << 8 | mbuf[1] : 0;
        MC_CHECK(r == 1 || text_ok || status == 1007 || status == 1002, "deflate:status", "%s: the connection is closed with status %d", ctx, status);
        if (r == 0) MC_CHECK(status == 1007, "deflate:status", "%s: a compressed message that is not text is answered with status %d", ctx, status);
        /* the closing handshake */
        if (!closed) { ws_send(k->c, 0x88, mbuf, 2); sim_quiesce(); }
    }
    sim_close_client(k->c); sim_quiesce();
    MC_CHECK(sim_server_closed(k->c), "deflate:open", "%s: the connection of an undecodable message is not closed", ctx);
    for (; pevi < npev; pevi++) MC_CHECK(pev[pevi].type != EV_MESSAGE, "deflate:rubbish", "%s: a message is delivered after an undecodable one", ctx);
    return 1;
}
/* payloads of n bytes: all of them that start with the chosen byte */
static void s_bytes(long arg) {
    int n = arg & 7, pre = arg >> 3 & 3;
    A_off = arg >> 5 & 15; A_set = arg >> 9 & 15; A_small = 0;
    boot();
    cl_t k, o;
    open_cl(&o, "");
    mc_checkpoint();
    cbufs();
    uint8_t p[4];
    int per = n > 2 ? 24 : 256;
    (void)per;
    for (int i = 0; i + 1 < n; i++) p[i] = mc_choose(256, "byte");
    /* the last byte: as many as there are connections for */
    int group = n ? mc_choose(16, "group") : 0, conns = 0;
    npev = pevi = 0;
    bool need = true;
    char ctx[100];
    for (int i = 0; i < (n ? 16 : 1); i++) {
        if (n) p[n - 1] = group * 16 + i;
        if (need) {
            if (conns++ == 36) break;
            open_cl(&k, offers[A_off]);
            if (pre) { size_t l; int op = content(pre == 1 ? 3 : 4, 0, cbuf[0], &l); send_msg(&k, op, cbuf[0], l, E_FAR, 1, 0, 0, false); sim_quiesce(); came(&k, op, cbuf[0], l, "first message"); }
            pevi = npev;
        }
        snprintf(ctx, sizeof ctx, "after %d messages", pre ? 1 : 0);
        size_t keep = k.out.n;
        need = judge_payload(&k, 2, p, n, ctx);
        if (!need && npev > 100) { sim_reset_client(k.c); sim_quiesce(); npev = pevi = 0; need = true; }
        k.out.n = need ? keep : k.out.n;
        mc_count(1);
        mc_outcome(mc_hash(mc_hash(pre, p, n), &need, 1));
    }
    /* others are not influenced */
    ws_text(o.c, "still"); sim_quiesce();
    came(&o, 1, (const uint8_t *)"still", 5, "another connection");
}
/* a good message that is damaged: shortened, one bit changed, bytes appended */
static void s_damage(long arg) {
    unpack(arg);
    boot();
    cl_t k, o;
    open_cl(&k, offers[A_off]);
    open_cl(&o, offers[A_off]);
    npev = pevi = 0;
    mc_checkpoint();
    cbufs();
    size_t n; char ctx[200];
    int op = content(3, 0, cbuf[0], &n);
    send_msg(&k, op, cbuf[0], n, E_ZLIB, 1, 0, 0, false);
    send_msg(&o, op, cbuf[0], n, E_ZLIB, 1, 0, 0, false);
    sim_quiesce();
    came(&k, op, cbuf[0], n, "first"); came(&o, op, cbuf[0], n, "first");
    pevi = npev;
    int c = pick(SEL_C[A_con], "content"), e = pick(SEL_E[A_enc], "encoding");
    if (e == E_PLAIN) mc_prune();
    op = content(c, 1, cbuf[1], &n);
    if (n > 400) mc_prune();
    size_t keep = k.out.n, z = make(&k, e, cbuf[1], n);
    k.out.n = keep;
    uint8_t q[3000];
    memcpy(q, ebuf, z);
    int how = mc_choose(4, "damage");
    int at = 0;
    if (how == 0) { at = mc_choose(z, "length"); z = at; }
    else if (how == 1) { at = mc_choose(z * 8, "bit"); q[at / 8] ^= 1 << (at & 7); }
    else if (how == 2) { at = mc_choose(256, "byte"); q[z++] = at; }
    else { at = mc_choose(256, "two bytes"); q[z++] = at; q[z++] = at ^ 0xff; }
    op = 1 + mc_choose(2, "type");
    snprintf(ctx, sizeof ctx, "%s (%s) with %s %d", cname[c], ename[e], how == 0 ? "length" : how == 1 ? "changed bit" : "appended", at);
    int bad = judge_payload(&k, op, q, z, ctx);
    mc_outcome(mc_hash(bad, q, z));
    if (mc_want_sample()) mc_sample("%s: %s", ctx, bad ? "refused" : "delivered");
    /* the other connection goes on, with its context */
    op = content(3, 1, cbuf[2], &n);
    pevi = npev;
    send_msg(&o, op, cbuf[2], n, E_FAR, 1, 0, 0, false); sim_quiesce();
    got(o.fd, op, cbuf[2], n, "another connection"); came(&o, op, cbuf[2], n, "another connection");
}
/* reserved bits where they have no meaning */
static void s_rsv(long arg) {
    A_set = 0; A_off = arg; A_small = 0;
    boot();
    cl_t k, o;
    open_cl(&k, A_off < NOFF ? offers[A_off] : NULL);
    open_cl(&o, "");
    npev = pevi = 0;
    mc_checkpoint();
    cbufs();
    int b0 = mc_choose(256, "first byte"), r = b0 >> 4 & 7, op = b0 & 15;
    bool inside = mc_choose(2, "inside of a message"), comp = inside && k.on && mc_choose(2, "compressed");
    bool cont = op == 0, ok = r == 0 || (r == 4 && (op == 1 || op == 2) && k.on);
    if (ok) mc_prune();
    size_t n; content(3, 0, cbuf[0], &n);
    size_t z = make(&k, E_FAR, cbuf[0], n);
    (void)cont;
    if (inside) { if (comp) ws_send(k.c, 0x41, ebuf, 3); else ws_send(k.c, 0x01, "abc", 3); }
    const uint8_t *rest = comp ? ebuf + 3 : ebuf; size_t restn = comp ? z - 3 : z;
    if (op >= 8) { rest = (const uint8_t *)"\x03\xe8"; restn = 2; }
    ws_send(k.c, b0, rest, restn);
    if (!(b0 & 0x80)) ws_send(k.c, 0x80, "", 0);
    sim_quiesce();
    for (int i = 0; i < npev; i++) MC_CHECK(pev[i].type != EV_MESSAGE, "deflate:reserved-in", "a frame %02x %s%s is part of a message that is delivered: %s", b0, inside ? "inside of a message" : "", comp ? ", compressed" : "", hexs(pev[i].data, pev[i].len));
    int t = recv_msg(&k);
    MC_CHECK(t == 8 || t == 0, "deflate:reserved-answer", "a frame %02x is answered with type %d", b0, t);
    ws_send(k.c, 0x88, "\x03\xe8", 2); sim_quiesce();
    sim_close_client(k.c); sim_quiesce();
    MC_CHECK(sim_server_closed(k.c), "deflate:reserved-open", "the connection that sent the frame %02x stays open", b0);
    MC_CHECK(t == 8, "deflate:reserved-quiet", "a frame %02x%s is not answered by a close frame", b0, inside ? " inside of a message" : "");
    ws_text(o.c, "still"); sim_quiesce();
    came(&o, 1, (const uint8_t *)"still", 5, "another connection");
    mc_outcome(b0 * 4 + inside * 2 + comp);
}

/* --------------------------------------------------------- the whole window */
static void s_window(long arg) {
    unpack(arg);
    boot();
    cl_t k;
    open_cl(&k, offers[A_off]);
    npev = pevi = 0;
    mc_checkpoint();
    cbufs();
    size_t W = (size_t)1 << k.cmwb, V = (size_t)1 << k.smwb;
    int which = mc_choose(2, "window of");
    size_t w = which ? V : W;
    int d = mc_choose(A_len * 2 + 1, "distance") - A_len; /* the repetition is at w + d */
    int mid = mc_choose(3, "messages between"), fin = mc_choose(2, "final blocks");
    /* first: 40 bytes that come back, then filled up */
    rnd = 77;
    uint8_t *b = sim_xalloc(70000);
    size_t total = w + d, first = mid ? 40 : total, n = 0;
    /* (one byte at a time takes more memory than there is) */
    if (total < 40 || (w > 4096 && (A_set == 1 || A_set == 2))) mc_prune();
    for (size_t i = 0; i < 40; i++) b[n++] = r8();
    rnd = 99;
    while (n < total) b[n++] = r8();
    char ctx[100];
    snprintf(ctx, sizeof ctx, "a repetition %zu bytes back (window %zu), %d messages between%s", total, w, mid, fin ? ", final blocks" : "");
    size_t at = 0;
    for (int i = 0; at < total; i++) {
        size_t l = i == 0 ? first : mid == 1 || i == 2 ? total - at : (total - at + 1) / 2;
        send_msg(&k, 2, b + at, l, fin ? E_FINALS : which || i == 0 ? E_STORED : E_LIT, 1, 0, 0, false);
        sim_quiesce();
        got(k.fd, 2, b + at, l, ctx); came(&k, 2, b + at, l, ctx);
        at += l;
    }
    for (int r = 0; r < 2; r++) {
        send_msg(&k, 2, b, 40, fin && r ? E_FINISH : E_FAR, 1, 0, 0, false);
        sim_quiesce();
        got(k.fd, 2, b, 40, ctx); came(&k, 2, b, 40, ctx);
        mc_outcome(mc_hash(mcomp, ctx, strlen(ctx)));
    }
    sim_xfree(b);
}

/* --------------------------- messages of the application to a slow client */
static cl_t *talk_to; static int talk_n;
static uint8_t *tb[24]; static size_t tn[24]; static int top[24];
static void talk(int type, int fd, int op, char *m, size_t n) {
    (void)op; (void)m; (void)n; (void)fd;
    if (type != EV_MESSAGE) return;
    for (int i = 0; i < talk_n; i++) psend(talk_to->fd, top[i], (char *)tb[i], tn[i]);
}
/* the application sends several messages while the client does not read; ring is small, so some may be lost */
static void s_slow(long arg) {
    unpack(arg);
    cfg.size_ringbuffer = A_pipe ? 2 : 4;
    boot();
    cl_t k, o;
    open_cl(&k, offers[A_off]);
    open_cl(&o, "");
    npev = pevi = 0;
    mc_checkpoint();
    cbufs();
    probe_echo = false;
    probe_hook = talk; talk_to = &k; talk_n = A_len;
    for (int i = 0; i < talk_n; i++) {
        int c = pick(SEL_C[A_con], "content");
        tb[i] = sim_xalloc(70400);
        top[i] = content(c, i & 1, tb[i], &tn[i]);
        if (tn[i] > 3) tb[i][1] = tb[i][1] == 'x' || top[i] == 1 ? 'A' + i : i; /* each one is different */
        else { tn[i] = 1; tb[i][0] = 'A' + i; }
    }
    static const long wins[] = { 0, 1, 9, 50, -1 };
    sim_window(k.c, wins[mc_choose(5, "window")]);
    ws_text(o.c, "go"); sim_quiesce();
    bool again = mc_choose(2, "again");
    if (again) { ws_text(o.c, "go"); sim_quiesce(); }
    sim_window(k.c, -1); sim_quiesce();
    ws_text(o.c, "go"); sim_quiesce();
    /* a subsequence of what was sent, and the last ones surely */
    int total = talk_n * (again ? 3 : 2), j = 0, seen = 0, t, last = -1;
    while ((t = recv_msg(&k)) != 0) {
        MC_CHECK(t == 1 || t == 2, "deflate:slow", "a client that reads slowly receives type %d", t);
        for (; j < total; j++) { int i = j % talk_n; if (top[i] == t && tn[i] == mlen && !memcmp(tb[i], mbuf, mlen)) break; }
        MC_CHECK(j < total, "deflate:slow", "a client that reads slowly receives %zu bytes %s, which are none of the messages (or not in their order)", mlen, hexs(mbuf, mlen));
        last = j++; seen++;
    }
    /* with an empty queue as many fit as the ring holds */
    MC_CHECK(last >= 0, "deflate:slow", "nothing arrives");
    mc_outcome(mc_hash(seen, &j, sizeof j));
    /* and the client's messages still work */
    probe_echo = true; probe_hook = NULL; pevi = npev;
    send_msg(&k, 1, (const uint8_t *)"hello, hello, hello, hello", 26, E_FAR, 1, 0, 0, false); sim_quiesce();
    got(k.fd, 1, (const uint8_t *)"hello, hello, hello, hello", 26, "afterwards"); came(&k, 1, (const uint8_t *)"hello, hello, hello, hello", 26, "afterwards");
}

/* ------------------------------------------------------ several connections */
static void s_two(long arg) {
    unpack(arg);
    bool noext = A_small;
    A_small = 0;
    boot();
    cl_t k[3];
    open_cl(&k[0], offers[A_off]);
    open_cl(&k[1], noext ? NULL : offers[(A_off * 5 + 3) % NOFF]);
    npev = pevi = 0;
    mc_checkpoint();
    cbufs();
    char ctx[200]; int cl = 0; ctx[0] = 0;
    bool open[3] = { true, true, false };
    for (int i = 0; i < A_len; i++) {
        int w = mc_choose(2, "which"), what = mc_choose(6, "what");
        size_t n; int op;
        cl += snprintf(ctx + cl, sizeof ctx - cl, "%s%d:%d", i ? " " : "", w, what);
        if (what == 4 || what == 5) { /* leaves, or sends rubbish; comes back */
            if (what == 5 && k[w].on) { ws_send(k[w].c, 0xc2, "\xff\xff\xff", 3); sim_quiesce(); for (; pevi < npev; pevi++) MC_CHECK(pev[pevi].type != EV_MESSAGE, "deflate:rubbish", "%s: rubbish is delivered", ctx); }
            sim_close_client(k[w].c); sim_quiesce();
            MC_CHECK(sim_server_closed(k[w].c), "deflate:open", "%s: the connection is not closed", ctx);
            open_cl(&k[w], offers[(A_off + i + 1) % NOFF]);
            pevi = npev;
            continue;
        }
        op = content(what == 3 ? 4 : what == 2 ? 11 : 3, i, cbuf[0], &n);
        send_msg(&k[w], op, cbuf[0], n, what == 0 ? E_PLAIN : what == 1 ? E_FAR : E_ZLIB, 1, 0, 0, false);
        sim_quiesce();
        got(k[w].fd, op, cbuf[0], n, ctx); came(&k[w], op, cbuf[0], n, ctx);
    }
    (void)open;
    mc_outcome(mc_hash(A_off, ctx, cl));
}

/* ---------------------------------------------------- failing allocations */
static void s_oom(long arg) {
    unpack(arg);
    boot();
    cl_t k, o;
    open_cl(&o, "");
    open_cl(&k, offers[A_off]);
    npev = pevi = 0;
    mc_checkpoint();
    cbufs();
    char ctx[200]; size_t n;
    int c[3], j = 0, op[3]; size_t len[3];
    sim_faults_on = true;
    for (int i = 0; i < A_len; i++) {
        c[i] = pick(SEL_C[A_con], "content");
        op[i] = content(c[i], i, cbuf[i], &len[i]);
        send_msg(&k, op[i], cbuf[i], len[i], i == 1 ? E_PLAIN : E_ZLIB, 1, 0, 0, false);
        sim_quiesce();
    }
    sim_faults_on = false;
    snprintf(ctx, sizeof ctx, "failing allocations, first %s", cname[c[0]]);
    bool ended = false;
    for (; pevi < npev; pevi++) {
        pev_t *e = &pev[pevi];
        if (e->type != EV_MESSAGE) { ended = true; continue; }
        while (j < A_len && !(e->op == op[j] && e->len == len[j] && !(e->len && memcmp(e->data, cbuf[j], e->len)))) j++;
        MC_CHECK(j < A_len, "deflate:oom", "%s: the application receives %zu bytes %s, which were not sent (in this order)", ctx, e->len, hexs(e->data, e->len));
        j++;
    }
    int t; j = 0;
    while ((t = recv_msg(&k)) > 0) {
        if (t == 8) { ended = true; continue; }
        while (j < A_len && !(t == op[j] && mlen == len[j] && !(mlen && memcmp(mbuf, cbuf[j], mlen)))) j++;
        MC_CHECK(j < A_len, "deflate:oom", "%s: the client receives %zu bytes %s, which the application has not sent (in this order)", ctx, mlen, hexs(mbuf, mlen));
        j++;
    }
    pevi = npev;
    if (!ended && !sim_server_closed(k.c)) {
        op[0] = content(3, 7, cbuf[3], &n);
        send_msg(&k, op[0], cbuf[3], n, E_FAR, 1, 0, 0, false); sim_quiesce();
        got(k.fd, op[0], cbuf[3], n, ctx); came(&k, op[0], cbuf[3], n, ctx);
    }
    op[0] = content(3, 8, cbuf[3], &n);
    send_msg(&o, op[0], cbuf[3], n, E_FAR, 1, 0, 0, false); sim_quiesce();
    pevi = npev - 1;
    got(o.fd, op[0], cbuf[3], n, ctx); came(&o, op[0], cbuf[3], n, ctx);
    mc_outcome(mc_hash(j * 2 + ended, ctx, strlen(ctx)));
}

/* ------------------------------------------------------------- schedules */
static cl_t SC[4]; static int nSC;
static int pev_hash(void) { return npev; }
/* the application sends what it receives to all of them */
static void spread(int type, int fd, int op, char *m, size_t n) {
    (void)fd;
    if (type != EV_MESSAGE) return;
    for (int i = 0; i < nSC; i++) psend(SC[i].fd, op, m, n);
}
static void s_sched(long arg) {
    int what = arg, victim = what & 16 ? 0 : 1;
    A_set = what & 8 ? 1 : 0; A_small = 0;
    cfg.pool_workers = 2;
    boot();
    nSC = what & 4 ? 3 : 2;
    for (int i = 0; i < nSC; i++) open_cl(&SC[i], offers[i == 0 ? 0 : i == 1 ? 6 : 5]);
    npev = pevi = 0;
    probe_echo = false; probe_hook = spread;
    mc_checkpoint();
    cbufs();
    sim_sched_on = true;
    size_t n[6]; int op[6]; uint8_t *m[6]; int nm = 0;
    for (int x = 0; x < nSC; x++) for (int r = 0; r < ((what & 3) == 2 ? 2 : 1); r++) {
        int i = victim ? x : nSC - 1 - x;
        m[nm] = sim_xalloc(2100);
        op[nm] = content(r ? 11 : 3, i * 2 + r, m[nm], &n[nm]);
        m[nm][0] = '0' + nm;
        if ((what & 3) == 3 && i == victim) { sim_close_client(SC[victim].c); open_cl(&SC[3], "; server_max_window_bits=10"); }
        send_msg((what & 3) == 3 && i == victim ? &SC[3] : &SC[i], op[nm], m[nm], n[nm], E_FAR, 1, 0, 0, false);
        nm++;
    }
    sim_quiesce();
    sim_sched_on = false;
    uint64_t h = pev_hash();
    /* every message reached the application undamaged, and each client all of them */
    int seenm = 0;
    for (; pevi < npev; pevi++) {
        if (pev[pevi].type != EV_MESSAGE) continue;
        int f = -1;
        for (int j = 0; j < nm; j++) if (pev[pevi].len == n[j] && !memcmp(pev[pevi].data, m[j], n[j])) f = j;
        MC_CHECK(f >= 0 && !(seenm >> f & 1), "deflate:conc-in", "the application receives %s, which was not sent (once more)", hexs(pev[pevi].data, pev[pevi].len));
        seenm |= 1 << f;
        h = h * 31 + f;
    }
    MC_CHECK(seenm == (1 << nm) - 1, "deflate:conc-in", "the application receives the messages %x of %d", seenm, nm);
    for (int i = 0; i < ((what & 3) == 3 ? 4 : nSC); i++) {
        int seen = 0, t;
        if (i == 3) { if ((t = recv_msg(&SC[3])) > 0) { /* it may have got the descriptor of the other */ } continue; }
        if ((what & 3) == 3 && (i == victim || i >= nSC)) continue;
        while ((t = recv_msg(&SC[i])) != 0) {
            int f = -1;
            for (int j = 0; j < nm; j++) if (mlen == n[j] && !memcmp(mbuf, m[j], mlen)) f = j;
            MC_CHECK(t > 0 && f >= 0 && !(seen >> f & 1), "deflate:conc-out", "client %d receives type %d %s, which was not sent (once more)", i, t, t > 0 ? hexs(mbuf, mlen) : "");
            seen |= 1 << f;
            h = h * 31 + f;
        }
        MC_CHECK(seen == (1 << nm) - 1, "deflate:conc-out", "client %d receives the messages %x of %d", i, seen, nm);
    }
    mc_outcome(h);
}

extern void __tsan_init(void) __attribute__((weak));
/* W14: the limits hold for what is on the wire, however much it is compressed */
static const int flim[] = { 5, 20, 125, 126, 300 };
static void s_limit(long arg) {
    int lim = flim[arg & 7], maxf = arg >> 3 & 7;
    srv_deflate = true;
    cfg.size_frame = lim; cfg.max_frames = maxf;
    srv_start();
    cl_t k;
    open_cl(&k, offers[arg >> 6]);
    npev = pevi = 0;
    mc_checkpoint();
    cbufs();
    static const int encs[] = { E_PLAIN, E_LIT, E_STORED, E_ZLIB, E_FAR };
    bool prior = mc_choose(2, "prior message");
    char ctx[200];
    uint8_t *b = cbuf[0];
    if (prior) { send_msg(&k, 1, (const uint8_t *)"ab", 2, E_LIT, 1, 0, 0, false); sim_quiesce(); got(k.fd, 1, (const uint8_t *)"ab", 2, "first message"); came(&k, 1, (const uint8_t *)"ab", 2, "first message"); }
    int what = mc_choose(3, "what"), e = encs[mc_choose(5, "encoding")];
    size_t n, z; const uint8_t *p;
    size_t cut[12]; int parts = 1;
    rnd = 77;
    if (what == 2) { /* much data in a small frame */
        n = lim * 3; for (size_t i = 0; i < n; i++) b[i] = 'a';
    } else if (what == 1) { n = 3 + mc_choose(lim < 20 ? lim : 20, "length"); for (size_t i = 0; i < n; i++) b[i] = r8(); }
    else { int d = mc_choose(18, "below"); if (lim + 3 < d) mc_prune(); n = lim + 3 - d; for (size_t i = 0; i < n; i++) b[i] = r8(); }
    if (e == E_PLAIN) { p = b; z = n; } else { z = make(&k, e, b, n); p = ebuf; }
    if (what == 1) { parts = 1 + mc_choose(maxf + 2, "frames"); for (int i = 0; i < parts; i++) cut[i] = i * z / parts; }
    else { parts = 1 + mc_choose(3, "frames"); cut[0] = 0; if (parts == 2) cut[1] = z > 1 ? 1 : 0; if (parts == 3) { parts = 2; cut[1] = z > 1 ? z - 1 : 0; } }
    cut[parts] = z;
    bool ping = mc_choose(2, "ping"), refused = parts > maxf;
    for (int i = 0; i < parts; i++) {
        if (cut[i + 1] - cut[i] > (size_t)lim) refused = true;
        ws_send(k.c, (i + 1 == parts ? 0x80 : 0) | (i ? 0 : 2 | (e != E_PLAIN ? 0x40 : 0)), p + cut[i], cut[i + 1] - cut[i]);
        if (ping && i + 1 < parts) ws_send(k.c, 0x89, "?", 1);
    }
    sim_quiesce();
    snprintf(ctx, sizeof ctx, "%zu bytes (%s) as %zu in %d frames, limits %d bytes and %d frames", n, ename[e], z, parts, lim, maxf);
    int t;
    if (!refused) {
        got(k.fd, 2, b, n, ctx);
        for (int i = 0; ping && i + 1 < parts; i++) { t = recv_msg(&k); MC_CHECK(t == 10, "limit:pong", "%s: a ping is answered with type %d", ctx, t); }
        came(&k, 2, b, n, ctx);
        send_msg(&k, 1, (const uint8_t *)"xyz", 3, E_PLAIN, 1, 0, 0, false); sim_quiesce();
        got(k.fd, 1, (const uint8_t *)"xyz", 3, ctx); came(&k, 1, (const uint8_t *)"xyz", 3, ctx);
    } else {
        while ((t = recv_msg(&k)) == 10) ;
        int status = t == 8 && mlen >= 2 ? mbuf[0] << 8 | mbuf[1] : 0;
        MC_CHECK(t == 8 && status == 1009, "limit:status", "%s: is answered with type %d status %d", ctx, t, status);
        sim_close_client(k.c); sim_quiesce();
        MC_CHECK(sim_server_closed(k.c), "limit:open", "%s: the connection stays open", ctx);
        for (; pevi < npev; pevi++) MC_CHECK(pev[pevi].type != EV_MESSAGE, "limit:delivered", "%s: is delivered", ctx);
    }
    mc_outcome(mc_hash(refused, ctx, strlen(ctx)));
    if (mc_want_sample()) mc_sample("%s: %s", ctx, refused ? "refused" : "accepted");
}
void harness_init(void) {
    bool T = sim_thorough;
    memset(&sim_cfg, 0, sizeof sim_cfg);
    sim_cfg.max_steps = 4000000; sim_cfg.max_sleeps = 50;
    srv_defaults();
    char nm[200];
    if (!strcmp(sim_property, "W14")) {
        for (int l = 0; l < 5; l++) for (int f = 1; f < (T ? 5 : 4); f++) for (int o = 0; o < NOFF; o++) {
            if (o && (o != 4 || f != 3) && (!T || o != 3)) continue;
            snprintf(nm, sizeof nm, "compressed messages, frames of %d, at most %d (offer '%s')", flim[l], f, offers[o]);
            sim_scenario(nm, s_limit, l | f << 3 | o << 6);
        }
        return;
    }
    if (!__tsan_init) {
        bool hostile = !strcmp(sim_property, "W11");
        for (int s = 0; s < NSET && !hostile; s++) for (int o = 0; o < NOFF; o++) {
            if (!T && s && o % 6 != s % 6) continue;
#define NAME(fmt, ...) snprintf(nm, sizeof nm, fmt " (offer '%s', setting '%s')", ##__VA_ARGS__, offers[o], settings[s] ? settings[s] : "")
            NAME("two messages"); sim_scenario(nm, s_seq, pack(s, o, 2, 0, (s == 0 && (o == 0 || o == 8)) || T ? 0 : 1, 0, 0));
            NAME("three messages"); sim_scenario(nm, s_seq, pack(s, o, 3, 1, T ? 1 : 2, 0, 0));
            if (s != 1 && s != 2) { NAME("large messages"); sim_scenario(nm, s_seq, pack(s, o, 2, 2, T ? 1 : 3, 0, 0)); }
            NAME("messages at once"); sim_scenario(nm, s_seq, pack(s, o, 2, 1, 1, 0, 1));
            NAME("small frames"); sim_scenario(nm, s_seq, pack(s, o, 2, 0, T ? 0 : 1, 1, 0));
            NAME("window"); sim_scenario(nm, s_window, pack(s, o, T ? 7 : 3, 0, 0, 0, 0));
        }
        for (int o = 0; o < NOFF; o++) {
            int s = o % NSET;
            if (!T && o > 3 && o != 8) continue;
            if (hostile) { NAME("damaged"); sim_scenario(nm, s_damage, pack(s, o, 2, 0, 1, 0, 0)); NAME("reserved bits"); sim_scenario(nm, s_rsv, o); continue; }
            NAME("fragments"); sim_scenario(nm, s_frag, pack(s, o, 2, T ? 0 : 2, T ? 0 : 1, 0, 0));
            NAME("arrival"); sim_scenario(nm, s_frag, pack(s, o, 2, 1, 0, 0, 0));
            if (T || o == 0 || o == 8) { NAME("damaged"); sim_scenario(nm, s_damage, pack(s, o, 2, 0, T ? 0 : 1, 0, 0)); }
            NAME("reserved bits"); sim_scenario(nm, s_rsv, o);
            NAME("slow client"); sim_scenario(nm, s_slow, pack(s, o, T ? 4 : 3, 1, 0, 0, 0));
            NAME("slow client, tiny ring"); sim_scenario(nm, s_slow, pack(s, o, T ? 4 : 3, 1, 0, 1, 1));
            sim_cfg.f_malloc = true; sim_cfg.fault_budget = T ? 2 : 1;
            NAME("failing allocations"); sim_scenario(nm, s_oom, pack(s, o, 2, 1, 0, 0, 0));
            sim_cfg.f_malloc = false; sim_cfg.fault_budget = 0;
            NAME("several connections"); sim_scenario(nm, s_two, pack(s, o, T ? 4 : 3, 0, 0, o & 1, 0));
        }
        sim_scenario("reserved bits, no extension", s_rsv, NOFF);
        for (int n = 0; n <= (T ? 3 : 2); n++) for (int pre = 0; pre < 3; pre++) {
            if (n == 3 && pre) continue;
            int o = pre == 2 ? 2 : 0;
            snprintf(nm, sizeof nm, "all payloads of %d bytes after %d", n, pre);
            sim_scenario(nm, s_bytes, n | pre << 3 | o << 5 | (pre == 2 ? 1 : 0) << 9);
        }
        if (hostile) return;
    }
    static const char *sn[] = { "each sends at once", "each sends at once", "each sends twice", "one is replaced" };
    for (int w = 1; w < 32; w++) {
        if (((w & 8) && !T) || (w & 3) == 0 || ((w & 16) && (w & 3) != 3)) continue;
        sim_cfg.mc = true; sim_cfg.sp_sync = sim_cfg.sp_sys = true;
        if (__tsan_init) { sim_cfg.delay_bound = false; sim_cfg.races = 1; sim_cfg.sched_budget = T && (w & 3) < 3 ? 3 : 2; }
        else { sim_cfg.delay_bound = true; sim_cfg.sched_budget = (T ? 5 : 4) - (w & 4 ? 1 : 0) - ((w & 3) == 2 || (!T && ((w & 3) == 3 || (w & 16))) ? 1 : 0); }
        snprintf(nm, sizeof nm, "schedules: %d clients, %s%s, %d %s", w & 4 ? 3 : 2, w & 16 ? "the first is replaced" : sn[w & 3], w & 8 ? ", small chunks" : "", sim_cfg.sched_budget, __tsan_init ? "preemptions" : "delays");
        sim_scenario(nm, s_sched, w);
    }
}

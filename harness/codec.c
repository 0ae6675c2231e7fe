/* W01, W02, W05 at the level of the codec functions: every case of a bounded
 * grid is run through the real functions and compared with an encoder, a
 * decoder and a validator written from RFC 6455 and the Unicode standard. */
#include "sim.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include "frame.h"
#include "utf8.h"
#include "alloc.h"

const char *harness_rule;

static uint8_t pat(size_t i, unsigned k) { return (uint8_t)(i * 31 + (i >> 8) * 7 + k * 101 + 3); }

/* ------------------------------------------------------------------- W01 */
static size_t enc_header(uint8_t *o, uint8_t b0, uint8_t b1, uint64_t len, const uint8_t *key) {
    size_t n = 0;
    o[n++] = b0; o[n++] = b1;
    if ((b1 & 127) == 126) { o[n++] = len >> 8; o[n++] = len; }
    else if ((b1 & 127) == 127) for (int i = 7; i >= 0; i--) o[n++] = len >> (8 * i);
    if (b1 & 128) for (int i = 0; i < 4; i++) o[n++] = key[i];
    return n;
}

/* parses the first `have` bytes of an encoded frame placed at `off` */
static void one_parse(uint8_t b0, uint8_t b1, uint64_t len, const uint8_t *key, size_t off, size_t have, size_t hlen, const uint8_t *hdr) {
    bool complete = have >= hlen && have - hlen >= len;
    uint8_t *buf = sim_xalloc(off + have);
    for (size_t i = 0; i < off; i++) buf[i] = 0xEE;
    for (size_t i = 0; i < have; i++) {
        if (i < hlen) buf[off + i] = hdr[i];
        else {
            uint8_t p = pat(i - hlen, b0);
            buf[off + i] = i - hlen < len ? (b1 & 128 ? p ^ key[(i - hlen) & 3] : p) : 0x5a;
        }
    }
    size_t o = off;
    wss_frame_t *f = WSS_parse_frame((char *)buf, off + have, &o);
    if (complete) {
        MC_CHECK(f != NULL, "parse:null", "frame %02x %02x of length %llu was not decoded", b0, b1, (unsigned long long)len);
        MC_CHECK(!!f->fin == (b0 >> 7) && !!f->rsv1 == (b0 >> 6 & 1) && !!f->rsv2 == (b0 >> 5 & 1) && !!f->rsv3 == (b0 >> 4 & 1) && f->opcode == (b0 & 15) && !!f->mask == (b1 >> 7),
            "parse:header", "header %02x %02x: fin %d rsv %d%d%d opcode %d mask %d", b0, b1, f->fin, f->rsv1, f->rsv2, f->rsv3, f->opcode, f->mask);
        MC_CHECK(f->payloadLength == len && f->applicationDataLength == len, "parse:length", "header %02x %02x: length %llu instead of %llu", b0, b1, (unsigned long long)f->payloadLength, (unsigned long long)len);
        MC_CHECK(o == off + hlen + len, "parse:offset", "header %02x %02x length %llu at %zu: parsing goes on at %zu instead of %zu", b0, b1, (unsigned long long)len, off, o, off + hlen + (size_t)len);
        for (size_t i = 0; i < len; i++)
            MC_CHECK((uint8_t)f->payload[i] == pat(i, b0), "parse:payload", "header %02x %02x length %llu at %zu: byte %zu is %02x instead of %02x (key %02x%02x%02x%02x)", b0, b1, (unsigned long long)len, off, i, (uint8_t)f->payload[i], pat(i, b0), key[0], key[1], key[2], key[3]);
    } else {
        MC_CHECK(f == NULL || o > off + have, "parse:incomplete", "header %02x %02x length %llu at %zu: %zu of %llu bytes are there, but the frame is taken as complete (next offset %zu)", b0, b1, (unsigned long long)len, off, have, (unsigned long long)(hlen + len), o);
    }
    if (f) WSS_free_frame(f);
    for (size_t i = 0; i < off; i++) MC_CHECK(buf[i] == 0xEE, "parse:clobber", "byte %zu before the frame was changed", i);
    sim_xfree(buf);
    mc_count(1);
}

static const uint8_t keys[][4] = { {0,0,0,0}, {1,2,4,8}, {0xff,0,0,0}, {0,0xff,0,0}, {0,0,0xff,0}, {0,0,0,0xff}, {0xde,0xad,0xbe,0xef}, {0x80,0x7f,0xff,1} };

static void w01_headers(long arg) {
    (void)arg;
    mc_checkpoint();
    int b0 = mc_choose(256, "first byte"), b1 = mc_choose(256, "second byte");
    static const uint64_t l16[] = { 0, 1, 125, 126, 127, 128, 200, 255, 256, 257, 511, 1000 };
    static const uint64_t l64[] = { 0, 1, 125, 126, 127, 300, 1ull << 32, (1ull << 32) + 5, 1ull << 63, (1ull << 63) - 1, ~0ull, ~0ull - 1, ~0ull - 13, ~0ull - 14, ~0ull - 15, 1ull << 40 };
    int nl = (b1 & 127) == 126 ? 12 : (b1 & 127) == 127 ? 16 : 1;
    for (int k = 0; k < nl; k++) {
        uint64_t len = (b1 & 127) == 126 ? l16[k] : (b1 & 127) == 127 ? l64[k] : (uint64_t)(b1 & 127);
        const uint8_t *key = keys[(b0 + k) % 8];
        uint8_t hdr[16];
        size_t hl = enc_header(hdr, b0, b1, len, key);
        size_t off = (b0 ^ b1) % 5;
        /* every truncation within the header, and around the payload's ends */
        for (size_t h = 1; h <= hl; h++) one_parse(b0, b1, len, key, off, h, hl, hdr);
        if (len > 0) one_parse(b0, b1, len, key, off, hl + 1, hl, hdr);
        if (len < 4096) {
            if (len > 2) one_parse(b0, b1, len, key, off, hl + len - 1, hl, hdr);
            one_parse(b0, b1, len, key, off, hl + len, hl, hdr);
            one_parse(b0, b1, len, key, off, hl + len + 1, hl, hdr);
            one_parse(b0, b1, len, key, off, hl + len + 9, hl, hdr);
        } else {
            one_parse(b0, b1, len, key, off, hl + 40, hl, hdr);
        }
    }
    mc_outcome(b0 << 8 | b1);
    if (mc_want_sample()) mc_sample("header %02x %02x: %d payload lengths, every truncation of the header and at the payload's ends, decoded", b0, b1, nl);
}

static void w01_lengths(long max) {
    mc_checkpoint();
    int chunk = 16, nch = (int)((max + chunk) / chunk);
    int c = mc_choose(nch, "length block");
    int k = mc_choose(8, "key");
    int off = mc_choose(8, "offset");
    for (uint64_t len = (uint64_t)c * chunk; len < (uint64_t)(c + 1) * chunk; len++) {
        uint8_t hdr[16];
        for (int form = 0; form < 3; form++) {
            if (form == 0 && len > 125) continue;
            if (form == 1 && len > 65535) continue;
            int b1 = form == 0 ? (int)len : form == 1 ? 126 : 127;
            for (int m = 0; m < 2; m++) {
                size_t hl = enc_header(hdr, 0x82, b1 | m << 7, len, keys[k]);
                one_parse(0x82, b1 | m << 7, len, keys[k], off, hl + len, hl, hdr);
                if (off == 0 && k == 1) for (size_t cut = 1; cut <= len && cut < 40; cut++) one_parse(0x82, b1 | m << 7, len, keys[k], off, hl + len - cut, hl, hdr);
            }
        }
    }
    mc_outcome((uint64_t)c << 16 | k << 8 | off);
    if (mc_want_sample()) mc_sample("payloads of %d..%d bytes, key %02x%02x%02x%02x, buffer offset %d: all length forms, masked and not, decoded", c * chunk, (c + 1) * chunk - 1, keys[k][0], keys[k][1], keys[k][2], keys[k][3], off);
}

/* lengths around the borders of the length forms and beyond */
static void w01_large(long arg) {
    static const uint32_t ls[] = { 65533, 65534, 65535, 65536, 65537, 65538, 65567, 65568, 65569, 65599, 65600, 70001, 131071, 131072, 131073, 200003, 1048575, 1048576, 1048577 };
    (void)arg;
    mc_checkpoint();
    int i = mc_choose(sizeof ls / sizeof *ls, "length");
    int k = mc_choose(8, "key");
    int cut = mc_choose(4, "cut");
    uint8_t hdr[16];
    for (int form = 1; form < 3; form++) {
        if (form == 1 && ls[i] > 65535) continue;
        for (int m = 0; m < 2; m++) {
            int b1 = (form == 1 ? 126 : 127) | m << 7;
            size_t hl = enc_header(hdr, 0x02, b1, ls[i], keys[k]);
            size_t have = cut == 0 ? hl + ls[i] : cut == 1 ? hl + ls[i] - 1 : cut == 2 ? hl + ls[i] + 3 : hl + ls[i] / 2;
            one_parse(0x02, b1, ls[i], keys[k], i % 4, have, hl, hdr);
        }
    }
    mc_outcome((uint64_t)i << 16 | k << 8 | cut);
}

/* several frames one after the other in one buffer */
static void w01_stream(long arg) {
    (void)arg;
    mc_checkpoint();
    static const uint16_t ls[] = { 0, 1, 3, 31, 32, 33, 125, 126, 64, 130 };
    int idx[3], n = mc_choose(3, "frames") + 1;
    for (int i = 0; i < n; i++) idx[i] = mc_choose(10, "length");
    int msk = mc_choose(1 << n, "masks");
    uint8_t tmp[1024]; size_t t = 0, ends[3];
    for (int i = 0; i < n; i++) {
        uint8_t hdr[16];
        int m = msk >> i & 1;
        size_t hl = enc_header(hdr, 0x82, (ls[idx[i]] > 125 ? 126 : ls[idx[i]]) | m << 7, ls[idx[i]], keys[i + 1]);
        memcpy(tmp + t, hdr, hl); t += hl;
        for (size_t j = 0; j < ls[idx[i]]; j++) tmp[t++] = m ? pat(j, i) ^ keys[i + 1][j & 3] : pat(j, i);
        ends[i] = t;
    }
    for (size_t have = 1; have <= t; have++) {
        uint8_t *buf = sim_xalloc(have);
        memcpy(buf, tmp, have);
        size_t o = 0;
        for (int i = 0; i < n && o < have; i++) {
            wss_frame_t *f = WSS_parse_frame((char *)buf, have, &o);
            bool complete = ends[i] <= have;
            MC_CHECK(complete ? f != NULL && o == ends[i] : f == NULL || o > have, "parse:stream", "frame %d of %d in %zu of %zu bytes: next offset %zu", i, n, have, t, o);
            if (complete) for (size_t j = 0; j < ls[idx[i]]; j++) MC_CHECK((uint8_t)f->payload[j] == pat(j, i), "parse:payload", "frame %d byte %zu", i, j);
            if (f) WSS_free_frame(f);
            mc_count(1);
            if (!complete) break;
        }
        sim_xfree(buf);
    }
    mc_outcome(n * 100000 + idx[0] * 1000 + (n > 1 ? idx[1] * 50 : 0) + msk);
}

/* ------------------------------------------------------------------- W02 */
static void check_message(wss_opcode_t op, size_t len, unsigned fsize, const uint8_t *msg, wss_frame_t **fs, size_t n) {
    char *out = NULL;
    MC_CHECK(n > 0 && fs, "frames:none", "no frames for %zu bytes with frame size %u", len, fsize);
    size_t on = WSS_stringify_frames(fs, n, &out);
    MC_CHECK(on > 0 && out, "frames:none", "no bytes for %zu bytes with frame size %u", len, fsize);
    sim_heap_check(out, on, false, "serialised message");
    size_t o = 0, got = 0;
    int k = 0;
    bool fin = false;
    while (o < on) {
        MC_CHECK(!fin, "frames:after-fin", "%zu bytes in frames of %u: frame %d comes after the final one", len, fsize, k);
        uint8_t b0 = out[o], b1 = out[o + 1];
        MC_CHECK(on - o >= 2, "frames:truncated", "%zu bytes in frames of %u", len, fsize);
        o += 2;
        fin = b0 >> 7;
        MC_CHECK((b0 & 0x70) == 0, "frames:rsv", "%zu bytes in frames of %u: frame %d has reserved bits (%02x)", len, fsize, k, b0);
        MC_CHECK((b0 & 15) == (k == 0 ? (int)op : 0), "frames:opcode", "%zu bytes in frames of %u: frame %d has opcode %d", len, fsize, k, b0 & 15);
        MC_CHECK((b1 & 128) == 0, "frames:mask", "%zu bytes in frames of %u: frame %d is masked", len, fsize, k);
        uint64_t l = b1 & 127;
        if (l == 126) {
            MC_CHECK(on - o >= 2, "frames:truncated", "%zu bytes in frames of %u", len, fsize);
            l = (uint8_t)out[o] << 8 | (uint8_t)out[o + 1]; o += 2;
            MC_CHECK(l > 125, "frames:canonical", "%zu bytes in frames of %u: length %llu in two bytes", len, fsize, (unsigned long long)l);
        } else if (l == 127) {
            MC_CHECK(on - o >= 8, "frames:truncated", "%zu bytes in frames of %u", len, fsize);
            l = 0;
            for (int i = 0; i < 8; i++) l = l << 8 | (uint8_t)out[o++];
            MC_CHECK(l > 65535, "frames:canonical", "%zu bytes in frames of %u: length %llu in eight bytes", len, fsize, (unsigned long long)l);
        }
        MC_CHECK(l <= fsize || op == CLOSE_FRAME, "frames:size", "%zu bytes in frames of %u: frame %d has %llu bytes", len, fsize, k, (unsigned long long)l);
        MC_CHECK(l <= on - o && got + l <= len, "frames:length", "%zu bytes in frames of %u: frame %d claims %llu bytes, %zu are left in the output, %zu of the message", len, fsize, k, (unsigned long long)l, on - o, len - got);
        for (uint64_t i = 0; i < l; i++) MC_CHECK((uint8_t)out[o + i] == msg[got + i], "frames:payload", "%zu bytes in frames of %u: byte %llu is %02x instead of %02x", len, fsize, (unsigned long long)(got + i), (uint8_t)out[o + i], msg[got + i]);
        o += l; got += l;
        k++;
    }
    MC_CHECK(fin, "frames:unfinished", "%zu bytes in frames of %u: the last frame is not final", len, fsize);
    MC_CHECK(got == len, "frames:lost", "%zu bytes in frames of %u: only %zu are sent", len, fsize, got);
    WSS_free((void **)&out);
    mc_count(1);
}
static void one_frames(wss_config_t *cfg, wss_opcode_t op, size_t len, unsigned fsize) {
    cfg->size_frame = fsize;
    uint8_t *msg = sim_xalloc(len);
    for (size_t i = 0; i < len; i++) msg[i] = op == CLOSE_FRAME && i >= 2 ? 'a' + i % 26 : pat(i, fsize);
    if (op == CLOSE_FRAME && len >= 2) { msg[0] = 3; msg[1] = 0xe8 + len % 4; }
    wss_frame_t **fs = NULL;
    size_t n = WSS_create_frames(cfg, op, (char *)msg, len, &fs);
    check_message(op, len, fsize, msg, fs, n);
    for (size_t i = 0; i < n; i++) WSS_free_frame(fs[i]);
    WSS_free((void **)&fs);
    sim_xfree(msg);
}
static wss_config_t *cfg_new(void) { wss_config_t *c = sim_xalloc(sizeof *c); memset(c, 0, sizeof *c); return c; }
static long w02_len, w02_size;
static void w02_grid(long arg) {
    (void)arg;
    wss_config_t *cfg = cfg_new();
    mc_checkpoint();
    int fs = 1 + mc_choose(w02_size, "frame size");
    int blk = mc_choose((w02_len + 16) / 16, "length block");
    int op = mc_choose(2, "type") + 1;
    uint64_t before = sim_live().blocks;
    for (int l = blk * 16; l < blk * 16 + 16; l++) one_frames(cfg, op, l, fs);
    MC_CHECK(sim_live().blocks == before, "frames:leak", "framing leaks");
    mc_outcome((uint64_t)fs << 32 | blk << 4 | op);
    if (mc_want_sample()) mc_sample("messages of %d..%d bytes, type %d, in frames of at most %d bytes: concatenation and flags checked", blk * 16, blk * 16 + 15, op, fs);
}
static void w02_borders(long arg) {
    static const uint32_t ls[] = { 0, 1, 124, 125, 126, 127, 128, 255, 256, 65534, 65535, 65536, 65537, 131070, 131071, 131072, 196605 };
    static const uint32_t fs[] = { 1, 2, 124, 125, 126, 127, 255, 256, 65534, 65535, 65536, 65537, 1048576, 0x7fffffff, 0xffffffffu };
    (void)arg;
    wss_config_t *cfg = cfg_new();
    mc_checkpoint();
    int l = mc_choose(sizeof ls / sizeof *ls, "length"), f = mc_choose(sizeof fs / sizeof *fs, "frame size"), op = mc_choose(2, "type") + 1;
    if (ls[l] / fs[f] > 2000) mc_prune();
    one_frames(cfg, op, ls[l], fs[f]);
    mc_outcome((uint64_t)l << 32 | f << 4 | op);
}
static void w02_close(long arg) {
    (void)arg;
    wss_config_t *cfg = cfg_new();
    mc_checkpoint();
    int len = 2 + mc_choose(124, "close payload");
    one_frames(cfg, CLOSE_FRAME, len, 125);
    one_frames(cfg, CLOSE_FRAME, len, 1 << 20);
    mc_outcome(len);
    if (mc_want_sample()) mc_sample("close message with a reason of %d bytes (not terminated): sent unchanged", len - 2);
}
static void w02_control(long arg) {
    (void)arg;
    wss_config_t *cfg = cfg_new();
    mc_checkpoint();
    int len = mc_choose(126, "control payload"), op = 9 + mc_choose(2, "type");
    one_frames(cfg, op, len, 125);
    mc_outcome(op * 1000 + len);
}

/* ------------------------------------------------------------------- W05 */
static bool utf8_ok(const uint8_t *s, size_t n) {
    size_t i = 0;
    while (i < n) {
        uint32_t c = s[i];
        int k;
        uint32_t v, min;
        if (c < 0x80) { i++; continue; }
        else if (c >= 0xC0 && c < 0xE0) { k = 1; v = c & 31; min = 0x80; }
        else if (c >= 0xE0 && c < 0xF0) { k = 2; v = c & 15; min = 0x800; }
        else if (c >= 0xF0 && c < 0xF8) { k = 3; v = c & 7; min = 0x10000; }
        else return false;
        if (n - i <= (size_t)k) return false;
        for (int j = 1; j <= k; j++) { if ((s[i + j] & 0xC0) != 0x80) return false; v = v << 6 | (s[i + j] & 63); }
        if (v < min || v > 0x10FFFF || (v >= 0xD800 && v < 0xE000)) return false;
        i += k + 1;
    }
    return true;
}
static void hex(const uint8_t *s, size_t n, char *o) { *o = 0; for (size_t i = 0; i < n && i < 100; i++) sprintf(o + 2 * i, "%02x", s[i]); }
static void u8(const uint8_t *s, size_t n) {
    bool want = utf8_ok(s, n), got = utf8_check((const char *)s, n);
    if (want != got) {
        char b[256];
        hex(s, n, b);
        mc_fail("utf8", "%s (%zu bytes) is %s UTF-8, the validator says %s", b, n, want ? "valid" : "not", got ? "valid" : "invalid");
    }
}
static void w05_short(long n) {
    mc_checkpoint();
    int a = n >= 1 ? mc_choose(256, "byte") : 0;
    uint8_t *s = sim_xalloc(n);
    if (n == 0) { u8(s, 0); mc_count(1); return; }
    s[0] = a;
    if (n == 1) { u8(s, 1); mc_count(1); return; }
    for (int b = 0; b < 256; b++) {
        s[1] = b;
        if (n == 2) { u8(s, 2); continue; }
        for (int c = 0; c < 256; c++) { s[2] = c; u8(s, 3); }
    }
    mc_count(n == 2 ? 256 : 65536);
    mc_outcome(a);
    if (mc_want_sample()) mc_sample("all %ld-byte strings that begin with %02x", n, a);
}
static const uint8_t bnd[] = { 0x00, 0x41, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xff };
#define NB ((int)sizeof bnd)
static void w05_bnd(long n) {
    mc_checkpoint();
    uint8_t *s = sim_xalloc(n);
    s[0] = bnd[mc_choose(NB, "byte")];
    s[1] = bnd[mc_choose(NB, "byte")];
    int i[4] = {0};
    int rest = n - 2;
    uint64_t cnt = 1;
    for (int k = 0; k < rest; k++) cnt *= NB;
    for (uint64_t x = 0; x < cnt; x++) {
        uint64_t y = x;
        for (int k = 0; k < rest; k++) { s[2 + k] = bnd[y % NB]; y /= NB; }
        u8(s, n);
    }
    (void)i;
    mc_count(cnt);
    mc_outcome(s[0] << 8 | s[1]);
}
/* a short sequence within a longer text, at every alignment */
static long w05_pre, w05_post;
static void w05_embed(long n) {
    mc_checkpoint();
    int pre = mc_choose(w05_pre, "text before"), post = mc_choose(w05_post, "text after");
    int fill = mc_choose(3, "filler");
    uint8_t *s = sim_xalloc(pre + n + post);
    /* filler: ASCII, two-byte, or three-byte characters (cut off pieces padded with ASCII) */
    for (int side = 0; side < 2; side++) {
        uint8_t *p = side ? s + pre + n : s;
        int m = side ? post : pre, k = 0;
        while (k < m) {
            if (fill == 1 && m - k >= 2) { p[k++] = 0xc3; p[k++] = 0xa9; }
            else if (fill == 2 && m - k >= 3) { p[k++] = 0xe2; p[k++] = 0x82; p[k++] = 0xac; }
            else p[k++] = 'x';
        }
    }
    uint64_t cnt = 1;
    for (int k = 0; k < n; k++) cnt *= NB;
    for (uint64_t x = 0; x < cnt; x++) {
        uint64_t y = x;
        for (int k = 0; k < n; k++) { s[pre + k] = bnd[y % NB]; y /= NB; }
        u8(s, pre + n + post);
    }
    mc_count(cnt);
    mc_outcome(pre << 16 | post << 8 | fill << 4 | n);
    if (mc_want_sample()) mc_sample("all %ld-byte strings of range borders after %d and before %d bytes of %d-byte characters", n, pre, post, fill + 1);
}
/* all four-byte strings with lead bytes F0..F4 and borders behind */
static void w05_four(long arg) {
    (void)arg;
    mc_checkpoint();
    uint8_t *s = sim_xalloc(4);
    s[0] = 0xe0 + mc_choose(32, "lead");
    for (int b = 0; b < 256; b++) for (int c = 0; c < NB; c++) for (int d = 0; d < NB; d++) { s[1] = b; s[2] = bnd[c]; s[3] = bnd[d]; u8(s, 4); }
    mc_count(256 * NB * NB);
    mc_outcome(s[0]);
}

void harness_init(void) {
    char nm[64];
    if (!strcmp(sim_property, "W01")) {
        harness_rule = "case = one call of the frame parser on one (header bytes, length, key, buffer offset, truncation); distinct = parameter blocks";
        sim_scenario("headers", w01_headers, 0);
        sim_scenario("lengths", w01_lengths, sim_thorough ? 9000 : 1100);
        sim_scenario("large", w01_large, 0);
        sim_scenario("stream", w01_stream, 0);
    } else if (!strcmp(sim_property, "W02")) {
        harness_rule = "case = one message framed, serialised and decoded again";
        w02_len = sim_thorough ? 1500 : 300; w02_size = sim_thorough ? 400 : 140;
        sim_scenario("grid", w02_grid, 0);
        sim_scenario("borders", w02_borders, 0);
        sim_scenario("close", w02_close, 0);
        sim_scenario("control", w02_control, 0);
    } else if (!strcmp(sim_property, "W05")) {
        harness_rule = "case = one string judged by the validator and by the definition";
        for (int n = 0; n <= 3; n++) { snprintf(nm, sizeof nm, "all-%d", n); sim_scenario(nm, w05_short, n); }
        sim_scenario("four", w05_four, 0);
        w05_pre = 70; w05_post = sim_thorough ? 70 : 36;
        for (int n = 1; n <= (sim_thorough ? 3 : 2); n++) { snprintf(nm, sizeof nm, "embedded-%d", n); sim_scenario(nm, w05_embed, n); }
        sim_scenario("borders-4", w05_bnd, 4);
        sim_scenario("borders-5", w05_bnd, sim_thorough ? 6 : 5);
    }
}

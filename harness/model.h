/* What RFC 6455 says a server does with a byte stream of a client after the
 * upgrade (no extension negotiated), and the comparison with the server. */
#ifndef MODEL_H
#define MODEL_H
#include "srv.h"
#define MMAX 64
typedef struct { int op; size_t len; size_t off; } mmsg_t;
typedef struct {
    mmsg_t del[MMAX]; int ndel;       /* messages for the application */
    mmsg_t pong[MMAX]; int npong;
    uint8_t buf[1 << 17]; size_t nbuf; /* payloads of the above */
    int closed;                       /* 1: the connection ends */
    int maybe;                        /* may end already (header of an unfinished frame is in violation) */
    int codes[8], ncodes;             /* acceptable status codes, -1: none */
    int inmsg, mop, mframes; uint8_t m[1 << 17]; size_t mlen;
    uint8_t in[1 << 17]; size_t nin, pos; /* the stream and how much of it was parsed */
    uint64_t limit_frame, limit_frames;
    const char *why;
    bool frames_limited;
} model_t;

/* Unicode 15, table 3-7 */
static bool ref_utf8(const uint8_t *s, size_t n) {
    for (size_t i = 0; i < n; ) {
        int c = s[i], k, lo = 0x80, hi = 0xbf;
        if (c < 0x80) { i++; continue; }
        if (c >= 0xc2 && c <= 0xdf) k = 1;
        else if (c >= 0xe0 && c <= 0xef) { k = 2; if (c == 0xe0) lo = 0xa0; if (c == 0xed) hi = 0x9f; }
        else if (c >= 0xf0 && c <= 0xf4) { k = 3; if (c == 0xf0) lo = 0x90; if (c == 0xf4) hi = 0x8f; }
        else return false;
        if (n - i < (size_t)k + 1) return false;
        for (int j = 1; j <= k; j++, lo = 0x80, hi = 0xbf) if (s[i + j] < lo || s[i + j] > hi) return false;
        i += k + 1;
    }
    return true;
}
static void model_init(model_t *m) {
    m->ndel = m->npong = 0; m->nbuf = 0; m->closed = m->maybe = m->ncodes = 0; m->inmsg = m->mop = m->mframes = 0; m->mlen = m->nin = m->pos = 0;
    m->limit_frame = cfg.size_frame; m->limit_frames = cfg.max_frames; m->why = "";
}
static void m_code(model_t *m, int c, const char *why) { m->codes[m->ncodes++] = c; m->why = why; }
static size_t m_store(model_t *m, const uint8_t *p, size_t n) { memcpy(m->buf + m->nbuf, p, n); m->nbuf += n; return m->nbuf - n; }

/* the violations that the header of a frame shows by itself */
static void m_header(model_t *m, int b0, int masked, uint64_t len) {
    int op = b0 & 15;
    if (b0 & 0x70) m_code(m, 1002, "reserved bits");
    if ((op >= 3 && op <= 7) || op >= 11) { m_code(m, 1002, "unknown type"); m_code(m, 1003, "unknown type"); }
    if (!masked) m_code(m, 1002, "unmasked");
    if (op >= 8 && !(b0 & 0x80)) m_code(m, 1002, "fragmented control frame");
    if (op >= 8 && len > 125) m_code(m, 1002, "long control frame");
    if (len >> 63) m_code(m, 1002, "length with the top bit");
    if (len > m->limit_frame) m_code(m, 1009, "frame too big");
    if (op == 0 && !m->inmsg) m_code(m, 1002, "continuation without a start");
    if ((op == 1 || op == 2) && m->inmsg) m_code(m, 1002, "new message in an unfinished one");
    if (op < 8 && (uint64_t)m->mframes + 1 > m->limit_frames) m_code(m, 1009, "too many frames");
}
static void model_run(model_t *m) {
    while (!m->closed && m->pos < m->nin) {
        const uint8_t *p = m->in + m->pos;
        size_t n = m->nin - m->pos, h = 2;
        m->maybe = 0;
        if (n < 2) {
            /* the first byte alone may already be in violation */
            m_header(m, p[0], 1, 0);
            if (m->ncodes) m->maybe = 1; 
            break;
        }
        int masked = p[1] >> 7;
        uint64_t len = p[1] & 127;
        if (len == 126) h += 2; else if (len == 127) h += 8;
        if (n < h) {
            m_header(m, p[0], masked, len == 126 ? 126 : len == 127 ? 65536 : len);
            if (m->ncodes) m->maybe = 1;
            break;
        }
        if (len == 126) len = p[2] << 8 | p[3];
        else if (len == 127) { len = 0; for (int i = 0; i < 8; i++) len = len << 8 | p[2 + i]; }
        const uint8_t *key = p + h;
        if (masked) h += 4;
        m_header(m, p[0], masked, len);
        if (n < h || n - h < len) { if (m->ncodes) m->maybe = 1; break; }
        int op = p[0] & 15, fin = p[0] >> 7;
        m->pos += h + len;
        if (m->ncodes) { m->closed = 1; 
            if (op == 8) { /* any fault of the close frame itself may be named */ m_code(m, 1007, m->why); }
            break; }
        uint8_t *d = m->m + m->mlen;
        if (op >= 8) d = m->m + sizeof m->m - 256;
        for (size_t i = 0; i < len; i++) d[i] = p[h + i] ^ (masked ? key[i & 3] : 0);
        if (op == 9) { m->pong[m->npong++] = (mmsg_t){ 10, len, m_store(m, d, len) }; continue; }
        if (op == 10) continue;
        if (op == 8) {
            m->closed = 1;
            int code = len >= 2 ? d[0] << 8 | d[1] : -1;
            bool bad = len == 1 || (len >= 2 && (code < 1000 || code == 1004 || code == 1005 || code == 1006 || (code >= 1015 && code < 3000) || code > 4999));
            bool badtext = len > 2 && !ref_utf8(d + 2, len - 2);
            if (bad) m_code(m, 1002, "malformed close");
            if (badtext) m_code(m, 1007, "close reason");
            if (!bad && !badtext) { if (code == -1) { m_code(m, -1, "close"); m_code(m, 1000, "close"); } else m_code(m, code, "close"); }
            break;
        }
        if (op) { m->mop = op; m->inmsg = 1; m->mframes = 0; if (m->mlen) { memmove(m->m, d, len); m->mlen = 0; } }
        m->mlen += len; m->mframes++;
        if (fin) {
            m->inmsg = 0; m->mframes = 0;
            if (m->mop == 1 && !ref_utf8(m->m, m->mlen)) { m->closed = 1; m_code(m, 1007, "text"); break; }
            m->del[m->ndel++] = (mmsg_t){ m->mop, m->mlen, m_store(m, m->m, m->mlen) };
            m->mlen = 0;
        }
    }
    if (!m->closed && !m->maybe) m->ncodes = 0;
}
static void model_add(model_t *m, const void *p, size_t n) { memcpy(m->in + m->nin, p, n); m->nin += n; if (!m->closed) m->ncodes = 0; model_run(m); }

#define WHERE "stream %s"
/* compares what the server did with connection c with the model.
 * echo: whether the application sends every message back */
static void model_check(model_t *m, int c, int fd, bool echo, const char *ctx) {
    const char *in = hexs(m->in, m->nin);
    int nm = 0, nclose = 0, nconn = 0;
    for (int i = 0; i < npev; i++) {
        pev_t *e = &pev[i];
        if (e->fd != fd) continue;
        if (e->type == EV_CONNECT) nconn++;
        if (e->type == EV_CLOSE) nclose++;
        if (e->type == EV_MESSAGE) {
            MC_CHECK(!nclose, "app:after-close", WHERE "%s: a message is delivered after the close", in, ctx);
            MC_CHECK(nm < m->ndel, "deliver:extra", WHERE "%s: the application receives a message too many (type %d, %s)", in, ctx, e->op, hexs(e->data, e->len));
            mmsg_t *d = &m->del[nm];
            MC_CHECK(d->op == e->op, "deliver:type", WHERE "%s: message %d is delivered with type %d instead of %d", in, ctx, nm, e->op, d->op);
            MC_CHECK(d->len == e->len && !memcmp(m->buf + d->off, e->data, e->len), "deliver:data", WHERE "%s: message %d is delivered as %zu bytes %s instead of %zu bytes %s", in, ctx, nm, e->len, hexs(e->data, e->len), d->len, hexs(m->buf + d->off, d->len));
            nm++;
        }
    }
    MC_CHECK(nm == m->ndel, "deliver:missing", WHERE "%s: %d of %d messages are delivered to the application", in, ctx, nm, m->ndel);
    MC_CHECK(nconn == 1, "app:connect", WHERE "%s: the application is told %d times of the connection", in, ctx, nconn);
    int ne = 0, np = 0, closed = 0;
    static uint8_t b[1 << 17];
    size_t n;
    for (;;) {
        int t = out_msg(c, b, sizeof b, &n);
        if (t == 0) break;
        MC_CHECK(t > 0, "out:malformed", WHERE "%s: the output is not a sequence of messages (%d): %s", in, ctx, t, ({ size_t k; const uint8_t *o = sim_out(c, &k); hexs(o + opos[c], k - opos[c]); }));
        MC_CHECK(!closed, "out:after-close", WHERE "%s: something is sent after the close frame (type %d)", in, ctx, t);
        if (t == 1 || t == 2) {
            MC_CHECK(echo && ne < m->ndel, "echo:extra", WHERE "%s: a message too many is sent (type %d, %s)", in, ctx, t, hexs(b, n));
            mmsg_t *d = &m->del[ne];
            MC_CHECK(d->op == t && d->len == n && !memcmp(m->buf + d->off, b, n), "echo:data", WHERE "%s: answer %d is type %d, %s instead of type %d, %s", in, ctx, ne, t, hexs(b, n), d->op, hexs(m->buf + d->off, d->len));
            ne++;
        } else if (t == 10) {
            MC_CHECK(np < m->npong, "pong:extra", WHERE "%s: a pong too many", in, ctx);
            mmsg_t *d = &m->pong[np];
            MC_CHECK(d->len == n && !memcmp(m->buf + d->off, b, n), "pong:data", WHERE "%s: pong %d carries %s instead of %s", in, ctx, np, hexs(b, n), hexs(m->buf + d->off, d->len));
            np++;
        } else if (t == 8) {
            closed = 1;
            int code = n >= 2 ? b[0] << 8 | b[1] : -1;
            bool ok = false;
            MC_CHECK(n != 1, "close:malformed", WHERE "%s: a close frame of one byte", in, ctx);
            MC_CHECK(m->closed || m->maybe, "close:unexpected", WHERE "%s: the server closes with code %d without a reason", in, ctx, code);
            for (int i = 0; i < m->ncodes; i++) ok |= m->codes[i] == code;
            MC_CHECK(ok, "close:code", WHERE "%s: closed with code %d instead of %d (%s)", in, ctx, code, m->codes[0], m->why);
            if (n > 2) MC_CHECK(ref_utf8(b + 2, n - 2), "close:reason", WHERE "%s: the reason of the close frame is not UTF-8", in, ctx);
        } else mc_fail("out:type", WHERE "%s: unexpected frame type %d", in, ctx, t);
    }
    if (echo) MC_CHECK(ne == m->ndel, "echo:missing", WHERE "%s: %d of %d answers are sent", in, ctx, ne, m->ndel);
    MC_CHECK(np == m->npong, "pong:missing", WHERE "%s: %d of %d pings are answered", in, ctx, np, m->npong);
    if (m->closed) {
        MC_CHECK(closed, "close:missing", WHERE "%s: no close frame is sent (%s)", in, ctx, m->why);
    }
    MC_CHECK(sim_server_closed(c) == (closed != 0), "close:socket", WHERE "%s: close frame %d, but socket closed %d", in, ctx, closed, sim_server_closed(c));
    MC_CHECK(nclose == (closed != 0), "app:close", WHERE "%s: close frame %d, but the application is told %d times of the close", in, ctx, closed, nclose);
    if (m->closed || closed) MC_CHECK(sim_conn_closes(c) <= 1, "close:twice", WHERE "%s: the socket is closed twice", in, ctx);
    uint64_t h = mc_hash(0, m->in, m->nin);
    int z[5] = { nm, np, closed, m->ncodes ? m->codes[0] : 0, m->closed };
    mc_outcome(mc_hash(h, z, sizeof z));
    if (mc_want_sample()) mc_sample("%s%s -> %d delivered, %d pongs, close %d", in, ctx, nm, np, closed ? m->codes[0] : 0);
}
#endif

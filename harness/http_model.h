/* An independent reader of HTTP answers and the meaning of the status codes. */
typedef unsigned set_t;
enum { B400 = 1, B403 = 2, B404 = 4, B405 = 8, B413 = 16, B414 = 32, B426 = 64, B431 = 128, B501 = 256, B505 = 512, B200 = 1024, ANY = 1 << 20, WAIT = 1 << 21 };
static const struct { int code; set_t bit; } codes[] = { { 400, B400 }, { 403, B403 }, { 404, B404 }, { 405, B405 }, { 413, B413 }, { 414, B414 }, { 426, B426 }, { 431, B431 }, { 501, B501 }, { 505, B505 }, { 200, B200 } };
typedef struct { const char *v; set_t bad; } val_t;
#define ANYPROTO ((const char *)1)

typedef struct { int code; const char *p; size_t hlen, blen, end, total; char accept[64], proto[64], ext[256], upgrade[32], conn[32]; bool has_len, has_accept, has_proto, has_ext; } answer_t;
static bool tokch(int c) { return c > 32 && c < 127 && !strchr("()<>@,;:\\\"/[]?={}", c); }
static void bad_answer(const answer_t *a, const char *what) { mc_fail("http:malformed", "the answer is not well-formed HTTP (%s): %.*s", what, a->total > 600 ? 600 : (int)a->total, a->p); }
static bool ieq(const char *a, size_t n, const char *b) { return n == strlen(b) && !strncasecmp(a, b, n); }
static void copyv(char *d, size_t cap, const char *v, size_t n, const answer_t *a) { if (n >= cap) bad_answer(a, "long value"); memcpy(d, v, n); d[n] = 0; }
/* reads the whole output of the connection as one answer; code 0: there is none (yet) */
static void read_answer(int c, answer_t *a) {
    memset(a, 0, sizeof *a);
    const char *o = (const char *)sim_out(c, &a->total);
    a->p = o;
    if (!a->total) return;
    size_t n = a->total, i;
    if (n < 13 || memcmp(o, "HTTP/1.1 ", 9)) bad_answer(a, "status line");
    for (i = 9; i < 12; i++) { if (o[i] < '0' || o[i] > '9') bad_answer(a, "status code"); a->code = a->code * 10 + o[i] - '0'; }
    if (o[12] != ' ') bad_answer(a, "status line");
    for (i = 13; i < n && o[i] != '\r'; i++) if ((unsigned char)o[i] < 32 || o[i] == 127) bad_answer(a, "reason phrase");
    if (i == 13) bad_answer(a, "reason phrase");
    if (i + 1 >= n || o[i + 1] != '\n') bad_answer(a, "end of the status line");
    i += 2;
    long len = -1;
    for (;;) {
        if (i + 1 >= n) bad_answer(a, "end of the headers");
        if (o[i] == '\r' && o[i + 1] == '\n') { i += 2; break; }
        size_t b = i;
        while (i < n && tokch((unsigned char)o[i])) i++;
        if (i == b || i >= n || o[i] != ':') bad_answer(a, "header name");
        size_t nl = i - b, v, e;
        for (i++; i < n && (o[i] == ' ' || o[i] == '\t'); i++);
        for (v = i; i < n && o[i] != '\r'; i++) if ((unsigned char)o[i] < 32 && o[i] != '\t') bad_answer(a, "header value");
        for (e = i; e > v && (o[e - 1] == ' ' || o[e - 1] == '\t'); e--);
        if (i + 1 >= n || o[i + 1] != '\n') bad_answer(a, "end of a header line");
        i += 2;
        const char *val = o + v; size_t vl = e - v;
        if (ieq(o + b, nl, "Content-Length")) {
            if (len >= 0 || !vl) bad_answer(a, "Content-Length");
            len = 0;
            for (size_t k = 0; k < vl; k++) { if (val[k] < '0' || val[k] > '9') bad_answer(a, "Content-Length"); len = len * 10 + val[k] - '0'; }
            a->has_len = true;
        } else if (ieq(o + b, nl, "Sec-WebSocket-Accept")) { if (a->has_accept) bad_answer(a, "two accept values"); a->has_accept = true; copyv(a->accept, sizeof a->accept, val, vl, a); }
        else if (ieq(o + b, nl, "Sec-WebSocket-Protocol")) { if (a->has_proto) bad_answer(a, "two subprotocols"); a->has_proto = true; copyv(a->proto, sizeof a->proto, val, vl, a); }
        else if (ieq(o + b, nl, "Sec-WebSocket-Extensions")) { if (a->has_ext) bad_answer(a, "two extension headers"); a->has_ext = true; copyv(a->ext, sizeof a->ext, val, vl, a); }
        else if (ieq(o + b, nl, "Upgrade")) copyv(a->upgrade, sizeof a->upgrade, val, vl, a);
        else if (ieq(o + b, nl, "Connection")) copyv(a->conn, sizeof a->conn, val, vl, a);
        else if (ieq(o + b, nl, "Transfer-Encoding")) bad_answer(a, "Transfer-Encoding");
    }
    a->hlen = i;
    a->blen = n - i;
    a->end = i;
    if (a->code == 101) { if (len > 0) bad_answer(a, "a body for 101"); return; }
    if (len < 0) bad_answer(a, "no Content-Length");
    if ((size_t)len != a->blen) mc_fail("http:length", "the answer announces a body of %ld bytes and has %zu: %.*s", len, a->blen, a->total > 900 ? 900 : (int)a->total, a->p);
    a->end = n;
}
/* SHA-1 and base64, for the accept value */
static uint32_t rol(uint32_t x, int n) { return x << n | x >> (32 - n); }
static void sha1_(const uint8_t *m, size_t n, uint8_t *out) {
    uint32_t h[5] = { 0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0 };
    uint8_t b[256] = { 0 };
    size_t t = (n + 9 + 63) / 64 * 64;
    memcpy(b, m, n); b[n] = 0x80;
    for (int i = 0; i < 8; i++) b[t - 1 - i] = (uint64_t)n * 8 >> 8 * i;
    for (size_t o = 0; o < t; o += 64) {
        uint32_t w[80], a = h[0], bb = h[1], c = h[2], d = h[3], e = h[4];
        for (int i = 0; i < 16; i++) w[i] = (uint32_t)b[o + 4 * i] << 24 | b[o + 4 * i + 1] << 16 | b[o + 4 * i + 2] << 8 | b[o + 4 * i + 3];
        for (int i = 16; i < 80; i++) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
        for (int i = 0; i < 80; i++) {
            uint32_t f, k;
            if (i < 20) { f = (bb & c) | (~bb & d); k = 0x5A827999; } else if (i < 40) { f = bb ^ c ^ d; k = 0x6ED9EBA1; }
            else if (i < 60) { f = (bb & c) | (bb & d) | (c & d); k = 0x8F1BBCDC; } else { f = bb ^ c ^ d; k = 0xCA62C1D6; }
            uint32_t x = rol(a, 5) + f + e + k + w[i];
            e = d; d = c; c = rol(bb, 30); bb = a; a = x;
        }
        h[0] += a; h[1] += bb; h[2] += c; h[3] += d; h[4] += e;
    }
    for (int i = 0; i < 20; i++) out[i] = h[i / 4] >> (24 - 8 * (i & 3));
}
static const char *B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static const char *accept_of(const char *key) {
    static char o[40];
    char s[200];
    uint8_t h[21] = { 0 };
    snprintf(s, sizeof s, "%s258EAFA5-E914-47DA-95CA-C5AB0DC85B11", key);
    sha1_((uint8_t *)s, strlen(s), h);
    int k = 0;
    for (int i = 0; i < 21; i += 3) {
        uint32_t v = h[i] << 16 | h[i + 1] << 8 | (i + 2 < 21 ? h[i + 2] : 0);
        for (int j = 0; j < 4; j++) o[k++] = B64[v >> (18 - 6 * j) & 63];
    }
    o[27] = '='; o[28] = 0;
    return o;
}
static bool key_ok(const char *k) {
    if (strlen(k) != 24 || k[22] != '=' || k[23] != '=') return false;
    for (int i = 0; i < 22; i++) if (!k[i] || !strchr(B64, k[i])) return false;
    return true;
}
static int code_bit(int code) { for (size_t i = 0; i < sizeof codes / sizeof *codes; i++) if (codes[i].code == code) return codes[i].bit; return 0; }
/* want: 0 the upgrade must succeed, else the codes allowed (ANY: any answer, WAIT: none is fine as well) */
static void check_answer(int c, const answer_t *a, set_t want, const char *proto, const char *key, const char *req, size_t n) {
    char show[900];
    snprintf(show, sizeof show, "%.*s", n > 700 ? 700 : (int)n, req);
    mc_outcome(mc_hash(a->code, a->p, a->total));
    if (mc_want_sample()) mc_sample("%d <- %s", a->code, show);
    if (!a->total) {
        MC_CHECK(want & WAIT, "http:none", "no answer (connection %s) to: %s", sim_server_closed(c) ? "closed" : "open", show);
        MC_CHECK(!sim_server_closed(c), "http:closed", "the connection is closed without an answer to: %s", show);
        return;
    }
    if (a->code == 101) {
        MC_CHECK(!want || want & ANY, "http:accepted", "the upgrade succeeds for: %s", show);
        MC_CHECK(ieq(a->upgrade, strlen(a->upgrade), "websocket") && ieq(a->conn, strlen(a->conn), "upgrade"), "http:101", "the answer 101 lacks its Upgrade or Connection header: %.*s", (int)a->total, a->p);
        MC_CHECK(a->has_accept && (!key || !strcmp(a->accept, accept_of(key))), "http:accept", "the accept value is %s for: %s", a->accept, show);
        MC_CHECK(a->blen == 0, "http:extra", "%zu bytes follow the answer 101", a->blen);
        if (proto != ANYPROTO) {
            MC_CHECK(a->has_proto == (proto != NULL) && (!proto || !strcmp(proto, a->proto)), "http:protocol", "the answer names the subprotocol '%s' instead of '%s' for: %s", a->proto, proto ? proto : "", show);
            MC_CHECK(!a->has_ext, "http:extension", "the answer names the extensions '%s' for: %s", a->ext, show);
        }
        MC_CHECK(!sim_server_closed(c), "http:closed101", "the connection is closed after the upgrade");
    } else {
        MC_CHECK(want != 0, "http:refused", "answered with %d instead of 101: %s", a->code, show);
        MC_CHECK(want & ANY ? a->code >= 200 && a->code < 600 : (set_t)code_bit(a->code) & want, "http:status", "answered with %d (expected: %s%s%s%s%s%s%s%s%s%s): %s", a->code, want & B400 ? "400 " : "", want & B403 ? "403 " : "", want & B404 ? "404 " : "", want & B405 ? "405 " : "", want & B413 ? "413 " : "", want & B414 ? "414 " : "", want & B426 ? "426 " : "", want & B431 ? "431 " : "", want & B501 ? "501 " : "", want & B505 ? "505 " : "", show);
        MC_CHECK(!a->has_accept, "http:accept", "the answer %d has an accept value", a->code);
    }
}

/* Stand-in for the few functions of OpenSSL that the server uses: SHA-1 and
 * base64 written from their definitions, and a TLS layer whose answers are
 * choices of the search. Compiled without instrumentation. */
#define _GNU_SOURCE
#include "eng.h"
#include <string.h>
#include <stdio.h>
#include <errno.h>
#include <openssl/ssl.h>
#include <openssl/bio.h>
#include <openssl/buffer.h>
#include <openssl/err.h>
#include <openssl/dh.h>
#include <openssl/pem.h>
#include "ssl_stub.h"

ssize_t sim_do_read(int fd, void *b, size_t n);
ssize_t sim_do_write(int fd, const void *b, size_t n);
void sim_tls_stall(int fd);
void sim_tls_later(int fd);
size_t sim_tls_offset(int fd);
bool sim_tls_noop(int fd, size_t off);
void sim_tls_point(void);
int sim_self(void);

/* ------------------------------------------------------------------ SHA-1 */
static uint32_t rol(uint32_t x, int n) { return x << n | x >> (32 - n); }
void oracle_sha1(const void *d, size_t n, uint8_t out[20]) {
    uint32_t h[5] = { 0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0 };
    size_t total = (n + 9 + 63) / 64 * 64;
    for (size_t o = 0; o < total; o += 64) {
        uint32_t w[80];
        for (int i = 0; i < 16; i++) {
            w[i] = 0;
            for (int j = 0; j < 4; j++) {
                size_t k = o + i * 4 + j;
                uint8_t b = k < n ? ((const uint8_t *)d)[k] : k == n ? 0x80 : k >= total - 8 ? (uint8_t)((uint64_t)n * 8 >> (8 * (total - 1 - k))) : 0;
                w[i] = w[i] << 8 | b;
            }
        }
        for (int i = 16; i < 80; i++) w[i] = rol(w[i-3] ^ w[i-8] ^ w[i-14] ^ w[i-16], 1);
        uint32_t a = h[0], b = h[1], c = h[2], dd = h[3], e = h[4];
        for (int i = 0; i < 80; i++) {
            uint32_t f, k;
            if (i < 20) { f = (b & c) | (~b & dd); k = 0x5A827999; }
            else if (i < 40) { f = b ^ c ^ dd; k = 0x6ED9EBA1; }
            else if (i < 60) { f = (b & c) | (b & dd) | (c & dd); k = 0x8F1BBCDC; }
            else { f = b ^ c ^ dd; k = 0xCA62C1D6; }
            uint32_t t = rol(a, 5) + f + e + k + w[i];
            e = dd; dd = c; c = rol(b, 30); b = a; a = t;
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += dd; h[4] += e;
    }
    for (int i = 0; i < 20; i++) out[i] = h[i / 4] >> (24 - 8 * (i % 4));
}
size_t oracle_b64(const uint8_t *d, size_t n, char *o) {
    static const char t[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    size_t k = 0;
    for (size_t i = 0; i < n; i += 3) {
        uint32_t v = d[i] << 16 | (i + 1 < n ? d[i + 1] << 8 : 0) | (i + 2 < n ? d[i + 2] : 0);
        o[k++] = t[v >> 18]; o[k++] = t[v >> 12 & 63];
        o[k++] = i + 1 < n ? t[v >> 6 & 63] : '='; o[k++] = i + 2 < n ? t[v & 63] : '=';
    }
    o[k] = 0;
    return k;
}
unsigned char *SHA1(const unsigned char *d, size_t n, unsigned char *md) {
    static unsigned char m[20];
    sim_heap_check(d, n, false, "SHA1");
    if (!md) md = m;
    sim_heap_check(md, 20, true, "SHA1");
    oracle_sha1(d, n, md);
    return md;
}

/* -------------------------------------------------------------------- BIO */
struct bio_st { int kind; BIO *next; uint8_t *in; size_t n; BUF_MEM bm; };
struct bio_method_st { int kind; };
static struct bio_method_st m64 = { 1 }, mmem = { 2 };
const BIO_METHOD *BIO_f_base64(void) { return &m64; }
const BIO_METHOD *BIO_s_mem(void) { return &mmem; }
BIO *BIO_new(const BIO_METHOD *m) { BIO *b = sim_alloc_lib(sizeof *b); b->kind = m->kind; return b; }
BIO *BIO_push(BIO *b, BIO *a) { b->next = a; return b; }
void BIO_set_flags(BIO *b, int f) { (void)b; (void)f; }
void __wrap_free(void *);
int BIO_write(BIO *b, const void *d, int n) {
    sim_heap_check(d, n, false, "BIO_write");
    uint8_t *q = sim_alloc_lib(b->n + n + 1);
    if (b->in) { memcpy(q, b->in, b->n); __wrap_free(b->in); }
    memcpy(q + b->n, d, n);
    b->in = q; b->n += n;
    return n;
}
long BIO_ctrl(BIO *b, int cmd, long l, void *p) {
    (void)l;
    if (cmd == BIO_CTRL_FLUSH && b->kind == 1 && b->next) {
        BIO *m = b->next;
        char *o = sim_alloc_lib(b->n * 2 + 8);
        m->bm.length = oracle_b64(b->in, b->n, o);
        if (m->bm.data) __wrap_free(m->bm.data);
        m->bm.data = o;
        m->bm.max = b->n * 2 + 8;
        return 1;
    }
    if (cmd == BIO_C_GET_BUF_MEM_PTR) { BIO *m = b->kind == 2 ? b : b->next; *(BUF_MEM **)p = &m->bm; return 1; }
    return 1;
}
void BIO_free_all(BIO *b) {
    while (b) {
        BIO *n = b->next;
        if (b->in) __wrap_free(b->in);
        if (b->bm.data) __wrap_free(b->bm.data);
        __wrap_free(b);
        b = n;
    }
}
int BIO_free(BIO *b) { if (b) b->next = NULL; BIO_free_all(b); return 1; }

/* -------------------------------------------------------------------- TLS */
struct ssl_ctx_st { int id; };
struct ssl_st { int fd; int user; int hs; int shut; int err; int freed; const void *wbuf; int wlen; int ops; uint8_t *rb; int rn, rcap; };
tls_cfg_t tls;
const SSL_METHOD *TLS_method(void) { return (const SSL_METHOD *)1; }
const SSL_METHOD *TLS_server_method(void) { return (const SSL_METHOD *)1; }
tls_ctx_t tls_ctx; int tls_ctx_failed, tls_ctxs, tls_ctx_frees, tls_dhs, tls_dh_frees;
static bool ctx_fails(const char *what) { bool f = tls.f_ctx && mc_fault(2, what); if (f) { sim_trace("%s fails", what); tls_ctx_failed++; } return f; }
static void cchk(const SSL_CTX *c, const char *what) { sim_heap_check(c, sizeof *c, true, what); }
static void keep(char *to, const char *from) { snprintf(to, 80, "%s", from ? from : ""); }
#undef SSL_CTX_new
SSL_CTX *SSL_CTX_new(const SSL_METHOD *m) {
    (void)m;
    if (ctx_fails("SSL_CTX_new")) return NULL;
    SSL_CTX *c = sim_alloc_lib(sizeof *c);
    memset(&tls_ctx, 0, sizeof tls_ctx);
    tls_ctx.made = tls_ctx.live = true; tls_ctx.verify = SSL_VERIFY_NONE;
    tls_ctx.options = SSL_OP_NO_COMPRESSION; /* as the library does */
    tls_ctxs++;
    return c;
}
void SSL_CTX_free(SSL_CTX *c) { if (c) { cchk(c, "SSL_CTX_free"); tls_ctx_frees++; tls_ctx.live = false; __wrap_free(c); } }
long SSL_CTX_ctrl(SSL_CTX *c, int cmd, long l, void *p) {
    cchk(c, "SSL_CTX_ctrl");
    if (cmd == SSL_CTRL_MODE) return tls_ctx.mode |= l;
    if (cmd == SSL_CTRL_CLEAR_MODE) return tls_ctx.mode &= ~l;
    if (cmd == SSL_CTRL_SET_TMP_DH) { if (!p || ctx_fails("SSL_CTX_set_tmp_dh")) return 0; sim_heap_check(p, 8, true, "SSL_CTX_set_tmp_dh"); tls_ctx.dh = 1; return 1; }
    return 1;
}
int SSL_CTX_use_certificate_file(SSL_CTX *c, const char *f, int t) { cchk(c, "SSL_CTX_use_certificate_file"); (void)t; if (!f || ctx_fails("SSL_CTX_use_certificate_file")) return 0; tls_ctx.has_cert = true; tls_ctx.checked = false; keep(tls_ctx.cert, f); return 1; }
int SSL_CTX_use_certificate_chain_file(SSL_CTX *c, const char *f) { return SSL_CTX_use_certificate_file(c, f, 0); }
int SSL_CTX_use_PrivateKey_file(SSL_CTX *c, const char *f, int t) {
    cchk(c, "SSL_CTX_use_PrivateKey_file"); (void)t;
    if (!f || ctx_fails("SSL_CTX_use_PrivateKey_file")) return 0;
    /* a key that does not match a certificate that is there is refused at once */
    if (tls.mismatch && tls_ctx.has_cert && mc_choose(2, "the mismatch is found at once")) return 0;
    tls_ctx.has_key = true; tls_ctx.checked = false; keep(tls_ctx.key, f);
    return 1;
}
void SSL_CTX_set_verify(SSL_CTX *c, int m, SSL_verify_cb cb) { cchk(c, "SSL_CTX_set_verify"); (void)cb; tls_ctx.verify = m; }
uint64_t SSL_CTX_set_options(SSL_CTX *c, uint64_t o) { cchk(c, "SSL_CTX_set_options"); return tls_ctx.options |= o; }
uint64_t SSL_CTX_clear_options(SSL_CTX *c, uint64_t o) { cchk(c, "SSL_CTX_clear_options"); return tls_ctx.options &= ~o; }
uint64_t SSL_CTX_get_options(const SSL_CTX *c) { cchk(c, "SSL_CTX_get_options"); return tls_ctx.options; }
int SSL_CTX_set_num_tickets(SSL_CTX *c, size_t n) { cchk(c, "SSL_CTX_set_num_tickets"); (void)n; return !ctx_fails("SSL_CTX_set_num_tickets"); }
int SSL_CTX_set_ciphersuites(SSL_CTX *c, const char *s) { cchk(c, "SSL_CTX_set_ciphersuites"); if (!s || ctx_fails("SSL_CTX_set_ciphersuites")) return 0; keep(tls_ctx.suites, s); return 1; }
int SSL_CTX_set_cipher_list(SSL_CTX *c, const char *s) { cchk(c, "SSL_CTX_set_cipher_list"); if (!s || ctx_fails("SSL_CTX_set_cipher_list")) return 0; keep(tls_ctx.ciphers, s); return 1; }
int SSL_CTX_load_verify_file(SSL_CTX *c, const char *a) { cchk(c, "SSL_CTX_load_verify_file"); if (!a || ctx_fails("SSL_CTX_load_verify_file")) return 0; tls_ctx.has_ca = true; keep(tls_ctx.ca_file, a); return 1; }
int SSL_CTX_load_verify_dir(SSL_CTX *c, const char *b) { cchk(c, "SSL_CTX_load_verify_dir"); if (!b || ctx_fails("SSL_CTX_load_verify_dir")) return 0; tls_ctx.has_ca = true; keep(tls_ctx.ca_path, b); return 1; }
int SSL_CTX_load_verify_locations(SSL_CTX *c, const char *a, const char *b) { cchk(c, "SSL_CTX_load_verify_locations"); if ((!a && !b) || ctx_fails("SSL_CTX_load_verify_locations")) return 0; tls_ctx.has_ca = true; if (a) keep(tls_ctx.ca_file, a); if (b) keep(tls_ctx.ca_path, b); return 1; }
int SSL_CTX_check_private_key(const SSL_CTX *c) { cchk(c, "SSL_CTX_check_private_key"); if (!tls_ctx.has_cert || !tls_ctx.has_key || tls.mismatch || ctx_fails("SSL_CTX_check_private_key")) return 0; tls_ctx.checked = true; return 1; }
#undef PEM_read_DHparams
DH *PEM_read_DHparams(FILE *f, DH **d, pem_password_cb *cb, void *u) { (void)f; (void)d; (void)cb; (void)u; if (ctx_fails("PEM_read_DHparams")) return NULL; tls_dhs++; return sim_alloc_lib(8); }
void DH_free(DH *d) { if (d) { tls_dh_frees++; __wrap_free(d); } }
int OPENSSL_init_ssl(uint64_t o, const OPENSSL_INIT_SETTINGS *s) { (void)o; (void)s; return 1; }
int OPENSSL_init_crypto(uint64_t o, const OPENSSL_INIT_SETTINGS *s) { (void)o; (void)s; return 1; }
unsigned long ERR_get_error(void) { return 0; }
void ERR_error_string_n(unsigned long e, char *b, size_t n) { (void)e; if (n) b[0] = 0; }
void ERR_clear_error(void) { }

SSL *SSL_new(SSL_CTX *c) { cchk(c, "SSL_new"); tls_ctx.objects++; SSL *s = sim_alloc_lib(sizeof *s); s->fd = -1; tls.news++; return s; }
static void chk(const SSL *s, const char *what) {
    sim_heap_check(s, sizeof *s, true, what);
    /* a TLS object must not be used by two threads at a time */
    MC_CHECK(!s->user || s->user == sim_self() + 1, "tls:concurrent", "%s is called while thread %d uses the same TLS object", what, s->user - 1);
}
int SSL_set_fd(SSL *s, int fd) { chk(s, "SSL_set_fd"); s->fd = fd; return 1; }
void SSL_set_accept_state(SSL *s) { chk(s, "SSL_set_accept_state"); }
int SSL_get_error(const SSL *s, int r) { chk(s, "SSL_get_error"); (void)r; return s->err; }
int SSL_pending(const SSL *s) { chk(s, "SSL_pending"); return s->rn; }
int SSL_has_pending(const SSL *s) { chk(s, "SSL_has_pending"); return s->rn > 0; }
void SSL_free(SSL *s) { if (!s) return; chk(s, "SSL_free"); tls.frees++; if (s->rb) __wrap_free(s->rb); __wrap_free(s); }

static void enter(SSL *s, const char *what) {
    chk(s, what);
    s->user = sim_self() + 1;
    sim_tls_point();
    chk(s, what);
}
/* What the TLS layer may answer. A want is only given where it can be met:
 * "want write" makes the descriptor full until nothing else can happen,
 * "want read" comes with bytes of the peer that arrive later. */
static int want(SSL *s, int err, const char *what) {
    s->err = err;
    sim_trace("%s(%d): error %d", what, s->fd, err);
    tls.wants++;
    if (err == SSL_ERROR_WANT_WRITE) sim_tls_stall(s->fd);
    if (err == SSL_ERROR_WANT_READ) sim_tls_later(s->fd);
    return -1;
}
static int want_choice(SSL *s, const char *what, bool rd, bool wr, bool er) {
    int opt[4], n = 0;
    opt[n++] = 0;
    if (rd) opt[n++] = SSL_ERROR_WANT_READ;
    if (wr) opt[n++] = SSL_ERROR_WANT_WRITE;
    if (er) opt[n++] = SSL_ERROR_SSL;
    int k = mc_fault(n, what);
    if (!k) return 0;
    want(s, opt[k], what);
    return opt[k];
}
static int handshake(SSL *s) {
    chk(s, "SSL_do_handshake");
    if (want_choice(s, "SSL_do_handshake", tls.f_read, tls.f_write, tls.f_err)) return -1;
    /* the client's hello is one byte 0x16 that the server reads here */
    uint8_t b;
    errno = 0;
    ssize_t n = sim_do_read(s->fd, &b, 1);
    if (n < 0) { if (errno == EAGAIN || errno == EINTR) { s->err = SSL_ERROR_WANT_READ; return -1; } s->err = SSL_ERROR_SYSCALL; return -1; }
    if (n == 0) { s->err = SSL_ERROR_SYSCALL; return 0; }
    if (b != 0x16) { s->err = SSL_ERROR_SSL; return -1; }
    s->hs = 1; s->err = SSL_ERROR_NONE;
    return 1;
}
/* takes what is there from the socket into the TLS layer; <= 0: nothing, the error is set */
static int pull(SSL *s) {
    uint8_t t[16384];
    size_t off = sim_tls_offset(s->fd);
    ssize_t r = sim_do_read(s->fd, t, sizeof t);
    if (r < 0) { s->err = errno == EAGAIN || errno == EINTR ? SSL_ERROR_WANT_READ : SSL_ERROR_SYSCALL; return -1; }
    if (r == 0) { s->err = SSL_ERROR_ZERO_RETURN; return 0; }
    if (s->rn + r > s->rcap) {
        uint8_t *q = sim_alloc_lib(s->rcap = s->rn + r);
        if (s->rb) { memcpy(q, s->rb, s->rn); __wrap_free(s->rb); }
        s->rb = q;
    }
    for (ssize_t i = 0; i < r; i++) if (!sim_tls_noop(s->fd, off + i)) s->rb[s->rn++] = t[i];
    return 1;
}
static int rd(SSL *s, void *b, int n) {
    chk(s, "SSL_read");
    sim_heap_check(b, n, true, "SSL_read");
    if (n <= 0) { s->err = SSL_ERROR_SSL; return -1; }
    if (want_choice(s, "SSL_read", false, tls.f_write, tls.f_err)) return -1;
    if (!s->rn) {
        do { int r = pull(s); if (r <= 0) return r; } while (!s->rn);
        /* the rest of the record has not arrived yet */
        if (tls.f_read && mc_fault(2, "SSL_read: half a record")) { want(s, SSL_ERROR_WANT_READ, "SSL_read"); return -1; }
    }
    int m = s->rn < n ? s->rn : n;
    if (tls.f_partial && m > 1) {
        int k = mc_fault(m > 2 ? 4 : 2, "SSL_read: part");
        if (k) m = k == 1 ? 1 : k == 2 ? m - 1 : m / 2;
    }
    memcpy(b, s->rb, m);
    memmove(s->rb, s->rb + m, s->rn - m);
    s->rn -= m;
    s->err = SSL_ERROR_NONE;
    return m;
}
static int wr(SSL *s, const void *b, int n) {
    chk(s, "SSL_write");
    sim_heap_check(b, n, false, "SSL_write");
    if (n <= 0) { s->err = SSL_ERROR_SSL; return -1; }
    if (s->wbuf && tls.check_retry) {
        /* after a want the same buffer must be given again */
        MC_CHECK(b == s->wbuf && n >= s->wlen, "tls:bad-write-retry", "SSL_write after SSL_ERROR_WANT_* is repeated with another buffer (%p, %d instead of %p, %d)", b, n, s->wbuf, s->wlen);
    }
    if (want_choice(s, "SSL_write", tls.f_read, tls.f_write, tls.f_err)) {
        if (s->err != SSL_ERROR_SSL) { s->wbuf = b; s->wlen = n; }
        return -1;
    }
    s->wbuf = NULL;
    int m = n;
    if (tls.f_partial && m > 1) {
        int k = mc_fault(m > 2 ? 4 : 2, "SSL_write: part");
        if (k) m = k == 1 ? 1 : k == 2 ? m - 1 : m / 2;
    }
    ssize_t r = sim_do_write(s->fd, b, m);
    if (r < 0) {
        if (errno == EAGAIN || errno == EINTR) { s->err = SSL_ERROR_WANT_WRITE; s->wbuf = b; s->wlen = n; return -1; }
        s->err = SSL_ERROR_SYSCALL;
        return -1;
    }
    s->err = SSL_ERROR_NONE;
    return (int)r;
}
static int shut(SSL *s) {
    chk(s, "SSL_shutdown");
    if (want_choice(s, "SSL_shutdown", tls.f_shut_read, tls.f_shut_write, tls.f_err)) return -1;
    tls.shutdowns++;
    s->err = SSL_ERROR_NONE;
    return s->shut++ ? 1 : 0;
}
int SSL_do_handshake(SSL *s) { enter(s, "SSL_do_handshake"); int r = handshake(s); s->user = 0; return r; }
int SSL_read(SSL *s, void *b, int n) { enter(s, "SSL_read"); int r = rd(s, b, n); s->user = 0; return r; }
int SSL_write(SSL *s, const void *b, int n) { enter(s, "SSL_write"); int r = wr(s, b, n); s->user = 0; return r; }
int SSL_shutdown(SSL *s) { enter(s, "SSL_shutdown"); int r = shut(s); s->user = 0; return r; }
int SSL_accept(SSL *s) { return SSL_do_handshake(s); }

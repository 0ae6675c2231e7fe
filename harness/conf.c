/* W24: the loading of configurations. Files are composed from a table of the
 * documented settings, written to a scratch file and loaded by the real code
 * (WSS_config_load, and main() up to the start of the server); every field of
 * the result is compared with what the composed file says. */
#include "sim.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <unistd.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <errno.h>
#include <pthread.h>
#include "config.h"
#include "alloc.h"

const char *harness_rule = "every choice of settings, values, order, lists, truncation and corruption of the stated grid is loaded once";

/* main() with the start of the server replaced */
static int captured(wss_config_t *);
static FILE *null_log(const char *, const char *);
#define main wss_main
#define WSS_server_start captured
#define fopen null_log
#include "main.c"
#undef main
#undef WSS_server_start
#undef fopen

pid_t __real_getpid(void);
static char path[64];

/* --------------------------------------------------------------- settings */
enum { S, U, I, L, B };   /* string, unsigned, int, long, boolean */
typedef struct { const char *sec, *key; int type; size_t off; } set_t;
#define O(f) offsetof(wss_config_t, f)
static const set_t sets[] = {
    { "port", "http", U, O(port_http) }, { "port", "https", U, O(port_https) },
    { NULL, "favicon", S, O(favicon) }, { NULL, "log_level", U, O(log) },
    { "timeouts", "poll", I, O(timeout_poll) }, { "timeouts", "read", I, O(timeout_read) }, { "timeouts", "write", I, O(timeout_write) },
    { "timeouts", "client", L, O(timeout_client) }, { "timeouts", "pings", U, O(timeout_pings) },
    { "ssl", "key", S, O(ssl_key) }, { "ssl", "cert", S, O(ssl_cert) }, { "ssl", "ca_file", S, O(ssl_ca_file) }, { "ssl", "ca_path", S, O(ssl_ca_path) },
    { "ssl", "dhparam", S, O(ssl_dhparam) }, { "ssl", "cipher_list", S, O(ssl_cipher_list) }, { "ssl", "cipher_suites", S, O(ssl_cipher_suites) },
    { "ssl", "compression", B, O(ssl_compression) }, { "ssl", "peer_cert", B, O(ssl_peer_cert) },
    { "size", "buffer", U, O(size_buffer) }, { "size", "thread", U, O(size_thread) }, { "size", "uri", U, O(size_uri) }, { "size", "header", U, O(size_header) },
    { "size", "ringbuffer", U, O(size_ringbuffer) }, { "size", "payload", U, O(size_payload) }, { "size", "frame", U, O(size_frame) }, { "size", "fragmented", U, O(max_frames) },
    { "pool", "workers", U, O(pool_workers) }, { "pool", "retries", U, O(pool_retries) },
};
#define NSET ((int)(sizeof sets / sizeof *sets))
static const char *secs[] = { "port", "timeouts", "ssl", "size", "pool" };
#define NSEC 5
enum { HOSTS, ORIGINS, PATHS, QUERIES, SUBS, EXTS, NLIST };
static const char *lists[] = { "hosts", "origins", "paths", "queries", "subprotocols", "extensions" };

typedef struct { const char *str; long long num; } val_t;
/* what is expected */
typedef struct {
    val_t v[NSET];
    int n[NLIST]; const char *e[NLIST][16]; const char *c[2][16];
} exp_t;

static void fresh(wss_config_t *c, exp_t *e, bool as_main) {
    memset(c, 0, sizeof *c);
    memset(e, 0, sizeof *e);
    /* the defaults of main.c */
    long long d[NSET];
    for (int i = 0; i < NSET; i++) d[i] = 0;
#define D(k, x) for (int i = 0; i < NSET; i++) if (!strcmp(sets[i].key, k)) d[i] = x
    D("http", 80); D("https", 443); D("header", 8192); D("payload", 16777215); D("uri", 8192); D("ringbuffer", 128); D("buffer", 32768);
    D("thread", 2097152); D("frame", 1048576); D("fragmented", 1048576); D("workers", 4); D("retries", 5); D("pings", 1);
    D("poll", -1); D("read", 1000); D("write", 1000); D("client", 60000);
    for (int i = 0; i < NSET; i++) {
        char *p = (char *)c + sets[i].off;
        e->v[i].num = d[i];
        switch (sets[i].type) {
            case S: e->v[i].str = as_main ? NULL : "default"; *(char **)p = (char *)e->v[i].str; break;
            case U: *(unsigned *)p = d[i]; break;
            case I: *(int *)p = d[i]; break;
            case L: *(long *)p = d[i]; break;
            case B: *(bool *)p = d[i]; break;
        }
    }
}

/* ------------------------------------------------------------- composing */
static char *T; static size_t Tn, Tcap;
static void put(const char *s) { size_t n = strlen(s); if (Tn + n + 1 > Tcap) { char *q = sim_xalloc(Tcap = (Tn + n + 1) * 2); memcpy(q, T ? T : "", Tn); sim_xfree(T); T = q; } memcpy(T + Tn, s, n + 1); Tn += n; }
static void putq(const char *s) { put("\""); put(s); put("\""); }
static void start(void) { T = NULL; Tn = Tcap = 0; put(""); }
static void put_val(const set_t *s, const val_t *v) {
    char b[40];
    switch (s->type) {
        case S: putq(v->str); break;
        case B: put(v->num ? "true" : "false"); break;
        default: sprintf(b, "%lld", v->num); put(b);
    }
}
static void write_file(const void *p, size_t n) {
    int fd = open(path, O_CREAT | O_TRUNC | O_WRONLY, 0600);
    ssize_t __real_write(int, const void *, size_t); int __real_close(int);
    if (fd < 0 || (n && __real_write(fd, p, n) != (ssize_t)n)) { fprintf(stderr, "ENGINE ERROR: cannot write %s\n", path); _exit(2); }
    __real_close(fd);
}

/* -------------------------------------------------------------- comparing */
static const char *shown(const char *s) { return s ? s : "(none)"; }
static bool same(const char *a, const char *b) { return a == b || (a && b && !strcmp(a, b)); }
static void check_list(const char *what, char **got, unsigned n, const char **want, unsigned m) {
    MC_CHECK(n == m, "list:length", "%s has %u entries instead of %u; file: %s", what, n, m, T);
    for (unsigned i = 0; i < n; i++) MC_CHECK(same(got[i], want[i]), "list:entry", "entry %u of %s is %s instead of %s; file: %s", i, what, shown(got[i]), shown(want[i]), T);
}
static void check_one(wss_config_t *c, int i, const val_t *want) {
    const set_t *s = &sets[i];
    char *p = (char *)c + s->off;
    long long num = 0;
    switch (s->type) {
        case S: MC_CHECK(same(*(char **)p, want->str), "value", "%s.%s is %s instead of %s; file: %s", s->sec ? s->sec : "setup", s->key, shown(*(char **)p), shown(want->str), T); return;
        case U: num = *(unsigned *)p; break;
        case I: num = *(int *)p; break;
        case L: num = *(long *)p; break;
        case B: num = *(bool *)p; break;
    }
    MC_CHECK(num == want->num, "value", "%s.%s is %lld instead of %lld; file: %s", s->sec ? s->sec : "setup", s->key, num, want->num, T);
}
static void check_hosts(wss_config_t *c, const exp_t *e) {
    /* the names, and each with each of the ports, in any order */
    char want[64][600];
    int m = 0;
    for (int i = 0; i < e->n[HOSTS]; i++) {
        strcpy(want[m++], e->e[HOSTS][i]);
        if (e->v[0].num) sprintf(want[m++], "%s:%lld", e->e[HOSTS][i], e->v[0].num);
        if (e->v[1].num) sprintf(want[m++], "%s:%lld", e->e[HOSTS][i], e->v[1].num);
    }
    MC_CHECK(c->hosts_length == m, "hosts:length", "%d hosts instead of %d; file: %s", (int)c->hosts_length, m, T);
    bool used[64] = {0};
    for (int i = 0; i < m; i++) {
        int k;
        for (k = 0; k < m; k++) if (!used[k] && c->hosts[i] && !strcmp(c->hosts[i], want[k])) break;
        MC_CHECK(k < m, "hosts:entry", "host %s is not expected (again); file: %s", shown(c->hosts[i]), T);
        used[k] = true;
    }
}
static void check_all(wss_config_t *c, const exp_t *e) {
    for (int i = 0; i < NSET; i++) check_one(c, i, &e->v[i]);
    check_hosts(c, e);
    check_list("origins", c->origins, c->origins_length, (const char **)e->e[ORIGINS], e->n[ORIGINS]);
    check_list("paths", c->paths, c->paths_length, (const char **)e->e[PATHS], e->n[PATHS]);
    check_list("queries", c->queries, c->queries_length, (const char **)e->e[QUERIES], e->n[QUERIES]);
    check_list("subprotocols", c->subprotocols, c->subprotocols_length, (const char **)e->e[SUBS], e->n[SUBS]);
    check_list("extensions", c->extensions, c->extensions_length, (const char **)e->e[EXTS], e->n[EXTS]);
    if (e->n[SUBS]) check_list("subprotocol configurations", c->subprotocols_config, c->subprotocols_length, (const char **)e->c[0], e->n[SUBS]);
    if (e->n[EXTS]) check_list("extension configurations", c->extensions_config, c->extensions_length, (const char **)e->c[1], e->n[EXTS]);
}
enum { OK_, REFUSED, ANY };
/* loads what was composed */
static bool load_bytes(wss_config_t *c, const exp_t *e, const void *p, size_t n, int want) {
    sim_mem_t m0 = sim_live();
    uint64_t seq = sim_alloc_seq();
    write_file(p, n);
    wss_error_t r = WSS_config_load(c, path);
    unlink(path);
    if (want == OK_) MC_CHECK(r == WSS_SUCCESS, "refused", "a valid configuration is refused (%d): %s", r, T);
    if (want == REFUSED) MC_CHECK(r != WSS_SUCCESS, "accepted", "an invalid configuration is accepted: %.*s", (int)n, (const char *)p);
    if (r == WSS_SUCCESS && e) check_all(c, e);
    WSS_config_free(c);
    if (r != WSS_SUCCESS) WSS_config_free(c);     /* as main() does */
    MC_CHECK(sim_live().blocks == m0.blocks, "leak", "%llu blocks are not released after loading (%d): %.*s\n%s", (unsigned long long)(sim_live().blocks - m0.blocks), r, (int)n, (const char *)p, sim_live_text(seq));
    mc_count(1);
    mc_outcome(mc_hash(r, p, n));
    return r == WSS_SUCCESS;
}
static void load(wss_config_t *c, const exp_t *e, int want) { load_bytes(c, e, T, Tn, want); if (mc_want_sample()) mc_sample("%s -> %s", T, want == OK_ ? "loaded" : want == REFUSED ? "refused" : "either"); }
static void setup(void) { snprintf(path, sizeof path, "/tmp/wss-conf-%d.json", (int)__real_getpid()); }

/* the value a setting gets in composed files: different for each */
static val_t value_of(int i) {
    static const char *strs[] = { "a", "b/c.pem", "d e", "f:g", "./h", "ECDHE-RSA", "k,l", "m", "n!o", "p" };
    val_t v = { NULL, 0 };
    if (sets[i].type == S) v.str = strs[i % 10];
    else if (sets[i].type == B) v.num = 1;
    else v.num = 1000 + 7 * i;
    return v;
}
static void apply(exp_t *e, int i) { e->v[i] = value_of(i); }

/* one section with all its settings; rot: order */
static void put_section(exp_t *e, int s, int rot, bool rev) {
    int ix[16], n = 0;
    for (int i = 0; i < NSET; i++) if (sets[i].sec && !strcmp(sets[i].sec, secs[s])) ix[n++] = i;
    putq(secs[s]); put(":{");
    for (int k = 0; k < n; k++) {
        int i = ix[(rev ? n - 1 - k + rot : k + rot) % n];
        if (k) put(",");
        val_t v = value_of(i);
        putq(sets[i].key); put(":"); put_val(&sets[i], &v);
        apply(e, i);
    }
    put("}");
}
static void put_strs(exp_t *e, int l, int n) {
    static const char *v[] = { "one.example", "two", "", "4.4.4.4" };
    putq(lists[l]); put(":[");
    e->n[l] = n;
    for (int i = 0; i < n; i++) { if (i) put(","); putq(v[i & 3]); e->e[l][i] = v[i & 3]; }
    put("]");
}
static void put_plugs(exp_t *e, int l, int n) {
    static const char *f[] = { "x/y.so", "z.so", "w.so", "v.so" }, *g[] = { "cfg=1;", NULL, "", "q" };
    putq(lists[l]); put(":[");
    e->n[l] = n;
    for (int i = 0; i < n; i++) {
        if (i) put(",");
        if (g[i & 3] && (i & 1)) { put("{\"config\":"); putq(g[i & 3]); put(",\"file\":"); putq(f[i & 3]); put("}"); }
        else { put("{\"file\":"); putq(f[i & 3]); if (g[i & 3]) { put(",\"config\":"); putq(g[i & 3]); } put("}"); }
        e->e[l][i] = f[i & 3]; e->c[l - SUBS][i] = g[i & 3];
    }
    put("]");
}

/* ---------------------------------------------------------------- subsets */
/* top level: hosts, origins, paths, queries, setup; inside: five sections, favicon, log_level, two lists */
static void put_setup(exp_t *e, unsigned in, int order) {
    put("\"setup\":{");
    bool first = true;
    for (int k = 0; k < 9; k++) {
        int x = order < 9 ? (k + order) % 9 : (8 - k + order) % 9;
        if (!(in >> x & 1)) continue;
        if (!first) put(",");
        first = false;
        if (x < NSEC) put_section(e, x, order, order & 1);
        else if (x == 5 || x == 6) { int i = x - 3; val_t v = value_of(i); putq(sets[i].key); put(":"); put_val(&sets[i], &v); apply(e, i); }
        else put_plugs(e, SUBS + x - 7, 2);
    }
    put("}");
}
static void s_subsets(long arg) {
    setup();
    mc_checkpoint();
    int top = mc_choose(32, "top level settings");
    int half = mc_choose(16, "setup");
    int nl = mc_choose(3, "list length");
    for (int k = 0; k < 32; k++) {
        unsigned in = half << 5 | k;
        if (!(top & 16) && in) break;
        wss_config_t c; exp_t e;
        fresh(&c, &e, false);
        start();
        put("{");
        int order = (in * 7 + top) % 18;
        bool first = true;
        for (int j = 0; j < 5; j++) {
            int x = (j + order) % 5;
            if (order & 1) x = 4 - x;
            if (!(top >> x & 1)) continue;
            if (!first) put(",");
            first = false;
            if (x < 4) put_strs(&e, x, nl); else put_setup(&e, in, order);
        }
        put("}");
        load(&c, &e, OK_);
    }
}
static void s_orders(long arg) {
    setup();
    mc_checkpoint();
    int perm = mc_choose(120, "order of the top level settings");
    int order = mc_choose(18, "order inside setup");
    int p = perm, av[5] = { 0, 1, 2, 3, 4 };
    wss_config_t c; exp_t e;
    fresh(&c, &e, false);
    start();
    put("{");
    for (int j = 5; j >= 1; j--) {
        int k = p % j; p /= j;
        int x = av[k]; av[k] = av[j - 1];
        if (j < 5) put(",");
        if (x < 4) put_strs(&e, x, 2); else put_setup(&e, 511, order);
    }
    put("}");
    load(&c, &e, OK_);
}

/* ------------------------------------------------------ values, one setting */
static const long long nums[] = { 1, 0, 2, 9, 10, 255, 256, 32767, 32768, 65535, 65536, 16777215, 2147483647, -1 };
static const struct { const char *js, *dec; } strs_[] = {
    { "x", "x" }, { "", "" }, { "a b", "a b" }, { "\\\"", "\"" }, { "\\\\", "\\" }, { "\\/", "/" }, { "\\b\\f\\n\\r\\t", "\b\f\n\r\t" },
    { "\\u0041", "A" }, { "\\u00e9", "\xc3\xa9" }, { "\\u00E9x", "\xc3\xa9x" }, { "\\u20ac", "\xe2\x82\xac" }, { "\\ud83d\\ude00!", "\xf0\x9f\x98\x80!" }, { "\xc3\xa9\xe2\x82\xac", "\xc3\xa9\xe2\x82\xac" },
    { "tail\\\\", "tail\\" }, { "{}[],:", "{}[],:" }, { "// no comment /* */", "// no comment /* */" }, { "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789", "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789" } };
#define NSTR ((int)(sizeof strs_ / sizeof *strs_))
static const char *wrong[] = { "null", "true", "false", "\"text\"", "12", "1.5", "[]", "[1]", "{}", "{\"zzz\":5}", "-3.25e2" };
static int type_of(const char *w) { return *w == '"' ? S : *w == 't' || *w == 'f' ? B : *w == '1' && w[1] == '2' ? U : -1; }

static void put_single(int i, const char *raw) {
    const set_t *s = &sets[i];
    put("{\"setup\":{");
    if (s->sec) { putq(s->sec); put(":{"); }
    putq(s->key); put(":"); put(raw);
    if (s->sec) put("}");
    put("}}");
}
static void s_values(long arg) {
    setup();
    mc_checkpoint();
    int i = mc_choose(NSET, "setting");
    const set_t *s = &sets[i];
    wss_config_t c; exp_t e;
    char b[300];
    if (s->type == S) for (int k = 0; k < NSTR; k++) {
        fresh(&c, &e, false); start();
        snprintf(b, sizeof b, "\"%s\"", strs_[k].js);
        put_single(i, b);
        e.v[i].str = strs_[k].dec;
        load(&c, &e, OK_);
    }
    else if (s->type == B) for (int k = 0; k < 2; k++) {
        fresh(&c, &e, false); start();
        put_single(i, k ? "true" : "false");
        e.v[i].num = k;
        load(&c, &e, OK_);
    }
    else for (int k = 0; k < (int)(sizeof nums / sizeof *nums); k++) {
        if (nums[k] < 0 && (s->type == U)) continue;
        fresh(&c, &e, false); start();
        snprintf(b, sizeof b, "%lld", nums[k]);
        put_single(i, b);
        e.v[i].num = nums[k];
        load(&c, &e, OK_);
    }
    /* a value of the wrong type is ignored, or the file is refused */
    for (int k = 0; k < (int)(sizeof wrong / sizeof *wrong); k++) {
        int t = type_of(wrong[k]);
        if (t == s->type || (t == U && (s->type == I || s->type == L))) continue;
        fresh(&c, &e, false); start();
        put_single(i, wrong[k]);
        load(&c, &e, ANY);
    }
}
/* sections, lists and the whole of setup of the wrong type, next to good ones */
static void s_wrong(long arg) {
    setup();
    mc_checkpoint();
    int w = mc_choose((int)(sizeof wrong / sizeof *wrong), "value");
    int pos = mc_choose(3, "position");
    for (int what = 0; what < NSEC + NLIST + 1; what++) {
        wss_config_t c; exp_t e;
        const char *name = what < NSEC ? secs[what] : what < NSEC + NLIST ? lists[what - NSEC] : "setup";
        bool top = what >= NSEC && what < NSEC + 4;
        bool islist = what >= NSEC && what < NSEC + NLIST;
        if (islist && *wrong[w] == '[') continue;
        if (!islist && *wrong[w] == '{') continue;
        fresh(&c, &e, false); start();
        put("{");
        if (what == NSEC + NLIST) {
            putq(name); put(":"); put(wrong[w]); put(","); put_strs(&e, ORIGINS, 2);
            put("}");
            load(&c, &e, ANY);
            continue;
        }
        if (top && pos == 0) { putq(name); put(":"); put(wrong[w]); put(","); }
        for (int l = 0; l < 4; l++) if (what != NSEC + l) { put_strs(&e, l, 1); put(","); }
        if (top && pos == 1) { putq(name); put(":"); put(wrong[w]); put(","); }
        put("\"setup\":{");
        if (!top && pos == 0) { putq(name); put(":"); put(wrong[w]); put(","); }
        for (int s = 0; s < NSEC; s++) if (s != what) { put_section(&e, s, 0, false); put(","); }
        if (!top && pos == 1) { putq(name); put(":"); put(wrong[w]); put(","); }
        for (int i = 2; i < 4; i++) { val_t v = value_of(i); putq(sets[i].key); put(":"); put_val(&sets[i], &v); apply(&e, i); if (i < 3) put(","); }
        if (!top && pos == 2) { put(","); putq(name); put(":"); put(wrong[w]); }
        put("}");
        if (top && pos == 2) { put(","); putq(name); put(":"); put(wrong[w]); }
        put("}");
        load(&c, &e, ANY);
    }
}

/* -------------------------------------------------- pairs, similar names */
static void s_pairs(long arg) {
    setup();
    mc_checkpoint();
    int a = mc_choose(NSET, "first");
    for (int b = 0; b < NSET; b++) {
        if (a == b) continue;
        wss_config_t c; exp_t e;
        const set_t *x = &sets[a], *y = &sets[b];
        val_t va = value_of(a), vb = value_of(b);
        fresh(&c, &e, false); start();
        apply(&e, a); apply(&e, b);
        put("{\"setup\":{");
        if (x->sec) { putq(x->sec); put(":{"); }
        putq(x->key); put(":"); put_val(x, &va);
        if (x->sec && y->sec && !strcmp(x->sec, y->sec)) put(",");
        else { put(x->sec ? "}," : ","); if (y->sec) { putq(y->sec); put(":{"); } }
        putq(y->key); put(":"); put_val(y, &vb);
        put(y->sec ? "}}}" : "}}");
        load(&c, &e, OK_);
    }
}
static void variant(char *o, const char *k, int v) {
    switch (v) {
        case 0: sprintf(o, "%sx", k); break;
        case 1: strcpy(o, k); o[strlen(o) - 1] = 0; break;
        case 2: sprintf(o, "x%s", k); break;
        case 3: strcpy(o, k); o[0] -= 32; break;
        case 4: sprintf(o, "%s ", k); break;
        case 5: sprintf(o, "%s_%s", k, k); break;
        case 6: strcpy(o, k + 1); break;
        case 7: strcpy(o, ""); break;
    }
}
/* settings that no documentation mentions set nothing */
static void s_similar(long arg) {
    setup();
    mc_checkpoint();
    int i = mc_choose(NSET + NLIST + NSEC + 1, "setting");
    int v = mc_choose(8, "name");
    int pos = mc_choose(3, "position: alone, in front, behind");
    wss_config_t c; exp_t e;
    char nm[64];
    fresh(&c, &e, false); start();
    if (i < NSET) {
        const set_t *s = &sets[i];
        val_t good = value_of(i), bad = good;
        variant(nm, s->key, v);
        for (int k = 0; k < NSET; k++) if (!strcmp(sets[k].key, nm) && same(sets[k].sec, s->sec)) return;
        if (s->type == S) bad.str = "bad"; else if (s->type == B) { bad.num = 0; } else bad.num = 424242;
        put("{\"setup\":{");
        if (s->sec) { putq(s->sec); put(":{"); }
        if (pos != 2) { putq(nm); put(":"); put_val(s, &bad); if (pos) put(","); }
        if (pos) { putq(s->key); put(":"); put_val(s, &good); apply(&e, i); }
        if (pos == 2) { put(","); putq(nm); put(":"); put_val(s, &bad); }
        put(s->sec ? "}}}" : "}}");
    } else if (i < NSET + NLIST) {
        int l = i - NSET;
        variant(nm, lists[l], v);
        const char *bad = l < SUBS ? "[\"bad\"]" : "[{\"file\":\"bad\"}]";
        put(l < SUBS ? "{" : "{\"setup\":{");
        if (pos != 2) { putq(nm); put(":"); put(bad); if (pos) put(","); }
        if (pos) { if (l < SUBS) put_strs(&e, l, 2); else put_plugs(&e, l, 2); }
        if (pos == 2) { put(","); putq(nm); put(":"); put(bad); }
        put(l < SUBS ? "}" : "}}");
    } else {
        int s = i - NSET - NLIST;
        if (s < NSEC) variant(nm, secs[s], v); else variant(nm, "setup", v);
        put(s < NSEC ? "{\"setup\":{" : "{");
        if (pos) { if (s < NSEC) put_section(&e, s, 0, false); else put_setup(&e, 3, 0); put(","); }
        putq(nm); put(":{\"zzz\":99}");
        put(s < NSEC ? "}}" : "}");
    }
    load(&c, &e, OK_);
}

/* ---------------------------------------------------------------- lists */
static void s_hosts(long arg) {
    setup();
    mc_checkpoint();
    static const char *names[] = { "a", "", "example.org", "127.0.0.1", "a-host-name-that-is-rather-long-so-that-buffers-would-not-be-large-enough.example.org", "b" };
    static const unsigned ports[] = { 0, 1, 9, 10, 80, 99, 100, 999, 1000, 8080, 9999, 10000, 65535 };
    int n = mc_choose(7, "hosts");
    int ph = mc_choose(13, "http port");
    int first = mc_choose(6, "first host");
    bool after = mc_choose(2, "order");
    for (int ps = 0; ps < 13; ps++) {
        if (!ports[ph] && !ports[ps]) continue;
        wss_config_t c; exp_t e;
        char b[100];
        fresh(&c, &e, false); start();
        sprintf(b, "\"setup\":{\"port\":{\"http\":%u,\"https\":%u}}", ports[ph], ports[ps]);
        put("{");
        if (!after) { put(b); put(","); }
        put("\"hosts\":[");
        for (int i = 0; i < n; i++) { if (i) put(","); putq(names[(first + i) % 6]); e.e[HOSTS][i] = names[(first + i) % 6]; }
        put("]");
        e.n[HOSTS] = n;
        if (after) { put(","); put(b); }
        put("}");
        e.v[0].num = ports[ph]; e.v[1].num = ports[ps];
        load(&c, &e, OK_);
    }
}
static void s_lists(long arg) {
    setup();
    mc_checkpoint();
    int l = mc_choose(NLIST, "list");
    int n = mc_choose(6, "length");
    for (int bad = -1; bad < n; bad++) for (int w = 0; w < (int)(sizeof wrong / sizeof *wrong); w++) {
        if (l < SUBS ? *wrong[w] == '"' : *wrong[w] == '{') continue;
        wss_config_t c; exp_t e;
        fresh(&c, &e, false); start();
        put(l < SUBS ? "{" : "{\"setup\":{");
        if (bad < 0) { if (l < SUBS) put_strs(&e, l, n); else put_plugs(&e, l, n); }
        else {
            putq(lists[l]); put(":[");
            for (int i = 0; i < n; i++) { if (i) put(","); if (i == bad) put(wrong[w]); else put(l < SUBS ? "\"s\"" : "{\"file\":\"s.so\"}"); }
            put("]");
        }
        put(l < SUBS ? "}" : "}}");
        load(&c, bad < 0 ? &e : NULL, bad < 0 ? OK_ : REFUSED);
        if (bad < 0) break;
    }
    if (l >= SUBS && n) for (int bad = 0; bad < n; bad++) for (int w = 0; w < (int)(sizeof wrong / sizeof *wrong); w++) for (int k = 0; k < 2; k++) {
        /* file and config of the wrong type */
        if (*wrong[w] == '"') continue;
        wss_config_t c; exp_t e;
        fresh(&c, &e, false); start();
        put("{\"setup\":{"); putq(lists[l]); put(":[");
        e.n[l] = n;
        for (int i = 0; i < n; i++) {
            if (i) put(",");
            put(i == bad && k == 0 ? "{\"file\":" : "{\"file\":\"s.so\""); if (i == bad && k == 0) put(wrong[w]);
            put(",\"config\":"); put(i == bad && k == 1 ? wrong[w] : "\"c\""); put("}");
            e.e[l][i] = "s.so"; e.c[l - SUBS][i] = i == bad && k ? NULL : "c";
        }
        put("]}}");
        load(&c, k ? &e : NULL, k ? ANY : REFUSED);
    }
}
/* a setting or list that is there several times: one of the values, released once */
static void s_repeated(long arg) {
    setup();
    mc_checkpoint();
    int i = mc_choose(NSET + NLIST + 1, "setting");
    int n = 2 + mc_choose(2, "times");
    int l1 = mc_choose(3, "length of the first"), l2 = mc_choose(3, "length of the last");
    wss_config_t c; exp_t e, e1, e2;
    fresh(&c, &e, false); start();
    e1 = e2 = e;
    if (i >= NSET && i < NSET + NLIST) {
        int l = i - NSET;
        put(l < SUBS ? "{" : "{\"setup\":{");
        for (int k = 0; k < n; k++) { if (k) put(","); int len = k == 0 ? l1 : l2; if (l < SUBS) put_strs(&e, l, len); else put_plugs(&e, l, len); }
        put(l < SUBS ? "}" : "}}");
    } else if (i < NSET) {
        put("{\"setup\":{");
        const set_t *s = &sets[i];
        if (s->sec) { putq(s->sec); put(":{"); }
        val_t v = value_of(i);
        for (int k = 0; k < n; k++) { if (k) put(","); putq(s->key); put(":"); put_val(s, &v); }
        apply(&e, i);
        put(s->sec ? "}}}" : "}}");
    } else {
        put("{");
        for (int k = 0; k < n; k++) { if (k) put(","); put_setup(&e, 511, k); }
        put(","); put_strs(&e, HOSTS, l1); put(",");  put_strs(&e, HOSTS, l2);
        put("}");
    }
    bool differ = i >= NSET && l1 != l2;
    load(&c, differ ? NULL : &e, differ ? ANY : OK_);
}

/* ------------------------------------------------------- malformed files */
static void sample(exp_t *e, int k) {
    start();
    if (k == 0) { put("{"); put_strs(e, HOSTS, 2); put(","); put_strs(e, PATHS, 1); put(","); put_setup(e, 511, 0); put("}"); }
    else if (k == 1) { put("{\"origins\":[\"a\\u00e9\\n\"],\"setup\":{\"log_level\":-5,\"ssl\":{\"compression\":true,\"peer_cert\":false,\"key\":null},\"timeouts\":{\"poll\":-1}}}"); }
    else put("{ \"a\" : [ 1 , -2.5e+3 , { \"b\" : [ ] , \"c\" : { } } , true , false , null , \"\\ud83d\\ude00\" ] , \"setup\" : { \"port\" : { \"http\" : 1 } } }");
}
static void s_truncated(long arg) {
    setup();
    mc_checkpoint();
    int k = mc_choose(3, "file");
    wss_config_t c; exp_t e;
    fresh(&c, &e, false);
    sample(&e, k);
    size_t step = 16, n = Tn;
    size_t at = step * mc_choose((int)((n + step - 1) / step), "cut");
    for (size_t i = at; i < at + step && i < n; i++) {
        fresh(&c, &e, false);
        load_bytes(&c, NULL, T, i, REFUSED);
    }
}
static void s_corrupted(long arg) {
    setup();
    mc_checkpoint();
    static const uint8_t by[] = "{}[]\",:\\/*0-9.eE+tfnu x\n\0\x80\xff\xc3";
    int k = mc_choose(3, "file");
    int op = mc_choose(3, "operation: replace, insert, delete");
    wss_config_t c; exp_t e;
    fresh(&c, &e, false);
    sample(&e, k);
    size_t step = 4, n = Tn;
    size_t at = step * mc_choose((int)((n + step - 1) / step), "position");
    char *buf = sim_xalloc(n + 2);
    for (size_t i = at; i < at + step && i < n; i++) for (int b = 0; b < (op == 2 ? 1 : (int)sizeof by - 1); b++) {
        size_t m = n;
        memcpy(buf, T, i);
        if (op == 0) { buf[i] = by[b]; memcpy(buf + i + 1, T + i + 1, n - i - 1); }
        else if (op == 1) { buf[i] = by[b]; memcpy(buf + i + 1, T + i, n - i); m = n + 1; }
        else { memcpy(buf + i, T + i + 1, n - i - 1); m = n - 1; }
        fresh(&c, &e, false);
        load_bytes(&c, NULL, buf, m, ANY);
    }
}
static void s_space(long arg) {
    setup();
    mc_checkpoint();
    static const char *sp[] = { " ", "\t", "\n", "\r\n", "  \n\t ", "\r" };
    int k = mc_choose(6, "space");
    wss_config_t c; exp_t e;
    fresh(&c, &e, false);
    sample(&e, 0);
    /* tokens: outside of strings, around punctuation */
    size_t n = Tn;
    char *t0 = T;
    for (size_t i = 0; i <= n; i++) {
        bool in = false;
        for (size_t j = 0; j < i; j++) if (t0[j] == '"') in = !in;
        if (in || (i > 0 && i < n && !strchr("{}[]\",:", t0[i - 1]) && !strchr("{}[]\",:", t0[i]))) continue;
        start();
        char *pre = sim_xalloc(i + 1); memcpy(pre, t0, i); pre[i] = 0;
        put(pre); put(sp[k]); put(t0 + i);
        fresh(&c, &e, false);
        exp_t e2; wss_config_t c2;
        fresh(&c2, &e2, false);
        char *keep = T; size_t kn = Tn;
        sample(&e2, 0);
        T = keep; Tn = kn;
        load(&c, &e2, OK_);
    }
}
static void s_odd(long arg) {
    setup();
    mc_checkpoint();
    static const char *odd[] = { "", " ", "\n", "[]", "[{}]", "\"x\"", "12", "null", "true", "{", "}", "{}}", "{\"setup\":{}}}", "{\"setup\":{}", "{\"setup\"}", "{\"setup\":}", "{:1}", "{\"a\" 1}", "{\"a\":1 \"b\":2}", "\"", "{\"a\":\"\\u12\"}", "{'a':1}", "{a:1}", "{\"a\":tru}", "{\"a\":nul}", "{\"a\":[1,2}", "{\"a\":[1 2]}",
        "{\"setup\":{\"port\":{\"http\":0,\"https\":0}}}", "{\"setup\":{\"port\":{\"http\":0,\"https\":0}},\"hosts\":[\"a\"]}", "{\"hosts\":[\"a\"],\"setup\":{\"port\":{\"https\":0,\"http\":0},\"extensions\":[{\"file\":\"a\"}]}}" };
    int k = mc_choose((int)(sizeof odd / sizeof *odd) + 5, "file");
    wss_config_t c; exp_t e;
    fresh(&c, &e, false);
    start();
    if (k < (int)(sizeof odd / sizeof *odd)) { put(odd[k]); load(&c, NULL, REFUSED); return; }
    k -= (int)(sizeof odd / sizeof *odd);
    static char *ps[] = { "/tmp", "/nonexistent/wss.json", "/dev/null", "", "/proc/self/maps/x" };
    sim_mem_t m0 = sim_live();
    wss_error_t r = WSS_config_load(&c, ps[k]);
    MC_CHECK(r != WSS_SUCCESS, "accepted", "%s is accepted as a configuration", ps[k]);
    WSS_config_free(&c);
    MC_CHECK(sim_live().blocks == m0.blocks, "leak", "memory is not released after %s could not be loaded", ps[k]);
}
/* reading the file fails or ends early */
static void s_short(long arg) {
    setup();
    mc_checkpoint();
    wss_config_t c; exp_t e;
    fresh(&c, &e, false);
    sample(&e, 1);
    size_t n = Tn;
    size_t at = 8 * mc_choose((int)(n / 8), "bytes that can be read");
    for (size_t i = at; i < at + 8; i++) {
        fresh(&c, &e, false);
        sim_fread_cut = i;
        load_bytes(&c, NULL, T, n, REFUSED);
        sim_fread_cut = -1;
    }
}
static void s_repo(long arg) {
    setup();
    mc_checkpoint();
    static char *f[] = { "/repo/conf/wss.json", "/repo/conf/autobahn.json", "/repo/conf/autobahn.debug.json", "/repo/resources/test_wss.json" };
    int k = mc_choose(4, "file");
    wss_config_t c; exp_t e;
    fresh(&c, &e, false);
    sim_mem_t m0 = sim_live();
    wss_error_t r = WSS_config_load(&c, f[k]);
    MC_CHECK(r == WSS_SUCCESS, "refused", "%s is refused (%d)", f[k], r);
    WSS_config_free(&c);
    MC_CHECK(sim_live().blocks == m0.blocks, "leak", "memory is not released after %s was loaded", f[k]);
}

/* ------------------------------------------------------------------ main */
static exp_t *main_exp; static int main_started; static bool main_defsubs;
static FILE *null_log(const char *p, const char *m) { (void)p; (void)m; return fopen("/dev/null", "a+"); }
static int captured(wss_config_t *c) {
    main_started++;
    if (main_exp) {
        exp_t e = *main_exp;
        if (main_defsubs) { e.n[SUBS] = 2; e.e[SUBS][0] = "subprotocols/echo/echo.so"; e.e[SUBS][1] = "subprotocols/broadcast/broadcast.so"; e.c[0][0] = e.c[0][1] = NULL; }
        if (e.v[3].num == 0) e.v[3].num = c->log;   /* the default depends on the build */
        check_all(c, &e);
    }
    return 0;
}
static void s_main(long arg) {
    setup();
    mc_checkpoint();
    int how = mc_choose(6, "command line");
    unsigned in = 0;
    bool lists_ = false;
    wss_config_t c; exp_t e;
    fresh(&c, &e, true);
    start();
    if (how < 3) { in = mc_choose(512, "settings"); lists_ = mc_choose(2, "lists"); }
    put("{");
    if (lists_) { put_strs(&e, HOSTS, 2); put(","); put_strs(&e, QUERIES, 1); put(","); }
    if (how == 5) put("\"setup\":7"); else put_setup(&e, in, in % 18);
    put("}");
    if (how == 5) Tn--, T[Tn] = 0;
    write_file(T, Tn);
    sim_mem_t m0 = sim_live();
    uint64_t seq = sim_alloc_seq();
    char *av[][4] = { { "WSServer", "-c", path, NULL }, { "WSServer", "--config", path, NULL }, { "WSServer", NULL, NULL, NULL }, { "WSServer", NULL }, { "WSServer", "--nonsense", NULL }, { "WSServer", "-c", path, NULL } };
    static char joined[80];
    snprintf(joined, sizeof joined, "--config=%s", path);
    av[2][1] = joined;
    int ac[] = { 3, 3, 2, 1, 2, 3 };
    if (how == 3) fresh(&c, &e, true);
    main_exp = &e; main_started = 0;
    main_defsubs = e.n[SUBS] == 0;
    optind = 0; opterr = 0;
    int r = wss_main(ac[how], av[how]);
    main_exp = NULL;
    unlink(path);
    bool ok = how < 4;
    MC_CHECK(main_started == ok, "main", "with the command line %d the server is %sstarted: %s", how, main_started ? "" : "not ", T);
    MC_CHECK(ok ? r == 0 : r != 0, "main:status", "with the command line %d the program returns %d", how, r);
    MC_CHECK(sim_live().blocks == m0.blocks, "leak", "%llu blocks are not released when the program ends: %s\n%s", (unsigned long long)(sim_live().blocks - m0.blocks), T, sim_live_text(seq));
    mc_count(1);
}

void harness_init(void) {
    sim_scenario("subsets of settings", s_subsets, 0);
    sim_scenario("orders", s_orders, 0);
    sim_scenario("values of one setting", s_values, 0);
    sim_scenario("wrong types of sections and lists", s_wrong, 0);
    sim_scenario("pairs of settings", s_pairs, 0);
    sim_scenario("similar names", s_similar, 0);
    sim_scenario("hosts and ports", s_hosts, 0);
    sim_scenario("lists", s_lists, 0);
    sim_scenario("repeated settings", s_repeated, 0);
    sim_scenario("truncated files", s_truncated, 0);
    sim_scenario("corrupted files", s_corrupted, 0);
    sim_scenario("white space", s_space, 0);
    sim_scenario("odd files", s_odd, 0);
    sim_scenario("short reads", s_short, 0);
    sim_scenario("files of the repository", s_repo, 0);
    sim_scenario("command line", s_main, 0);
}

/* W08 W09 W10 W11 W12 W14: the request and its answer, on the whole server. */
#include "srv.h"
const char *harness_rule = "every request of the listed grammars (values of every part, single-byte changes, cuts into segments, configurations) is sent to the running server in the simulated world; an independent validator says which status codes are right, a strict HTTP parser reads the answer";
#include "http_model.h"

static char R[70000];
static int RN;
static void rq(const char *f, ...) {
    va_list ap; va_start(ap, f);
    RN += vsnprintf(R + RN, sizeof R - RN, f, ap);
    va_end(ap);
}
/* sends what was built and judges the answer */
static void judge(set_t want, const char *proto, const char *acc) {
    int c = sim_connect(PORT);
    sim_send(c, R, RN);
    sim_quiesce();
    answer_t a;
    read_answer(c, &a);
    check_answer(c, &a, want, proto, acc, R, RN);
}
static void boot(void) { srv_start(); mc_checkpoint(); }

#define N(a) ((int)(sizeof a / sizeof *a))
static const val_t methods_[] = { { "GET", 0 }, { "POST", B405 }, { "get", B405 }, { "HEAD", B405 }, { "GETX", B405 }, { "GE", B405 }, { "OPTIONS", B405 }, { "", B400 | B405 }, { "G ET", B400 | B405 }, { "\xff", B400 | B405 } };
static const val_t targets_[] = { { "/", 0 }, { "/chat/room?x=y&z", 0 }, { "ws://localhost:8080/", 0 }, { "x", B400 }, { "*", B400 }, { "localhost/", B400 }, { "http://localhost:8080/", B426 }, { "https://localhost/x", B426 }, { "ftp://localhost/", B400 }, { "ws:/x", B400 }, { "//", 0 }, { "/%41", 0 }, { "/favicon.icox", 0 } };
static const val_t versions_[] = { { "HTTP/1.1", 0 }, { "HTTP/1.0", B505 }, { "HTTP/2.0", B505 }, { "http/1.1", B505 }, { "HTTP/1.1x", B505 }, { "HTTP/1.", B505 }, { "HTTP/1.1 x", B400 | B505 }, { "", B400 | B505 }, { "HTTP/0.9", B505 }, { "HTTP/1.10", B505 } };
static const val_t upgrades_[] = { { "websocket", 0 }, { "WebSocket", 0 }, { "h2c, websocket", 0 }, { "websocketx", B426 }, { "xwebsocket", B426 }, { "", B426 }, { NULL, B426 }, { "web socket", B426 }, { "h2c", B426 }, { "websocket,h2c", 0 } };
static const val_t conns_[] = { { "Upgrade", 0 }, { "upgrade", 0 }, { "keep-alive, Upgrade", 0 }, { "Upgrade ,keep-alive", 0 }, { "keep-alive", B426 }, { "Upgrades", B426 }, { "xUpgrade", B426 }, { "", B426 }, { NULL, B426 }, { "keep-alive Upgrade", B426 } };
static const val_t wsvers_[] = { { "13", 0 }, { "8", 0 }, { "7", 0 }, { "6", B501 }, { "4", B501 }, { "12", B501 }, { "14", B501 }, { "0", B501 }, { "1", B501 }, { "", B501 }, { NULL, B501 }, { "13x", B501 | B400 }, { "x13", B501 | B400 }, { "-13", B501 | B400 }, { "1 3", B501 | B400 }, { "269", B501 }, { "4294967309", B501 | B400 }, { "13\r\nSec-WebSocket-Version: 13", B400 }, { "13\r\nSec-WebSocket-Version: 8", B400 }, { "6\r\nsec-websocket-version: 13", B400 | B501 } };
static const val_t keys_[] = { { KEY, 0 }, { "AAAAAAAAAAAAAAAAAAAAAA==", 0 }, { "////////////////////+w==", 0 }, { "dGhlIHNhbXBsZSBub25j", B426 | B400 }, { "dGhlIHNhbXBsZSBub25jZWU=", B426 | B400 }, { "dGhlIHNhbXBsZSBub25jZWVl", B426 | B400 }, { "dGhlIHNhbXBsZSBub25jZQ", B426 | B400 }, { "dGhlIHNhbXBsZSBub25jZQ=", B426 | B400 }, { "dGhlIHNhbXBsZSBub25jZQ===", B426 | B400 }, { "dGhlIHNhbXBsZSBu=25jZQ==", B426 | B400 }, { "dGhlIHNhbXBsZSBub25jZQ==" "dGhlIHNhbXBsZSBub25jZQ==", B426 | B400 }, { "", B426 | B400 }, { NULL, B426 | B400 }, { "dGhlIHNhbXBsZ SBub25jZQ==", B426 | B400 }, { KEY "\r\nSec-WebSocket-Key: " KEY, B400 }, { KEY "\r\nSEC-WEBSOCKET-KEY: AAAAAAAAAAAAAAAAAAAAAA==", B400 }, { "the sample nonce", B426 | B400 }, { "========================", B426 | B400 }, { "dGhlIHNhbXBsZSBub25jZQ==" "=", B426 | B400 }, { "dGhlIHNhbXBsZSBub25jZQ-=", B426 | B400 } };
static const char *names_[][3] = { { "Upgrade", "upgrade", "UPGRADE" }, { "Connection", "connection", "CONNECTION" }, { "Sec-WebSocket-Version", "sec-websocket-version", "SEC-WEBSOCKET-VERSION" }, { "Sec-WebSocket-Key", "sec-websocket-key", "SEC-WEBSOCKET-KEY" } };
static const char *before_[] = { " ", "", "  \t" }, *after_[] = { "", " ", "\t " };

/* arg: 0 request lines x few headers, 1 all header values, 2 everything (thorough), 3 header names, spaces and order */
static void sc_request(long arg) {
    boot();
    const val_t *me = &methods_[0], *ta = &targets_[0], *ve = &versions_[0], *h[4] = { &upgrades_[0], &conns_[0], &wsvers_[0], &keys_[0] };
    const val_t *tab[4] = { upgrades_, conns_, wsvers_, keys_ };
    int tn[4] = { N(upgrades_), N(conns_), N(wsvers_), N(keys_) };
    int cs = 0, bl = 0, al = 0, rot = 0, host = 0;
    if (arg == 0 || arg == 2) {
        me = &methods_[mc_choose(N(methods_), "method")]; ta = &targets_[mc_choose(N(targets_), "target")]; ve = &versions_[mc_choose(N(versions_), "version")];
    }
    if (arg == 0) { /* at most one header with a defect */
        int k = mc_choose(9, "defect");
        if (k) h[(k - 1) / 2] = &tab[(k - 1) / 2][k & 1 ? tn[(k - 1) / 2] - 1 : 6];
    } else if (arg == 1 || arg == 2) for (int i = 0; i < 4; i++) h[i] = &tab[i][mc_choose(tn[i], "header")];
    else {
        for (int i = 0; i < 4; i++) h[i] = &tab[i][mc_choose(3, "header")];
        cs = mc_choose(3, "case"); bl = mc_choose(3, "before"); al = mc_choose(3, "after"); rot = mc_choose(4, "order"); host = mc_choose(3, "host");
    }
    set_t want = me->bad | ta->bad | ve->bad;
    RN = 0;
    rq("%s %s %s\r\n", me->v, ta->v, ve->v);
    if (host == 0) rq("Host: localhost\r\n");
    for (int j = 0; j < 4; j++) {
        int i = (j + rot) & 3;
        want |= h[i]->bad;
        if (h[i]->v) rq("%s:%s%s%s\r\n", names_[i][cs], before_[bl], h[i]->v, after_[al]);
        if (host == 1 && j == 1) rq("host:localhost\r\n");
    }
    if (host == 2) rq("X: :\r\nHOST:\tlocalhost\r\n");
    rq("\r\n");
    judge(want, NULL, h[3]->v);
}
/* every single character of the key */
static void sc_key(long arg) {
    (void)arg;
    boot();
    char k[25] = KEY;
    int pos = mc_choose(24, "position"), ch = mc_choose(255, "character") + 1;
    if (ch == '\r' || ch == '\n' || ((ch == ' ' || (ch >= 9 && ch <= 13)) && (pos == 0 || pos == 23))) mc_prune();
    k[pos] = ch;
    set_t want = key_ok(k) ? 0 : B426 | B400;
    if (pos == 21 && key_ok(k) && k[21] != 'Q' && k[21] != 'A' && k[21] != 'g' && k[21] != 'w') want = ANY; /* bits that are thrown away: either way */
    RN = ws_request(R, sizeof R, "/", NULL, NULL);
    memcpy(strstr(R, KEY), k, 24);
    judge(want, NULL, k);
}
static const struct { const char *name, *text; set_t want; const char *proto; } kinds[] = {
    { "upgrade", "GET / HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: " KEY "\r\nSec-WebSocket-Version: 13\r\n\r\n", 0, NULL },
    { "upgrade with subprotocol", "GET /p?q HTTP/1.1\r\nUpgrade: websocket\r\nHost: localhost\r\nConnection: keep-alive, Upgrade\r\nOrigin: http://o\r\nCookie: a=b; c=d\r\nSec-WebSocket-Protocol: nope, probe, echo\r\nSec-WebSocket-Key: " KEY "\r\nSec-WebSocket-Version: 13\r\n\r\n", 0, "probe" },
    { "not a websocket request", "GET / HTTP/1.1\r\nHost: localhost\r\n\r\n", B426, NULL },
    { "no headers", "GET / HTTP/1.1\r\n\r\n", B426 | B501 | B400, NULL },
    { "method", "POST / HTTP/1.1\r\nHost: localhost\r\n\r\n", B405 | B426, NULL },
    { "http version", "GET / HTTP/1.0\r\nHost: localhost\r\n\r\n", B505 | B426, NULL },
    { "websocket version", "GET / HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: " KEY "\r\nSec-WebSocket-Version: 5\r\n\r\n", B501, NULL },
    { "favicon that is not there", "GET /favicon.ico HTTP/1.1\r\nHost: localhost\r\n\r\n", B404, NULL },
    { "garbage", "\x16\x03\x01\x02 garbage\r\n\r\n", B400 | B405 | B505, NULL },
};
#define NK N(kinds)
/* a request in pieces gets the answer it gets in one */
static void sc_pieces(long arg) {
    int k = arg & 15, ncuts = arg >> 4;
    boot();
    const char *t = kinds[k].text;
    size_t n = strlen(t), from = 0;
    RN = n; memcpy(R, t, n);
    int c = sim_connect(PORT);
    if (ncuts == 15) { int p = 1 + mc_choose(n < 40 ? (int)n : 40, "piece"); for (; n - from > (size_t)p; from += p) { sim_send(c, t + from, p); if (p > 1 || from % 7 == 0) sim_quiesce(); } }
    else for (int i = 0; i < ncuts && from + 1 < n; i++) {
        int d = mc_choose((int)(n - from), "cut");
        if (!d) break;
        sim_send(c, t + from, d); sim_quiesce(); from += d;
        size_t o; sim_out(c, &o);
        MC_CHECK(o == 0 && !sim_server_closed(c), "early", "%zu of %zu bytes of a request were sent and the server answers: %s", from, n, hexs(sim_out(c, &o), o));
    }
    sim_send(c, t + from, n - from);
    sim_quiesce();
    answer_t a;
    read_answer(c, &a);
    check_answer(c, &a, kinds[k].want, kinds[k].proto, KEY, R, RN);
}
/* short and interrupted reads, refused and short writes while the request is answered */
static void sc_faults(long arg) {
    int k = arg & 15;
    boot();
    RN = strlen(kinds[k].text); memcpy(R, kinds[k].text, RN);
    int c = sim_connect(PORT);
    int half = mc_choose(3, "half");
    sim_faults_on = true;
    if (half) { sim_send(c, R, half * RN / 3); sim_quiesce(); }
    sim_send(c, R + half * RN / 3, RN - half * RN / 3);
    sim_quiesce();
    sim_faults_on = false;
    answer_t a;
    read_answer(c, &a);
    check_answer(c, &a, kinds[k].want, kinds[k].proto, KEY, R, RN);
}
static void sc_buffer(long arg) {
    cfg.size_buffer = 1 + (arg & 255);
    int k = arg >> 8;
    boot();
    RN = strlen(kinds[k].text); memcpy(R, kinds[k].text, RN);
    judge(kinds[k].want, kinds[k].proto, KEY);
}
/* every byte of a request replaced, left out, doubled or preceded by something: whatever
 * it becomes, one well-formed answer (or the server waits for the rest), and it goes on serving */
static void sc_mutate(long arg) {
    int k = arg & 15, kind = arg >> 4;
    boot();
    const char *t = kinds[k].text;
    int n = strlen(t);
    static const unsigned char some[] = { 0, '\r', '\n', ' ', ':', ',', ';', '\t', '"', '=', '/', 0xff, 0x80, '(', '%', 'a' };
    int pos = mc_choose(n, "position");
    unsigned char *r = (unsigned char *)R;
    RN = 0;
    memcpy(r, t, pos); RN = pos;
    if (kind == 0) { r[RN++] = sim_thorough ? mc_choose(256, "byte") : some[mc_choose(N(some), "byte")]; memcpy(r + RN, t + pos + 1, n - pos - 1); RN += n - pos - 1; }
    else if (kind == 1) { int d = 1 + mc_choose(4, "length"); if (pos + d > n) mc_prune(); memcpy(r + RN, t + pos + d, n - pos - d); RN += n - pos - d; }
    else if (kind == 2) { r[RN++] = some[mc_choose(N(some), "byte")]; memcpy(r + RN, t + pos, n - pos); RN += n - pos; }
    else if (kind == 3) { /* a second change */
        r[RN++] = some[mc_choose(N(some), "byte")];
        memcpy(r + RN, t + pos + 1, n - pos - 1); RN += n - pos - 1;
        int q = pos + 1 + mc_choose(n - pos, "second"); if (q >= n) mc_prune();
        r[q] = some[mc_choose(sim_thorough ? N(some) : 4, "byte")];
    }
    judge(ANY | WAIT, ANYPROTO, NULL);
    if (mc_choose(2, "then")) still_serving("an odd request");
}
/* limits: target, headers, body */
static void sc_limit(long arg) {
    int what = arg & 15, d = (int)(arg >> 4 & 15) - 7;
    cfg.size_uri = 40; cfg.size_header = 300; cfg.size_payload = 50;
    boot();
    RN = 0;
    set_t want = 0;
    int form = mc_choose(what == 0 ? 2 : 3, "form");
    static char fill[400]; memset(fill, 'x', 399);
    if (what == 0) { /* target */
        int l = 40 + d;
        if (form == 0) rq("GET /%.*s HTTP/1.1\r\n", l - 1, fill); else rq("GET ws://localhost:8080/%.*s HTTP/1.1\r\n", l - 20, fill);
        if (d > 0) want = B414;
        rq("Host: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: " KEY "\r\nSec-WebSocket-Version: 13\r\n\r\n");
    } else if (what == 1) { /* characters of the header lines */
        int l = 300 + d;
        const char *fix = "Host: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: " KEY "\r\nSec-WebSocket-Version: 13\r\n";
        int fl = strlen(fix) - 10;
        rq("GET / HTTP/1.1\r\n");
        if (form == 0) rq("%sX: %.*s\r\n", fix, l - fl - 3, fill);
        else if (form == 1) rq("X: %.*s\r\n%s", l - fl - 3, fill, fix);
        else { for (int i = 0; i < 20; i++) rq("A:b\r\n"); rq("%sX: %.*s\r\n", fix, l - fl - 63, fill); }
        rq("\r\n");
        if (d > 0) want = B431;
    } else { /* body */
        int l = 50 + d;
        rq("GET / HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: " KEY "\r\nSec-WebSocket-Version: 13\r\n%s\r\n%.*s", form ? "Content-Length: 40\r\n" : "", l, fill);
        want = d > 0 ? B413 : ANY;
        if (form == 2) { memset(R + RN, 'y', 900); RN += 900; want = B413; }
    }
    judge(want, NULL, KEY);
}
/* a request that is too large in every respect, and never ends */
static void sc_endless(long arg) {
    cfg.size_uri = 40; cfg.size_header = 400; cfg.size_payload = 50; cfg.size_buffer = 64;
    boot();
    int c = sim_connect(PORT);
    const char *s[] = { "GET / HTTP/1.1\r\n", "GET /", "", "A: b\r\n" };
    sim_send(c, s[arg], strlen(s[arg]));
    size_t o = 0;
    int i;
    for (i = 0; i < 200 && !sim_server_closed(c) && !o; i++) { sim_send(c, "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", 32); sim_quiesce(); sim_out(c, &o); }
    MC_CHECK(i < 200, "unbounded", "the server stores 6400 bytes of a request although the limits are 40, 400 and 50");
    answer_t a;
    read_answer(c, &a);
    check_answer(c, &a, B413 | B431 | B414, NULL, NULL, "(endless request)", 17);
    still_serving("an endless request");
}

/* ------------------------------------------------------ restrictions */
static char *H1[] = { "localhost", "localhost:8080", "localhost:8443" }, *H2[] = { "a.b", "c", "a.b:8080", "c:8080", "a.b:8443", "c:8443" };
static char *O1[] = { "http://o" }, *O2[] = { "http://o", "https://p.q:99" };
static char *P1[] = { "chat" }, *P2[] = { "/chat/room", "r[0-9]+", "f" }, *P3[] = { "a|bc" };
static char *Q1[] = { "t=[a-z]+" }, *Q2[] = { "a=1", "b=2" };
static const struct { char **v; int n; } hosts_c[] = { { 0, 0 }, { H1, 3 }, { H2, 6 } }, origins_c[] = { { 0, 0 }, { O1, 1 }, { O2, 2 } }, paths_c[] = { { 0, 0 }, { P1, 1 }, { P2, 3 }, { P3, 1 } }, queries_c[] = { { 0, 0 }, { Q1, 1 }, { Q2, 2 } };
static const char *hosts_v[] = { "localhost", "localhost:8080", "a.b", "aXb", "a.bc", "c:8080", "evil", "LOCALHOSTX", "localhos", "" };
static const char *origins_v[] = { NULL, "http://o", "https://p.q:99", "http://ox", "http://", "https://pxq:99", "evil" };
static const char *tpath[] = { "", "chat", "chatx", "xchat", "chat/room", "r1", "r", "r12x", "f", "a", "bc", "ab", "c", "a|bc", "chat/", "/chat" };
static const char *tquery[] = { "", "?t=ab", "?t=A", "?a=1", "?b=2&a=1", "?a=1&c=3", "?a=1&", "?", "?t=ab&t=c", "?a=12", "?t=ab?t=ab" };
static const char *tabs_[] = { "", "ws://localhost:8080", "ws://a.b", "ws://evil", "ws://c:8080", "ws://localhost:81", "wss://localhost:8080", "ws://aXb" };
static bool path_in(int k, const char *p) {
    if (!*p || k == 0) return true;
    if (k == 1) return !strcmp(p, "chat");
    if (k == 3) return !strcmp(p, "a") || !strcmp(p, "bc");
    if (!strcmp(p, "chat/room") || !strcmp(p, "f")) return true;
    if (p[0] != 'r' || !p[1]) return false;
    for (p++; *p; p++) if (*p < '0' || *p > '9') return false;
    return true;
}
static bool query_one(int k, const char *q, size_t n) {
    if (k == 2) return n == 3 && (!memcmp(q, "a=1", 3) || !memcmp(q, "b=2", 3));
    if (n < 3 || memcmp(q, "t=", 2)) return false;
    for (size_t i = 2; i < n; i++) if (q[i] < 'a' || q[i] > 'z') return false;
    return true;
}
static bool query_in(int k, const char *q) {
    if (!*q || k == 0) return true;
    q++;
    for (;;) { size_t n = strcspn(q, "&"); if (!query_one(k, q, n)) return false; q += n; if (!*q) return true; q++; }
}
static bool inl(char **v, int n, const char *s) { for (int i = 0; i < n; i++) if (!strcmp(v[i], s)) return true; return false; }
static void sc_restrict(long arg) {
    int hk = arg % 3, pk = arg / 3 % 4, qk = arg / 12 % 3, mode = arg / 36;
    cfg.hosts = hosts_c[hk].v; cfg.hosts_length = hosts_c[hk].n;
    cfg.paths = paths_c[pk].v; cfg.paths_length = paths_c[pk].n;
    cfg.queries = queries_c[qk].v; cfg.queries_length = queries_c[qk].n;
    int ok = mode;
    cfg.origins = origins_c[ok].v; cfg.origins_length = origins_c[ok].n;
    boot();
    int hv = 0, ov = 0, pv = 0, qv = 0, av = 0;
    if (mode == 0) { /* targets; the host is one that is admitted */
        pv = mc_choose(N(tpath), "path"); qv = mc_choose(N(tquery), "query"); av = mc_choose(N(tabs_), "origin form");
        hv = hk == 2 ? 2 : 0;
    } else { hv = mc_choose(N(hosts_v), "host"); ov = mc_choose(N(origins_v), "origin"); pv = mc_choose(4, "path"); qv = mc_choose(3, "query"); }
    set_t want = 0;
    if (cfg.hosts_length && !inl(cfg.hosts, cfg.hosts_length, hosts_v[hv])) want |= B400;
    if (cfg.origins_length && (!origins_v[ov] || !inl(cfg.origins, cfg.origins_length, origins_v[ov]))) want |= B403;
    if (!path_in(pk, tpath[pv]) || !query_in(qk, tquery[qv])) want |= B404;
    if (!*hosts_v[hv] && !cfg.hosts_length) want = ANY;
    if (pk == 0 && qk && strchr(tquery[qv], '?') && strchr(tquery[qv] + 1, '?')) want |= B404;
    bool restricted = hk || pk || qk;
    if (av && restricted) { /* the target names scheme, host and port */
        if (av == 5 || av == 6 || av == 3 || av == 7) want |= hk || av == 5 || av == 6 ? B404 | B400 : 0;
        else if (hk == 1 && av != 1) want |= B404 | B400;
        else if (hk == 2 && av != 2 && av != 4) want |= B404 | B400;
    }
    if (av && !restricted && (av == 5 || av == 6)) want = ANY;
    if (!strcmp(tpath[pv], "/chat") && want == 0) want = pk == 0 ? 0 : ANY;
    RN = 0;
    rq("GET %s/%s%s HTTP/1.1\r\nHost: %s\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: " KEY "\r\nSec-WebSocket-Version: 13\r\n", tabs_[av], tpath[pv], tquery[qv], hosts_v[hv]);
    if (origins_v[ov]) rq("Origin: %s\r\n", origins_v[ov]);
    rq("\r\n");
    judge(want, NULL, KEY);
}

/* ------------------------------------------------- subprotocol negotiation */
static const char *offer_[] = { "echo", "probe", "broadcast", "nope", "ECHO", "", "echoe", "ech" };
static void sc_subprotocol(long arg) {
    int depth = arg & 15, mode = arg >> 4;
    boot();
    const char *agreed = NULL;
    char list[200] = "";
    int lines = 0;
    RN = 0;
    rq("GET / HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: " KEY "\r\nSec-WebSocket-Version: 13\r\n");
    for (int i = 0; i < depth; i++) {
        int k = mc_choose(N(offer_) + (i > 0), "offer");
        if (k == N(offer_)) break;
        if (!agreed && k < 3) agreed = offer_[k];
        if (mode == 2 && i) { rq("Sec-WebSocket-Protocol: %s\r\n", list); lines++; *list = 0; }
        if (*list) strcat(list, mode ? " ,\t" : ", ");
        else if (i && mode != 2) strcat(list, ",");
        strcat(list, offer_[k]);
    }
    rq("Sec-WebSocket-Protocol: %s\r\n\r\n", list);
    npev = 0;
    int c = sim_connect(PORT);
    sim_send(c, R, RN);
    sim_quiesce();
    answer_t a;
    read_answer(c, &a);
    check_answer(c, &a, 0, agreed, KEY, R, RN);
    /* and it is this one that serves the connection */
    MC_CHECK((npev == 1) == (agreed && !strcmp(agreed, "probe")), "subprotocol:other", "%s was agreed, %d connections reach probe", agreed ? agreed : "nothing", npev);
    opos[c] = a.end;
    probe_echo = false;
    ws_text(c, "hello");
    sim_quiesce();
    uint8_t b[32]; size_t n;
    int t = out_msg(c, b, sizeof b, &n);
    bool echo = !agreed || !strcmp(agreed, "echo");
    MC_CHECK((t == 1) == echo && (t == 1 || t == 0), "subprotocol:behaviour", "%s was agreed, and a message is answered with %d", agreed ? agreed : "nothing (echo)", t);
    if (agreed && !strcmp(agreed, "probe")) MC_CHECK(npev == 2 && pev[1].type == EV_MESSAGE && pev[1].len == 5, "subprotocol:message", "the message does not reach probe");
}

/* the icon that browsers ask for: files of several sizes, and what is no file */
#include <sys/mman.h>
static const int ico_sizes[] = { 1, 2, 9, 10, 99, 100, 255, 256, 999, 1000, 4096, 65535, 70000, 0 };
static char ico_path[N(ico_sizes)][40];
static uint8_t ico_byte(int k, int i) { return k % 3 == 0 ? i * 31 + (i >> 8) : k % 3 == 1 ? "\r\n\0"[i % 3] : 255 - i; }
static void make_icons(void) {
    for (int k = 0; k < N(ico_sizes); k++) {
        int fd = memfd_create("icon", 0);
        for (int i = 0; i < ico_sizes[k]; i++) { uint8_t b = ico_byte(k, i); if (pwrite(fd, &b, 1, i) != 1) abort(); }
        snprintf(ico_path[k], sizeof ico_path[k], "/proc/self/fd/%d", fd);
    }
}
static void sc_favicon(long arg) {
    static char *none[] = { NULL, "/nonexistent/icon", "/", "" };
    int k = (int)arg, faults = k >> 8 & 1; k &= 255;
    cfg.favicon = k < N(ico_sizes) ? ico_path[k] : none[k - N(ico_sizes)];
    int size = k < N(ico_sizes) ? ico_sizes[k] : -1;
    boot();
    RN = 0;
    int more = mc_choose(2, "headers");
    rq("GET /favicon.ico HTTP/1.1\r\nHost: localhost\r\n%s\r\n", more ? "Accept: image/*\r\nConnection: keep-alive\r\n" : "");
    int c = sim_connect(PORT);
    if (faults) { sim_faults_on = true; sim_send(c, R, RN); sim_quiesce(); sim_faults_on = false; }
    else {
        int cut = mc_choose(RN, "cut"), win = mc_choose(6, "window");
        if (win) sim_window(c, win == 1 ? 0 : win == 2 ? 1 : win == 3 ? 100 : win == 4 ? 300 : 500);
        if (cut) { sim_send(c, R, cut); sim_quiesce(); }
        sim_send(c, R + cut, RN - cut); sim_quiesce();
        if (win) { if (win & 1) { sim_window(c, 33); sim_quiesce(); } sim_window(c, -1); sim_quiesce(); }
    }
    answer_t a;
    read_answer(c, &a);
    MC_CHECK(a.total, "http:none", "no answer to the request for an icon of %d bytes", size);
    if (size < 0) MC_CHECK(a.code == 404, "http:status", "the request for an icon that is not there is answered with %d", a.code);
    else if (size > 0 || a.code != 404) {
        MC_CHECK(a.code == 200, "http:status", "the request for an icon of %d bytes is answered with %d", size, a.code);
        MC_CHECK(a.blen == (size_t)size, "http:icon", "an icon of %d bytes is sent as %zu bytes", size, a.blen);
        for (int i = 0; i < size; i++) MC_CHECK((uint8_t)a.p[a.hlen + i] == ico_byte(k, i), "http:icon", "byte %d of the icon is %d", i, (uint8_t)a.p[a.hlen + i]);
    }
    MC_CHECK(sim_server_closed(c), "http:open", "the connection stays open after the icon");
    mc_outcome(mc_hash(a.code, &size, sizeof size));
    still_serving("an icon");
}
/* what the application is told about a connection */
static const char *cookies_v[] = { NULL, "a=b", "a=b; c=\"d\"", "" , "x", "0123456789012345678901234567890123456789012345678901234567890123456789" };
static const char *paths_v[] = { "/", "/a/b", "/a?b=c&d", "ws://localhost:8080/z", "/%20+", "/0123456789012345678901234567890123456789?0123456789", "/?", "/a;b", "ws://localhost/y?z=1" };
static int seen_n;
static void c_hook(int type, int fd, int op, char *m, size_t n) { (void)fd; (void)op; (void)m; (void)n; if (type == EV_CONNECT) seen_n++; }
static void sc_told(long arg) {
    (void)arg;
    boot();
    probe_hook = c_hook; seen_n = 0;
    int k = mc_choose(N(cookies_v), "cookies"), p = mc_choose(N(paths_v), "path"), n = mc_choose(3, "earlier"), cut = mc_choose(3, "cut");
    for (int i = 0; i < n; i++) ws_open(i ? "echo" : "probe");
    npev = 0; seen_n = 0;
    RN = 0;
    rq("GET %s HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: " KEY "\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Protocol: probe\r\n", paths_v[p]);
    if (cookies_v[k]) rq("Cookie: %s\r\n", cookies_v[k]);
    rq("\r\n");
    int c = sim_connect(PORT);
    probe_cookies_want = cookies_v[k] ? cookies_v[k] : ""; probe_cookies_check = true;
    sim_send(c, R, cut * RN / 3);
    if (cut) sim_quiesce();
    sim_send(c, R + cut * RN / 3, RN - cut * RN / 3);
    sim_quiesce();
    MC_CHECK(take_response(c, NULL, 0) == 101, "told:101", "no upgrade");
    MC_CHECK(npev == 1 && pev[0].type == EV_CONNECT && pev[0].fd == sim_fd_of(c), "told:connect", "%d events reach the application", npev);
    MC_CHECK(pev[0].len == strlen(paths_v[p]) && !memcmp(pev[0].data, paths_v[p], pev[0].len), "told:path", "the application is told the path %.*s instead of %s", (int)pev[0].len, pev[0].data, paths_v[p]);
    /* the descriptor it was told is that of this client */
    for (int i = 0; i < 3; i++) {
        char m[8]; uint8_t b[32]; size_t l;
        int len = sprintf(m, "m%d", i);
        npev = 0;
        if (i == 1) psend(sim_fd_of(c), 1, m, len); else ws_text(c, m);
        sim_quiesce();
        if (i != 1) MC_CHECK(npev == 1 && pev[0].type == EV_MESSAGE && pev[0].fd == sim_fd_of(c) && pev[0].len == (size_t)len && !memcmp(pev[0].data, m, len), "told:message", "the message of the client does not reach the application under its descriptor (%d events)", npev);
        int t = out_msg(c, b, sizeof b, &l);
        MC_CHECK(t == 1 && l == (size_t)len && !memcmp(b, m, len), "told:send", "what is sent to the descriptor does not reach the client (%d)", t);
    }
    npev = 0;
    sim_close_client(c); sim_quiesce();
    MC_CHECK(npev == 1 && pev[0].type == EV_CLOSE && pev[0].fd == sim_fd_of(c), "told:close", "%d events tell of the end", npev);
}

#define P(x) (!strcmp(sim_property, x))
void harness_init(void) {
    char nm[100];
    srv_defaults();
    sim_cfg.max_steps = 2000000;
    if (P("W08")) {
        sim_scenario("request lines", sc_request, 0);
        sim_scenario("header values", sc_request, 1);
        sim_scenario("header names, spaces and order", sc_request, 3);
        sim_scenario("every character of the key", sc_key, 0);
        if (sim_thorough) sim_scenario("all combinations", sc_request, 2);
    }
    if (P("W09")) for (int m = 0; m < 3; m++) for (int i = 0; i < 36; i++) { snprintf(nm, sizeof nm, "hosts %d, paths %d, queries %d, origins %d", i % 3, i / 3 % 4, i / 12, m); sim_scenario(nm, sc_restrict, m * 36 + i); }
    if (P("W10")) {
        for (int k = 0; k < NK; k++) {
            int cuts = sim_thorough ? 3 : 2;
            snprintf(nm, sizeof nm, "%d cuts: %s", cuts, kinds[k].name);
            sim_scenario(nm, sc_pieces, cuts << 4 | k);
            snprintf(nm, sizeof nm, "equal pieces: %s", kinds[k].name);
            sim_scenario(nm, sc_pieces, 15 << 4 | k);
        }
        for (int b = 0; b < (sim_thorough ? 256 : 40); b++) for (int k = 0; k < NK; k++) { snprintf(nm, sizeof nm, "buffer of %d: %s", b + 1, kinds[k].name); sim_scenario(nm, sc_buffer, k << 8 | b); }
        sim_cfg.fault_budget = sim_thorough ? 3 : 2;
        sim_cfg.f_short_read = sim_cfg.f_eintr_read = sim_cfg.f_short_write = sim_cfg.f_eagain_write = sim_cfg.f_eintr_write = true;
        sim_cfg.short_read_all = sim_thorough ? 64 : 24; sim_cfg.short_write_all = sim_thorough ? 400 : 150;
        for (int k = 0; k < NK; k++) { snprintf(nm, sizeof nm, "partial and interrupted calls: %s", kinds[k].name); sim_scenario(nm, sc_faults, k); }
    }
    if (P("W10")) {
        make_icons();
        for (int f = 0; f < 2; f++) for (int k = 0; k < N(ico_sizes) + 4; k++) {
            if (f && k < N(ico_sizes) && ico_sizes[k] > 300) continue;
            snprintf(nm, sizeof nm, "icon %s%d%s", k < N(ico_sizes) ? "of size " : "missing ", k < N(ico_sizes) ? ico_sizes[k] : k, f ? ", partial and interrupted calls" : "");
            if (!f) sim_cfg.fault_budget = 0; else sim_cfg.fault_budget = 1;
            sim_scenario(nm, sc_favicon, f << 8 | k);
        }
        sim_cfg.fault_budget = sim_thorough ? 3 : 2;
    }
    if (P("W11") || P("W10")) for (int k = 0; k < NK; k++) for (int i = 0; i < (k < 2 ? 4 : 3); i++) {
        static const char *w[] = { "one byte replaced", "bytes left out", "one byte inserted", "two bytes replaced" };
        snprintf(nm, sizeof nm, "%s: %s", w[i], kinds[k].name);
        sim_scenario(nm, sc_mutate, i << 4 | k);
    }
    if (P("W14") || P("W11")) {
        for (int w = 0; w < 3; w++) for (int d = 0; d < 15; d++) { static const char *wn[] = { "target", "headers", "body" }; snprintf(nm, sizeof nm, "%s at the limit %+d", wn[w], d - 7); sim_scenario(nm, sc_limit, d << 4 | w); }
        for (int i = 0; i < 4; i++) { snprintf(nm, sizeof nm, "endless request %d", i); sim_scenario(nm, sc_endless, i); }
    }
    if (P("W12")) for (int m = 0; m < 3; m++) { snprintf(nm, sizeof nm, "subprotocol offers, form %d", m); sim_scenario(nm, sc_subprotocol, m << 4 | (sim_thorough ? 5 : 4)); }
    if (P("W28")) sim_scenario("what the application is told", sc_told, 0);
}

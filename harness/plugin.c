/* W29: the interface of extensions and subprotocols (README: "WebSocket Extensions", "WebSocket Subprotocols"). */
#include "srv.h"
const char *harness_rule = "all selections and orders of three test extensions in the client's offer, all incomplete or missing plug-ins at every place of the configuration, all message and fragment plans of a list, connections ended at every step; the calls that each plug-in gets and the bytes that the client gets are judged against the documented interface and RFC 6455 section 9";
/* ------------------------------------------------------- test extensions
 * Extension i appends 'A'+i to the last frame of a message and sets one of
 * the reserved bits on the first (outFrames), and appends 'a'+i to every
 * frame (outFrame); on input it takes both away again. Extension 0 may also
 * put a byte of extension data before the payload of every frame. */
#define NX 3
static const char *xn[NX] = { "xa", "x-b", "xc_3" };
static struct { int pyinits, allocs, inits, destroys; bool bad; const char *cfg; void *(*m)(size_t); void *(*r)(void *, size_t); void (*f)(void *); } xs[NX], ss[2];
static uint8_t xopen[NX][128];      /* the descriptor is served with extension i */
static int nopens[NX], ncloses[NX];
static bool accepting_[NX], xdata;
static const char *xparam[40]; static int nxparam;
static void alive(int i, const char *f) {
    MC_CHECK(xs[i].allocs == 1 && xs[i].inits == 1, "plugin:uninitialised", "%s of the extension %s is called before it was set up (%d, %d)", f, xn[i], xs[i].allocs, xs[i].inits);
    MC_CHECK(!xs[i].destroys, "plugin:destroyed", "%s of the extension %s is called after it was destroyed", f, xn[i]);
}
static void x_py(int i) { MC_CHECK(!xs[i].allocs, "plugin:order", "the Python module of %s is initialised late", xn[i]); xs[i].pyinits++; }
static void x_own(int i) { mc_fail("plugin:undocumented", "a function of the extension %s that is none of the interface is called", xn[i]); }
static void x_alloc(int i, void *m, void *r, void *f) {
    MC_CHECK(m && r && f, "plugin:allocators", "the extension %s gets no allocators", xn[i]);
    MC_CHECK(!xs[i].inits && !xs[i].allocs++, "plugin:order", "setAllocators of %s is called late or twice", xn[i]);
    xs[i].m = m; xs[i].r = r; xs[i].f = f;
}
static void x_init(int i, char *c) {
    MC_CHECK(xs[i].allocs == 1 && !xs[i].inits++, "plugin:order", "onInit of %s is called early or twice", xn[i]);
    MC_CHECK(!!c == !!xs[i].cfg && (!c || !strcmp(c, xs[i].cfg)), "plugin:config", "the extension %s is configured with '%s' instead of '%s'", xn[i], c ? c : "(null)", xs[i].cfg ? xs[i].cfg : "(null)");
}
static void x_open(int i, int fd, char *param, char **accepted, bool *valid) {
    alive(i, "onOpen");
    MC_CHECK(fd >= 0 && fd < 128 && !xopen[i][fd], "plugin:open-twice", "the extension %s is opened twice for descriptor %d", xn[i], fd);
    if (nxparam < 40) { char *k = sim_xalloc(64); snprintf(k, 64, "%s|%s", xn[i], param ? param : ""); xparam[nxparam++] = k; }
    *valid = !(param && !strcmp(param, "no"));
    if (!*valid) return;
    xopen[i][fd] = 1; nopens[i]++;
    if (param && !strncmp(param, "p=", 2)) { *accepted = xs[i].m(8); memcpy(*accepted, "r=", 2); (*accepted)[2] = param[2]; (*accepted)[3] = 0; }
}
static void grown(int i, wss_frame_t *f, int c) {
    f->payload = xs[i].r(f->payload, f->payloadLength + 1);
    f->payload[f->payloadLength++] = c;
    f->applicationDataLength++;
}
static void shrunk(int i, wss_frame_t *f, int c, const char *what) {
    MC_CHECK(f->applicationDataLength > 0 && f->payload[f->payloadLength - 1] == c, "plugin:order", "%s of the extension %s gets a frame that ends with '%c' instead of '%c': the extensions do not undo in reverse what the client's did", what, xn[i], f->payloadLength ? f->payload[f->payloadLength - 1] : '-', c);
    f->payloadLength--; f->applicationDataLength--;
}
static void lens(int i, wss_frame_t *f, const char *what) {
    MC_CHECK(f->payloadLength == f->extensionDataLength + f->applicationDataLength && (f->payload || !f->payloadLength), "plugin:lengths", "%s of the extension %s gets a frame of %lu bytes with %lu bytes of application and %lu bytes of extension data", what, xn[i], (long)f->payloadLength, (long)f->applicationDataLength, (long)f->extensionDataLength);
}
static int seenfr[NX];              /* frames seen by inFrame or outFrame since the last inFrames or after outFrames */
static void used(int i, int fd, const char *what) {
    alive(i, what);
    MC_CHECK(fd >= 0 && fd < 128 && xopen[i][fd], "plugin:not-open", "%s of the extension %s is called for descriptor %d, for which it is not in use", what, xn[i], fd);
}
static void x_inframe(int i, int fd, wss_frame_t *f) {
    used(i, fd, "inFrame"); lens(i, f, "inFrame");
    seenfr[i]++;
    if (f->opcode >= 8) return;
    shrunk(i, f, 'a' + i, "inFrame");
    if (!i && xdata) {
        MC_CHECK(f->applicationDataLength > 0 && f->payload[0] == '#', "plugin:order", "inFrame of %s finds no extension data", xn[i]);
        f->extensionDataLength = 1; f->applicationDataLength--;
    }
}
static void msgs(int i, wss_frame_t **fs, size_t n, const char *what) {
    MC_CHECK(n > 0, "plugin:frames", "%s of the extension %s is called without frames", what, xn[i]);
    for (size_t k = 0; k < n; k++) {
        MC_CHECK((k == 0) == (fs[k]->opcode != 0) && (k == n - 1) == fs[k]->fin, "plugin:frames", "%s of the extension %s is called with frames that do not make one message (frame %zu of %zu: type %d%s)", what, xn[i], k + 1, n, fs[k]->opcode, fs[k]->fin ? ", final" : "");
        lens(i, fs[k], what);
    }
    MC_CHECK(fs[0]->opcode < 8 || n == 1, "plugin:frames", "%s of %s gets a fragmented control frame", what, xn[i]);
}
static bool *rsv(wss_frame_t *f, int i) { return i == 0 ? &f->rsv1 : i == 1 ? &f->rsv2 : &f->rsv3; }
static void x_inframes(int i, int fd, wss_frame_t **fs, size_t n) {
    used(i, fd, "inFrames"); msgs(i, fs, n, "inFrames");
    MC_CHECK(seenfr[i] == (int)n, "plugin:frames", "inFrames of %s gets %zu frames, inFrame was called for %d", xn[i], n, seenfr[i]);
    seenfr[i] = 0;
    if (fs[0]->opcode >= 8) return;
    shrunk(i, fs[n - 1], 'A' + i, "inFrames");
    MC_CHECK(*rsv(fs[0], i), "plugin:rsv", "the reserved bit of the extension %s is lost", xn[i]);
    *rsv(fs[0], i) = false;
}
static int outleft[NX], xcount = -1, counted;
static void x_outframes(int i, int fd, wss_frame_t **fs, size_t n) {
    used(i, fd, "outFrames"); msgs(i, fs, n, "outFrames");
    MC_CHECK(!outleft[i], "plugin:frames", "outFrames of %s is called while %d frames of the last message were not given to outFrame", xn[i], outleft[i]);
    outleft[i] = n;
    if (fs[0]->opcode >= 8) return;
    grown(i, fs[n - 1], xcount >= 0 ? '0' + xcount++ : 'A' + i);
    counted++;
    *rsv(fs[0], i) = true;
}
static void x_outframe(int i, int fd, wss_frame_t *f) {
    used(i, fd, "outFrame"); lens(i, f, "outFrame");
    MC_CHECK(outleft[i]-- > 0, "plugin:frames", "outFrame of %s is called for a frame that was not in outFrames", xn[i]);
    if (f->opcode >= 8) return;
    if (!i && xdata) {
        f->payload = xs[i].r(f->payload, f->payloadLength + 1);
        memmove(f->payload + 1, f->payload, f->payloadLength);
        f->payload[0] = '#'; f->payloadLength++; f->extensionDataLength = 1;
    }
    grown(i, f, 'a' + i);
}
static void x_close(int i, int fd) {
    used(i, fd, "onClose");
    xopen[i][fd] = 0; ncloses[i]++;
    MC_CHECK(open_fd_state[fd] == 0, "plugin:close-early", "the extension %s is closed for descriptor %d before the application is told that the connection ends", xn[i], fd);
}
static void x_destroy(int i) {
    alive(i, "onDestroy"); xs[i].destroys++;
    for (int f = 0; f < 128; f++) MC_CHECK(!xopen[i][f], "plugin:destroy-open", "the extension %s is destroyed while descriptor %d uses it", xn[i], f);
}
#define EXT(i) \
    static void x##i##_py(void) { x_py(i); } static void x##i##_own(void) { x_own(i); } \
    static void x##i##_al(void *m, void *r, void *f) { x_alloc(i, m, r, f); } static void x##i##_in(char *c) { x_init(i, c); } \
    static void x##i##_op(int fd, char *p, char **a, bool *v) { x_open(i, fd, p, a, v); } \
    static void x##i##_if(int fd, wss_frame_t *f) { x_inframe(i, fd, f); } static void x##i##_is(int fd, wss_frame_t **f, size_t n) { x_inframes(i, fd, f, n); } \
    static void x##i##_of(int fd, wss_frame_t *f) { x_outframe(i, fd, f); } static void x##i##_os(int fd, wss_frame_t **f, size_t n) { x_outframes(i, fd, f, n); } \
    static void x##i##_cl(int fd) { x_close(i, fd); } static void x##i##_de(void) { x_destroy(i); }
EXT(0) EXT(1) EXT(2)
#define SYMS(i, n) { { "setAllocators", x##i##_al }, { "onInit", x##i##_in }, { "onOpen", x##i##_op }, { "inFrame", x##i##_if }, { "inFrames", x##i##_is }, \
    { "outFrame", x##i##_of }, { "outFrames", x##i##_os }, { "onClose", x##i##_cl }, { "onDestroy", x##i##_de }, { "PyInit_" n, x##i##_py }, { n, x##i##_own }, { 0, 0 } }
static sim_sym_t xsyms[NX][12] = { SYMS(0, "xa"), SYMS(1, "x-b"), SYMS(2, "xc_3") };
/* ------------------------------------------------------ test subprotocols */
static const char *sn[2] = { "chat", "v1-news" };
static send_fn s_send[2]; static int s_msgs[2], s_conns[2], s_ends[2];
static void s_alive(int i, const char *f) { MC_CHECK(ss[i].inits == 1 && ss[i].allocs == 1 && !ss[i].destroys, "plugin:uninitialised", "%s of the subprotocol %s is called before it was set up or after it was destroyed", f, sn[i]); }
static void s_py(int i) { MC_CHECK(!ss[i].allocs, "plugin:order", "the Python module of %s is initialised late", sn[i]); ss[i].pyinits++; }
static void s_own(int i) { mc_fail("plugin:undocumented", "a function of the subprotocol %s that is none of the interface is called", sn[i]); }
static void s_alloc(int i, void *m, void *r, void *f) { MC_CHECK(m && r && f && !ss[i].inits && !ss[i].allocs++, "plugin:order", "setAllocators of %s is called late, twice or without functions", sn[i]); ss[i].m = m; ss[i].r = r; ss[i].f = f; }
static void s_init(int i, char *c, send_fn s) {
    MC_CHECK(ss[i].allocs == 1 && !ss[i].inits++ && s, "plugin:order", "onInit of %s is called early, twice or without a function to send with", sn[i]);
    MC_CHECK(!!c == !!ss[i].cfg && (!c || !strcmp(c, ss[i].cfg)), "plugin:config", "the subprotocol %s is configured with '%s' instead of '%s'", sn[i], c ? c : "(null)", ss[i].cfg ? ss[i].cfg : "(null)");
    s_send[i] = s;
}
static void s_con(int i, int fd, char *ip, int port, char *path, char *ck) { (void)ip; (void)port; (void)path; (void)ck; s_alive(i, "onConnect"); MC_CHECK(!open_fd_state[fd], "plugin:connect-twice", "descriptor %d is announced twice", fd); open_fd_state[fd] = i + 2; s_conns[i]++; }
static void s_msg(int i, int fd, wss_opcode_t op, char *m, size_t n) {
    s_alive(i, "onMessage"); MC_CHECK(open_fd_state[fd] == i + 2, "plugin:wrong", "a message of descriptor %d goes to the subprotocol %s, which does not serve it", fd, sn[i]); s_msgs[i]++;
    /* the application uses the memory functions it was given */
    char *b = ss[i].m(n + 2); b[0] = '0' + i; b[1] = ':'; if (n) memcpy(b + 2, m, n);
    b = ss[i].r(b, n + 3); b[n + 2] = '!';
    s_send[i](fd, op, b, n + 3); ss[i].f(b);
}
static void s_wr(int fd, char *m, size_t n) { (void)fd; (void)m; (void)n; }
static void s_cl(int i, int fd) { s_alive(i, "onClose"); MC_CHECK(open_fd_state[fd] == i + 2, "plugin:close-twice", "the end of descriptor %d is told to %s, which does not serve it", fd, sn[i]); open_fd_state[fd] = 0; s_ends[i]++; }
static void s_de(int i) { s_alive(i, "onDestroy"); ss[i].destroys++; MC_CHECK(s_conns[i] == s_ends[i], "plugin:destroy-open", "the subprotocol %s is destroyed while connections use it", sn[i]); }
#define SUB(i) static void s##i##_py(void) { s_py(i); } static void s##i##_own(void) { s_own(i); } static void s##i##_al(void *m, void *r, void *f) { s_alloc(i, m, r, f); } static void s##i##_in(char *c, send_fn s) { s_init(i, c, s); } \
    static void s##i##_co(int fd, char *ip, int p, char *pa, char *ck) { s_con(i, fd, ip, p, pa, ck); } static void s##i##_ms(int fd, wss_opcode_t o, char *m, size_t n) { s_msg(i, fd, o, m, n); } \
    static void s##i##_cl(int fd) { s_cl(i, fd); } static void s##i##_de(void) { s_de(i); }
SUB(0) SUB(1)
#define SSYMS(i, n) { { "setAllocators", s##i##_al }, { "onInit", s##i##_in }, { "onConnect", s##i##_co }, { "onMessage", s##i##_ms }, { "onWrite", s_wr }, { "onClose", s##i##_cl }, { "onDestroy", s##i##_de }, { "PyInit_" n, s##i##_py }, { n, s##i##_own }, { 0, 0 } }
static sim_sym_t ssyms[2][10] = { SSYMS(0, "chat"), SSYMS(1, "v1-news") };

/* ------------------------------------------------------------ set-up */
static char *paths[6], *cfgs[6];
static const char *xfile[NX] = { "/opt/plugins.d/xa.so", "x-b.so", "../lib/xc_3" };
static const char *sfile[2] = { "/usr/lib/wss.1/chat.so", "v1-news.so" };
static const char *base(const char *p) { const char *b = strrchr(p, '/'); return b ? b + 1 : p; }
static const char *xcfgs[NX] = { "level=1;", NULL, "" };
static void use_exts(const int *order, int n) {
    for (int k = 0; k < n; k++) { int i = order[k]; paths[k] = (char *)xfile[i]; cfgs[k] = (char *)xcfgs[i]; xs[i].cfg = xcfgs[i]; }
    cfg.extensions = paths; cfg.extensions_config = cfgs; cfg.extensions_length = n;
}
static void reg(void) {
    for (int i = 0; i < NX; i++) sim_register_plugin(base(xfile[i]), xsyms[i]);
    for (int i = 0; i < 2; i++) sim_register_plugin(base(sfile[i]), ssyms[i]);
}
static void ended(void) {
    srv_stop();
    for (int i = 0; i < NX; i++) {
        MC_CHECK(xs[i].destroys == xs[i].inits, "plugin:destroy", "the extension %s is set up %d times and destroyed %d times", xn[i], xs[i].inits, xs[i].destroys);
        MC_CHECK(nopens[i] == ncloses[i], "plugin:close", "the extension %s is opened for %d connections and closed for %d", xn[i], nopens[i], ncloses[i]);
        MC_CHECK(sim_dl_opens(base(xfile[i])) == sim_dl_closes(base(xfile[i])), "plugin:unload", "the library of the extension %s is not unloaded as often as it is loaded", xn[i]);
        MC_CHECK(xs[i].pyinits == xs[i].inits, "plugin:python", "the Python module of the extension %s is initialised %d times", xn[i], xs[i].pyinits);
    }
    for (int i = 0; i < 2; i++) {
        MC_CHECK(ss[i].destroys == ss[i].inits, "plugin:destroy", "the subprotocol %s is set up %d times and destroyed %d times", sn[i], ss[i].inits, ss[i].destroys);
        MC_CHECK(sim_dl_opens(base(sfile[i])) == sim_dl_closes(base(sfile[i])), "plugin:unload", "the library of the subprotocol %s is not unloaded as often as it is loaded", sn[i]);
        MC_CHECK(ss[i].pyinits == ss[i].inits, "plugin:python", "the Python module of the subprotocol %s is initialised %d times", sn[i], ss[i].pyinits);
    }
}
/* ---------------------------------------------------------- the client */
static int act[40][NX], nact[40];   /* extensions in use, in the order of the answer */
typedef struct { uint8_t p[80000]; size_t n; } pl_t;
static int frames_of(pl_t *f, int n, int c) { /* what the extensions make of n frames; returns the reserved bits */
    int bits = 0;
    for (int e = 0; e < nact[c]; e++) {
        int i = act[c][e];
        f[n - 1].p[f[n - 1].n++] = 'A' + i;
        for (int k = 0; k < n; k++) {
            if (!i && xdata) { memmove(f[k].p + 1, f[k].p, f[k].n); f[k].p[0] = '#'; f[k].n++; }
            f[k].p[f[k].n++] = 'a' + i;
        }
        bits |= 4 >> i;
    }
    return bits;
}
static pl_t *fb;                    /* work space */
static int split(const uint8_t *m, size_t n, size_t sz) {
    int k = 0;
    do { size_t l = n < sz ? n : sz; memcpy(fb[k].p, m, l); fb[k].n = l; k++; m += l; n -= l; } while (n);
    return k;
}
static void csend(int c, int op, int nf, bool ping) { /* sends the nf frames in fb */
    int bits = frames_of(fb, nf, c);
    for (int k = 0; k < nf; k++) {
        ws_send(c, (k == nf - 1 ? 128 : 0) | (k ? 0 : bits << 4 | op), fb[k].p, fb[k].n);
        if (ping && k == 0) ws_send(c, 0x89, "pp", 2);
    }
}
static void cexpect(int c, int op, const void *m, size_t n, const char *ctx) {
    int nf = split(m, n, cfg.size_frame), bits = frames_of(fb, nf, c);
    for (int k = 0; k < nf; k++) {
        ofr_t f;
        int r = out_frame(c, &f);
        MC_CHECK(r == 1, "plugin:missing", "%s: frame %d of %d does not arrive", ctx, k + 1, nf);
        MC_CHECK(f.op == (k ? 0 : op) && f.fin == (k == nf - 1), "plugin:frame", "%s: frame %d of %d has type %d%s", ctx, k + 1, nf, f.op, f.fin ? " and is final" : "");
        MC_CHECK(f.rsv == (k ? 0 : bits), "plugin:rsv", "%s: frame %d has the reserved bits %d instead of %d", ctx, k + 1, f.rsv, k ? 0 : bits);
        MC_CHECK(f.len == fb[k].n && !memcmp(f.p, fb[k].p, f.len), "plugin:bytes", "%s: frame %d has the payload %s instead of %s", ctx, k + 1, hexs(f.p, f.len), hexs(fb[k].p, fb[k].n));
    }
}
static void cpong(int c, const char *ctx) {
    ofr_t f;
    MC_CHECK(out_frame(c, &f) == 1 && f.op == 10 && f.fin && !f.rsv && f.len == 2 && !memcmp(f.p, "pp", 2), "plugin:pong", "%s: the ping is not answered as it was sent", ctx);
}
/* connects with an offer; act is taken from the answer */
static int copen(const char *proto, const char *offer) {
    char h[1500], ext[400] = "";
    if (offer) snprintf(ext, sizeof ext, "Sec-WebSocket-Extensions: %s\r\n", offer);
    int c = ws_open_ex(PORT, proto, ext, h, sizeof h);
    nact[c] = 0;
    char *p = strcasestr(h, "Sec-WebSocket-Extensions:");
    if (p) {
        p += 25;
        char *e = strstr(p, "\r\n"); *e = 0;
        for (char *s, *t = strtok_r(p, ",", &s); t; t = strtok_r(NULL, ",", &s)) {
            while (*t == ' ') t++;
            int i = 0; size_t l = strcspn(t, "; ");
            while (i < NX && (strlen(xn[i]) != l || strncmp(t, xn[i], l))) i++;
            MC_CHECK(i < NX, "plugin:answer", "the server answers with the extension '%s'", t);
            MC_CHECK(nact[c] < NX, "plugin:answer", "the server answers with too many extensions");
            act[c][nact[c]++] = i;
        }
    }
    return c;
}
static const char *offer_of(int *want, int *nwant, const char **names) { /* chosen: an ordered selection of extensions, each with a parameter */
    static char o[300]; int used_ = 0; o[0] = 0; *nwant = 0;
    int n = mc_choose(NX + 1, "extensions");
    for (int k = 0; k < n; k++) {
        int j = mc_choose(NX - k, "extension"), i = 0;
        for (;; i++) if (!(used_ >> i & 1) && j-- == 0) break;
        used_ |= 1 << i;
        if (k) strcat(o, k & 1 ? "," : " , ");
        strcat(o, names[i]);
        want[(*nwant)++] = i;
    }
    return n ? o : NULL;
}
/* messages through all selections of extensions */
static const struct { int op; int parts; bool ping; size_t n; } plan[] = {
    { 1, 1, 0, 5 }, { 2, 1, 0, 0 }, { 1, 2, 0, 6 }, { 2, 3, 1, 7 }, { 1, 3, 0, 0 }, { 2, 1, 1, 118 }, { 2, 1, 0, 119 }, { 2, 1, 0, 123 }, { 2, 1, 0, 125 }, { 2, 2, 1, 250 }, { 2, 10, 1, 40 }, { 1, 30, 0, 31 }, { 2, 1, 0, 65529 }, { 2, 1, 0, 65533 }, { 2, 1, 0, 65535 } };
#define NPLAN ((int)(sizeof plan / sizeof *plan))
static uint8_t *text_;
static void exchange(int c, int k, const char *ctx) {
    size_t n = plan[k].n, off = 0; int fd = sim_fd_of(c), parts = plan[k].parts, e0 = npev;
    for (size_t i = 0; i < n; i++) text_[i] = 33 + (i * 7 + k) % 90;
    for (int i = 0; i < parts; i++) { size_t l = i == parts - 1 ? n - off : n / parts; memcpy(fb[i].p, text_ + off, l); fb[i].n = l; off += l; }
    csend(c, plan[k].op, parts, plan[k].ping);
    sim_quiesce();
    if (n) MC_CHECK(npev == e0 + 1 && pev[e0].type == EV_MESSAGE && pev[e0].fd == fd && pev[e0].op == plan[k].op && pev[e0].len == n && !memcmp(pev[e0].data, text_, n), "plugin:message", "%s: the application gets %s", ctx, npev > e0 ? hexs(pev[e0].data, pev[e0].len) : "nothing");
    else MC_CHECK(npev == e0 + 1 && pev[e0].len == 0, "plugin:message", "%s: the application does not get the empty message", ctx);
    if (plan[k].ping && parts > 1) cpong(c, ctx);
    cexpect(c, plan[k].op, text_, n, ctx);
    if (plan[k].ping && parts == 1) cpong(c, ctx);
    MC_CHECK(!sim_server_closed(c), "plugin:closed", "%s: the connection is closed", ctx);
}
static void s_pipeline(long arg) {
    xdata = arg & 1; int two = arg >> 1 & 1, fs = arg >> 2;
    static const size_t fsz[] = { 1048576, 24, 9 };
    cfg.size_frame = fsz[fs];
    static const int ord[NX] = { 2, 0, 1 };
    use_exts(ord, NX); reg();
    srv_start();
    mc_checkpoint();
    fb = sim_xalloc(sizeof *fb * 48); text_ = sim_xalloc(70000);
    int want[NX], nw, c[2] = { 0, 0 }; char ctx[300];
    for (int k = 0; k <= two; k++) {
        const char *o = offer_of(want, &nw, xn);
        c[k] = copen("probe", o);
        MC_CHECK(nact[c[k]] == nw && !memcmp(act[c[k]], want, nw * sizeof(int)), "plugin:answer", "the offer '%s' is not answered with the same extensions in the same order (%d of %d, %d)", o ? o : "", nact[c[k]], nw, act[c[k]][0]);
        for (int i = 0; i < NX; i++) { bool in = false; for (int j = 0; j < nw; j++) in |= want[j] == i; MC_CHECK(xopen[i][sim_fd_of(c[k])] == in, "plugin:open", "the extension %s is %sopened for the offer '%s'", xn[i], in ? "not " : "", o ? o : ""); }
    }
    int k0 = mc_choose(NPLAN, "message");
    /* with its additions a frame has to fit into what the server accepts */
    for (int r = 0; r <= two; r++) if ((plan[k0].n + plan[k0].parts - 1) / plan[k0].parts + (plan[k0].n % plan[k0].parts) + 2 * nact[c[r]] + 1 > cfg.size_frame) mc_prune();
    for (int r = 0; r < 2; r++) for (int k = 0; k <= two; k++) {
        snprintf(ctx, sizeof ctx, "message %d on connection %d with %d extensions, %d fragments, %zu bytes", r + 1, k + 1, nact[c[k]], plan[k0].parts, plan[k0].n);
        exchange(c[k], r ? (cfg.size_frame < 12) : k0, ctx);
    }
    sim_close_client(c[0]); sim_quiesce();
    for (int i = 0; i < NX; i++) MC_CHECK(ncloses[i] == (two ? nopens[i] - xopen[i][sim_fd_of(c[1])] : nopens[i]), "plugin:close", "the extension %s is not told that the connection has ended", xn[i]);
    if (two) exchange(c[1], cfg.size_frame < 12, "the second connection after the first has ended");
    ended();
    mc_outcome(mc_hash(k0, act, sizeof act));
    if (mc_want_sample()) mc_sample("%s", ctx);
}
/* offers with parameters, repetitions, refusals and unknown extensions */
static void s_offers(long arg) {
    static const int ord[NX] = { 0, 1, 2 };
    use_exts(ord, NX); reg();
    srv_start();
    mc_checkpoint();
    fb = sim_xalloc(sizeof *fb * 8); text_ = sim_xalloc(70000);
    static const char *item[] = { "xa", "x-b", "xa; p=1", "x-b;p=2", "xa;no", "x-b;no", "nope", "xc_3;q;r=7", "xc", "x" };
    static const struct { int x; const char *param; int ok; } it[] = { { 0, "", 1 }, { 1, "", 1 }, { 0, "p=1", 1 }, { 1, "p=2", 1 }, { 0, "no", 0 }, { 1, "no", 0 }, { -1, "", 0 }, { 2, "q;r=7", 1 }, { -1, "", 0 }, { -1, "", 0 } };
    char o[200] = ""; int want[NX], nw = 0; char asked[8][40]; int na = 0; const char *par[NX];
    bool lines = arg & 1; int n = 1 + (arg >> 1);
    for (int k = 0; k < n; k++) {
        int j = mc_choose(10, "offer");
        if (k) strcat(o, lines ? "\r\nSec-WebSocket-Extensions: " : ", ");
        strcat(o, item[j]);
        bool in = false;
        for (int w = 0; w < nw; w++) in |= want[w] == it[j].x;
        if (it[j].x < 0 || in) continue;
        snprintf(asked[na++], 40, "%s|%s", xn[it[j].x], it[j].param);
        if (it[j].ok) { par[nw] = it[j].param; want[nw++] = it[j].x; }
    }
    char h[1500], ext[300];
    snprintf(ext, sizeof ext, "Sec-WebSocket-Extensions: %s\r\n", o);
    int c = ws_open_ex(PORT, "probe", ext, h, sizeof h);
    MC_CHECK(nxparam == na, "plugin:asked", "for the offer '%s' the extensions are asked %d times instead of %d", o, nxparam, na);
    for (int k = 0; k < na; k++) MC_CHECK(!strcmp(xparam[k], asked[k]), "plugin:asked", "for the offer '%s' the extensions are asked '%s' instead of '%s'", o, xparam[k], asked[k]);
    char wantl[200] = "", got[200] = ""; 
    for (int k = 0; k < nw; k++) { if (k) strcat(wantl, ","); strcat(wantl, xn[want[k]]); if (!strncmp(par[k], "p=", 2)) { strcat(wantl, ";r="); strncat(wantl, par[k] + 2, 1); } }
    char *p = strcasestr(h, "Sec-WebSocket-Extensions:");
    if (p) { p += 25; for (char *q = got; *p != '\r'; p++) if (*p != ' ') { *q++ = *p; *q = 0; } }
    MC_CHECK(!!strcasestr(h, "Sec-WebSocket-Extensions:") == !!nw && !strcmp(got, wantl), "plugin:answer", "the offer '%s' is answered with '%s' instead of '%s'", o, got, wantl);
    nact[c] = nw; memcpy(act[c], want, nw * sizeof(int));
    exchange(c, 0, o); exchange(c, 3, o);
    ended();
    mc_outcome(mc_hash(n, h, strlen(h)));
    if (mc_want_sample()) mc_sample("%s -> %s", o, got);
}
/* messages that wait: what the extension has seen arrives, once and in its order */
static void s_queue(long arg) {
    int ring = 2 + (arg & 3);
    cfg.size_ringbuffer = ring;
    static const int ord[1] = { 1 };
    use_exts(ord, 1); reg();
    srv_start();
    mc_checkpoint();
    fb = sim_xalloc(sizeof *fb * 8); text_ = sim_xalloc(70000);
    int c = copen("probe", "x-b"), fd = sim_fd_of(c), n = 1 + mc_choose(7, "messages"), sent = 0, got = 0, pings = 0; char ctx[200];
    MC_CHECK(nact[c] == 1, "plugin:answer", "the extension is not used");
    static const int wins[] = { 0, 1, 2, 5, 7, 8, 12, 14 };
    int w = wins[mc_choose(8, "window")], half = mc_choose(n + 1, "opened after"), po = mc_choose(2, "ping");
    snprintf(ctx, sizeof ctx, "%d messages, room for %d, window %d until message %d%s", n, ring, w, half, po ? ", a ping" : "");
    xcount = 0; counted = 0;
    sim_window(c, w);
    for (int k = 0; k < n; k++) {
        if (k == half) { sim_window(c, -1); sim_quiesce(); }
        if (po && k == n / 2) { ws_send(c, 0x89, "pp", 2); sim_quiesce(); pings++; }
        char m[4] = { 'm', 'A' + k, 0 };
        psend(fd, 1, m, 2); sent++;
        sim_quiesce();
    }
    sim_window(c, -1); sim_quiesce();
    ofr_t f; int last = -1;
    while (out_frame(c, &f) == 1) {
        if (f.op == 10) { pings--; MC_CHECK(!f.rsv, "plugin:pong", "%s: the answer to the ping has reserved bits", ctx); continue; }
        MC_CHECK(f.op == 1 && f.fin && f.rsv == 2 && f.len == 4 && f.p[0] == 'm' && f.p[3] == 'b', "plugin:bytes", "%s: a message arrives as %s", ctx, hexs(f.p, f.len));
        MC_CHECK(f.p[2] == '0' + got, "plugin:lost", "%s: message %d of the extension arrives as number %d: what the extension has seen is lost or out of order", ctx, f.p[2] - '0', got);
        MC_CHECK(f.p[1] - 'A' > last, "plugin:order", "%s: message %d arrives after message %d", ctx, f.p[1] - 'A', last);
        last = f.p[1] - 'A'; got++;
    }
    MC_CHECK(!sim_server_closed(c), "plugin:closed", "%s: the connection is closed", ctx);
    MC_CHECK(got == counted, "plugin:lost", "%s: the extension has seen %d messages, %d arrive", ctx, counted, got);
    if (n < ring || half == 0) MC_CHECK(got == n || po, "plugin:missing", "%s: %d messages arrive", ctx, got);
    xcount = -1;
    exchange(c, 0, ctx);
    ended();
    mc_outcome(mc_hash(got, ctx, strlen(ctx)));
    if (mc_want_sample()) mc_sample("%s: %d arrive", ctx, got);
}
/* plug-ins that are not complete */
static void s_load(long arg) {
    bool subs = arg & 1; int n = subs ? 2 : NX, nsym = subs ? 7 : 9;
    mc_checkpoint();
    fb = sim_xalloc(sizeof *fb * 8); text_ = sim_xalloc(70000);
    int perm[NX], np = 0, used_ = 0; bool bad[NX] = { 0 }; char ctx[200] = ""; int l = 0;
    for (int k = 0; k < n; k++) {
        int j = mc_choose(n - k, "order"), i = 0;
        for (;; i++) if (!(used_ >> i & 1) && j-- == 0) break;
        used_ |= 1 << i; perm[np++] = i;
    }
    /* a free place for a plug-in that does not exist, at the front, in between or at the end */
    int gone = mc_choose(n + 2, "missing file") - 1;
    for (int k = 0; k < n; k++) {
        int i = perm[k], m = mc_choose(nsym + 1, "missing function") - 1;
        if (m >= 0) { bad[i] = true; if (subs) ssyms[i][m].name = "onceUponATime"; else xsyms[i][m].name = "onceUponATime"; }
        l += snprintf(ctx + l, sizeof ctx - l, "%s%s", m < 0 ? "" : m == nsym ? "?" : "broken ", subs ? sn[i] : xn[i]);
        if (k < n - 1) l += snprintf(ctx + l, sizeof ctx - l, ", ");
    }
    int np2 = 0;
    for (int k = 0; k <= n; k++) {
        if (gone == k) { paths[np2] = "/nowhere/ghost.so"; cfgs[np2++] = "boo"; }
        if (k == n) break;
        int i = perm[k];
        static char *cf[] = { "one=1", "", "three" };
        paths[np2] = (char *)(subs ? sfile[i] : xfile[i]); cfgs[np2++] = cf[i];
        if (subs) ss[i].cfg = cf[i]; else xs[i].cfg = cf[i];
    }
    static char *psub[5], *pcfg[5];
    if (subs) {
        for (int k = 0; k < np2; k++) { psub[k] = paths[k]; pcfg[k] = cfgs[k]; }
        psub[np2] = srv_subs[2]; pcfg[np2] = NULL;
        cfg.subprotocols = psub; cfg.subprotocols_config = pcfg; cfg.subprotocols_length = np2 + 1;
    } else { cfg.extensions = paths; cfg.extensions_config = cfgs; cfg.extensions_length = np2; }
    reg();
    srv_start();
    for (int i = 0; i < n; i++) {
        int a = subs ? ss[i].allocs : xs[i].allocs, b = subs ? ss[i].inits : xs[i].inits;
        MC_CHECK(a == !bad[i] && b == !bad[i], "plugin:load", "%s: %s is %sset up", ctx, subs ? sn[i] : xn[i], a || b ? "" : "not ");
    }
    if (!subs) {
        int c = copen("probe", "xa, ghost, x-b, xc_3");
        int w = 0;
        for (int i = 0; i < NX; i++) if (!bad[i]) { MC_CHECK(w < nact[c] && act[c][w] == i, "plugin:answer", "%s: %s is not available", ctx, xn[i]); w++; }
        MC_CHECK(w == nact[c], "plugin:answer", "%s: more extensions are available than were loaded", ctx);
        exchange(c, 0, ctx); exchange(c, 2, ctx);
    } else {
        probe_echo = true;
        for (int i = 0; i < 2; i++) {
            char h[1500], ask[60]; snprintf(ask, sizeof ask, "%s, ghost, probe", sn[i]);
            int c = ws_open_ex(PORT, ask, NULL, h, sizeof h);
            char line[80]; snprintf(line, sizeof line, "Sec-WebSocket-Protocol: %s\r\n", bad[i] ? "probe" : sn[i]);
            MC_CHECK(strcasestr(h, line), "plugin:answer", "%s: the request for '%s' is not answered with '%s'", ctx, ask, bad[i] ? "probe" : sn[i]);
            ws_text(c, "hi"); sim_quiesce();
            uint8_t b[32]; size_t k; char w[16]; snprintf(w, sizeof w, bad[i] ? "hi" : "%d:hi!", i);
            MC_CHECK(out_msg(c, b, sizeof b, &k) == 1 && k == strlen(w) && !memcmp(b, w, k), "plugin:wrong", "%s: the subprotocol %s does not answer", ctx, bad[i] ? "probe" : sn[i]);
            if (i) { sim_close_client(c); sim_quiesce(); }
        }
    }
    ended();
    for (int i = 0; i < n; i++) MC_CHECK(sim_dl_opens(base(subs ? sfile[i] : xfile[i])) == 1, "plugin:load", "%s: %s is loaded %d times", ctx, subs ? sn[i] : xn[i], sim_dl_opens(base(subs ? sfile[i] : xfile[i])));
    mc_outcome(mc_hash(n, bad, sizeof bad));
    if (mc_want_sample()) mc_sample("%s", ctx);
}
/* connections that end at every step, in every way */
static void s_ends_(long arg) {
    int port = arg & 1 ? TPORT : PORT;
    static const int ord[NX] = { 1, 2, 0 };
    use_exts(ord, NX); reg();
    srv_start();
    mc_checkpoint();
    fb = sim_xalloc(sizeof *fb * 8); text_ = sim_xalloc(70000);
    static const char *line[] = { "", "Sec-WebSocket-Version: 99\r\n", "Upgrade: nonsense\r\n", "Sec-WebSocket-Protocol: none\r\n", "Sec-WebSocket-Key: bad\r\n", "bad\x01header: x\r\n" };
    char b[2048], x[300], ctx[300];
    int want[NX], nw;
    static const char *names[NX] = { "xa;p=1", "x-b", "xc_3;no" };
    const char *o = offer_of(want, &nw, names);
    int w = mc_choose(6, "request"), at = mc_choose(2, "where");
    char e[300] = ""; if (o) snprintf(e, sizeof e, "Sec-WebSocket-Extensions: %s\r\n", o);
    snprintf(x, sizeof x, "%s%s", at ? e : line[w], at ? line[w] : e);
    char pre[2] = { 0x16, 0 }; int n = port == TPORT ? (b[0] = pre[0], 1) : 0;
    n += ws_request(b + n, sizeof b - n, "/", w == 3 ? NULL : "probe", x);
    int cut = mc_choose(3, "cut"); /* the whole request, without its end, half of it */
    if (cut == 1) n -= 2;
    if (cut == 2) n = n * 2 / 3;
    int c = sim_connect(port), fd;
    sim_send(c, b, n); sim_quiesce();
    fd = sim_fd_of(c);
    int code = take_response(c, NULL, 0), how = mc_choose(6, "end");
    snprintf(ctx, sizeof ctx, "offer '%s', request %d%s, answer %d, end %d", o ? o : "", w, cut ? " cut" : "", code, how);
    if (code == 101) {
        nact[c] = 0; for (int k = 0; k < nw; k++) if (want[k] != 2) act[c][nact[c]++] = want[k];
        if (w != 3) exchange(c, 0, ctx);
    }
    if (!sim_server_closed(c)) {
        if (how == 0) sim_close_client(c);
        else if (how == 1) sim_reset_client(c);
        else if (how == 2 && code == 101) ws_send(c, 0x88, "\x03\xe8", 2);
        else if (how == 3 && code == 101) ws_send(c, 0x83, "x", 1);
        else if (how == 4 && code == 101) { ws_send(c, 0x01, "x", 1); sim_reset_client(c); }
        /* 5: the server stops first */
        sim_quiesce();
    }
    if (sim_server_closed(c)) for (int i = 0; i < NX; i++) MC_CHECK(!xopen[i][fd], "plugin:close", "%s: the extension %s is not told that the connection has ended", ctx, xn[i]);
    ended();
    mc_outcome(mc_hash(w * 100 + how, ctx, strlen(ctx)));
    if (mc_want_sample()) mc_sample("%s", ctx);
}
void harness_init(void) {
    bool T = sim_thorough;
    memset(&sim_cfg, 0, sizeof sim_cfg);
    sim_cfg.max_steps = 2000000; sim_cfg.max_sleeps = 50;
    srv_defaults();
    cfg.ssl_key = "key"; cfg.ssl_cert = "cert"; cfg.ssl_ca_file = "ca";
    cfg.size_buffer = 80000;
    char nm[120];
    for (int x = 0; x < 2; x++) for (int two = 0; two < 2; two++) for (int f = 0; f < 3; f++) {
        snprintf(nm, sizeof nm, "messages, frame size %d, %d connections%s", f, two + 1, x ? ", extension data" : "");
        sim_scenario(nm, s_pipeline, x | two << 1 | f << 2);
    }
    for (int l = 0; l < 2; l++) for (int n = 0; n < (T ? 4 : 3); n++) { if (l && !n) continue; snprintf(nm, sizeof nm, "%d offers%s", n + 1, l ? " in lines of their own" : ""); sim_scenario(nm, s_offers, l | n << 1); }
    for (int r = 0; r < (T ? 4 : 3); r++) { snprintf(nm, sizeof nm, "waiting messages, queue of %d", r + 2); sim_scenario(nm, s_queue, r); }
    sim_scenario("incomplete extensions", s_load, 0);
    sim_scenario("incomplete subprotocols", s_load, 1);
    sim_scenario("ends", s_ends_, 0);
    sim_scenario("ends over TLS", s_ends_, 1);
}

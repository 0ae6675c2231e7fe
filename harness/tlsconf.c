/* W31: TLS is served with what the configuration says, or not at all. */
#include "srv.h"
#include <openssl/ssl.h>
#include <sys/mman.h>
const char *harness_rule = "every combination of the TLS settings, with every call that hands one of them to the TLS library failing in turn, is executed from the start of the server to its stop; what the library has been told when the first client is served is compared with the configuration";
static sim_mem_t mem0; static uint64_t seq0; static int fds0;
static const char *opt(const char *s, const char *label) { return mc_choose(2, label) ? s : NULL; }
static bool same(const char *is, const char *want) { return !strcmp(is, want ? want : ""); }
static void all_ended(const char *ctx) {
    MC_CHECK(sim_live_threads() == 0, "tlsconf:threads", "%s: %d threads are left\n%s", ctx, sim_live_threads(), sim_threads_text());
    MC_CHECK(sim_open_fds() == fds0, "tlsconf:fds", "%s: %d descriptors are left open", ctx, sim_open_fds() - fds0);
    MC_CHECK(sim_connect(PORT) < 0 && sim_connect(TPORT) < 0, "tlsconf:listening", "%s: the server still accepts connections", ctx);
    MC_CHECK(tls_ctxs == tls_ctx_frees && tls_dhs == tls_dh_frees && tls.news == tls.frees, "tlsconf:objects", "%s: %d contexts, %d parameters and %d connections of the TLS library are made, and %d, %d and %d released", ctx, tls_ctxs, tls_dhs, tls.news, tls_ctx_frees, tls_dh_frees, tls.frees);
    sim_mem_t m = sim_live();
    MC_CHECK(m.blocks == mem0.blocks, "tlsconf:leak", "%s: %lld blocks are not released\n%s", ctx, (long long)(m.blocks - mem0.blocks), sim_live_text(seq0));
    MC_CHECK(probe_inits == probe_destroys, "tlsconf:application", "%s: the application is initialised %d times and destroyed %d times", ctx, probe_inits, probe_destroys);
}
static void s_conf(long arg) {
    register_repo_plugins();
    sim_register_plugin("probe.so", probe_syms);
    static char dhpath[64];
    if (!dhpath[0]) { int fd = memfd_create("dh", 0); dprintf(fd, "params"); snprintf(dhpath, sizeof dhpath, "/proc/self/fd/%d", fd); }
    mem0 = sim_live(); seq0 = sim_alloc_seq(); fds0 = sim_open_fds();
    mc_checkpoint();
    cfg.ssl_cert = (char *)"the certificate"; cfg.ssl_key = (char *)"the key"; cfg.ssl_ca_file = (char *)"authority"; cfg.ssl_ca_path = NULL;
    if (arg == 0) { /* what is there */
        cfg.ssl_cert = (char *)opt(cfg.ssl_cert, "certificate"); cfg.ssl_key = (char *)opt(cfg.ssl_key, "key");
    }
    int ca = mc_choose(arg == 0 ? 4 : 3, "authorities");
    if (ca == 3) cfg.ssl_ca_file = NULL;
    else { if (ca == 1) cfg.ssl_ca_file = NULL; if (ca) cfg.ssl_ca_path = (char *)"authorities"; }
    cfg.ssl_peer_cert = mc_choose(2, "client certificates"); cfg.ssl_compression = mc_choose(2, "compression");
    cfg.ssl_cipher_list = (char *)opt("AAA:BBB", "cipher list"); cfg.ssl_cipher_suites = (char *)opt("TLS_CCC", "cipher suites");
    int dh = mc_choose(3, "dhparam");
    cfg.ssl_dhparam = dh == 0 ? NULL : dh == 1 ? dhpath : (char *)"/nowhere/dhparam.pem";
    tls.mismatch = arg == 0 ? 0 : mc_choose(2, "key of another certificate");
    char ctx[300];
    snprintf(ctx, sizeof ctx, "cert %d, key %d, ca %d, ca path %d, client certificates %d, compression %d, ciphers %d, suites %d, dhparam %d%s", !!cfg.ssl_cert, !!cfg.ssl_key, !!cfg.ssl_ca_file, !!cfg.ssl_ca_path, cfg.ssl_peer_cert, cfg.ssl_compression, !!cfg.ssl_cipher_list, !!cfg.ssl_cipher_suites, dh, tls.mismatch ? ", key of another certificate" : "");
    bool want = cfg.ssl_cert && cfg.ssl_key && (cfg.ssl_ca_file || cfg.ssl_ca_path);
    tls.f_ctx = sim_cfg.fault_budget > 0;
    sim_faults_on = true;
    srv_tid = sim_spawn("main", srv_main, NULL);
    sim_quiesce();
    sim_faults_on = false;
    int nfault = tls_ctx_failed;
    if (srv_ret != -12345) {
        MC_CHECK(want && (tls.mismatch || nfault), "tlsconf:refused", "%s: the server does not start", ctx);
        MC_CHECK(srv_ret != 0, "tlsconf:status", "%s: the server returns %d although it did not start", ctx, srv_ret);
        all_ended(ctx);
        mc_outcome(1);
        return;
    }
    sim_mark_idle();
    int p = ws_open("probe");
    ws_text(p, "plain"); sim_quiesce();
    uint8_t b[16]; size_t n;
    MC_CHECK(out_msg(p, b, sizeof b, &n) == 1 && n == 5, "tlsconf:plain", "%s: a plain client is not served", ctx);
    if (!want) { MC_CHECK(sim_connect(TPORT) < 0, "tlsconf:incomplete", "%s: the server listens for TLS", ctx); MC_CHECK(tls.news == 0, "tlsconf:incomplete", "%s: TLS is used", ctx); }
    else {
        int c = ws_open_ex(TPORT, "probe", NULL, NULL, 0);
        ws_text(c, "secret"); sim_quiesce();
        MC_CHECK(out_msg(c, b, sizeof b, &n) == 1 && n == 6, "tlsconf:serve", "%s: a TLS client is not served", ctx);
        tls_ctx_t *t = &tls_ctx;
        MC_CHECK(t->live && tls_ctxs - tls_ctx_frees == 1, "tlsconf:context", "%s: there are %d contexts", ctx, tls_ctxs - tls_ctx_frees);
        MC_CHECK(!tls.mismatch && t->has_cert && t->has_key && t->checked, "tlsconf:credentials", "%s: TLS is served without a certificate and a key that were loaded and belong together (certificate %d, key %d, checked %d)", ctx, t->has_cert, t->has_key, t->checked);
        MC_CHECK(same(t->cert, cfg.ssl_cert) && same(t->key, cfg.ssl_key), "tlsconf:credentials", "%s: TLS is served with the certificate '%s' and the key '%s'", ctx, t->cert, t->key);
        MC_CHECK(t->has_ca && same(t->ca_file, cfg.ssl_ca_file) && same(t->ca_path, cfg.ssl_ca_path), "tlsconf:authorities", "%s: the authorities are '%s' and '%s'", ctx, t->ca_file, t->ca_path);
        int both = SSL_VERIFY_PEER | SSL_VERIFY_FAIL_IF_NO_PEER_CERT;
        MC_CHECK(cfg.ssl_peer_cert ? (t->verify & both) == both : !(t->verify & SSL_VERIFY_FAIL_IF_NO_PEER_CERT), "tlsconf:peer", "%s: the verification of clients is %d", ctx, t->verify);
        MC_CHECK(same(t->ciphers, cfg.ssl_cipher_list), "tlsconf:ciphers", "%s: the allowed ciphers are '%s'", ctx, t->ciphers);
        MC_CHECK(same(t->suites, cfg.ssl_cipher_suites), "tlsconf:ciphers", "%s: the allowed cipher suites are '%s'", ctx, t->suites);
        MC_CHECK(!(t->options & SSL_OP_NO_COMPRESSION) == cfg.ssl_compression, "tlsconf:compression", "%s: compression is %s", ctx, t->options & SSL_OP_NO_COMPRESSION ? "disabled" : "enabled");
        MC_CHECK((dh == 1 && !nfault) <= t->dh && t->dh <= (dh == 1), "tlsconf:dhparam", "%s: parameters are %s", ctx, t->dh ? "used" : "not used");
    }
    srv_stop();
    MC_CHECK(srv_ret == 0, "tlsconf:status", "%s: the server returns %d", ctx, srv_ret);
    all_ended(ctx);
    mc_outcome(mc_hash(nfault, ctx, strlen(ctx)));
    if (mc_want_sample()) mc_sample("%s: %s", ctx, want ? "served" : "plain only");
}
void harness_init(void) {
    memset(&sim_cfg, 0, sizeof sim_cfg);
    sim_cfg.max_steps = 2000000; sim_cfg.max_sleeps = 50;
    srv_defaults();
    sim_scenario("what is configured", s_conf, 0);
    sim_cfg.fault_budget = 1;
    sim_scenario("failures", s_conf, 1);
    if (sim_thorough) { sim_cfg.fault_budget = 3; sim_scenario("up to three failures", s_conf, 1); }
}

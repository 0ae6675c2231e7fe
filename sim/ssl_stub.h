#ifndef SSL_STUB_H
#define SSL_STUB_H
#include <stdbool.h>
#include <stdint.h>
#include <stddef.h>
/* what a context has been told */
typedef struct { bool made, has_cert, has_key, checked, has_ca; char cert[80], key[80], ca_file[80], ca_path[80], ciphers[80], suites[80]; int verify; uint64_t options; long mode; int dh; int objects; bool live; } tls_ctx_t;
extern tls_ctx_t tls_ctx;   /* the last one that was made */
extern int tls_ctx_failed, tls_ctxs, tls_ctx_frees, tls_dhs, tls_dh_frees;
typedef struct {
    bool f_ctx;     /* the functions that configure a context may fail */
    bool mismatch;  /* the key does not belong to the certificate */
    bool f_read, f_write, f_err, f_partial, f_shut_read, f_shut_write, check_retry;
    int news, frees, shutdowns, wants;
} tls_cfg_t;
extern tls_cfg_t tls;
void oracle_sha1(const void *d, size_t n, uint8_t out[20]);
size_t oracle_b64(const uint8_t *d, size_t n, char *o);
#endif

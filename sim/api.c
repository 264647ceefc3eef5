/* Thin C entry points to the library interfaces of /repo, for the C++ harness. */
#include "platform.h"
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "crypto_entropy.h"
#include "crypto_scrypt.h"
#include "crypto_aes.h"
#include "crypto_aesctr.h"
#include "sha256.h"
#include "readpass.h"
#include "passphrase_entry.h"
#include "scryptenc.h"
#include "scryptenc_print_error.h"
#include "warnp.h"

extern int sim_crypto_scrypt(const uint8_t *, size_t, const uint8_t *, size_t, uint64_t, uint32_t, uint32_t, uint8_t *, size_t);

static void
setp(struct scryptenc_params * P, size_t maxmem, double frac, double maxtime, int logN, uint32_t r, uint32_t p)
{
	memset(P, 0, sizeof *P);
	P->maxmem = maxmem; P->maxmemfrac = frac; P->maxtime = maxtime;
	P->logN = logN; P->r = r; P->p = p;
}

int api_enc_buf(const uint8_t * in, size_t n, uint8_t * out, const uint8_t * pw, size_t pl,
    size_t maxmem, double frac, double maxtime, int logN, uint32_t r, uint32_t p, int verbose, int force)
{
	struct scryptenc_params P;
	setp(&P, maxmem, frac, maxtime, logN, r, p);
	return (scryptenc_buf(in, n, out, pw, pl, &P, verbose, force));
}
int api_dec_buf(const uint8_t * in, size_t n, uint8_t * out, size_t * outlen, const uint8_t * pw, size_t pl,
    size_t maxmem, double frac, double maxtime, int verbose, int force)
{
	struct scryptenc_params P;
	setp(&P, maxmem, frac, maxtime, 0, 0, 0);
	return (scryptdec_buf(in, n, out, outlen, pw, pl, &P, verbose, force));
}
int api_enc_file(FILE * in, FILE * out, const uint8_t * pw, size_t pl,
    size_t maxmem, double frac, double maxtime, int logN, uint32_t r, uint32_t p, int verbose, int force)
{
	struct scryptenc_params P;
	setp(&P, maxmem, frac, maxtime, logN, r, p);
	return (scryptenc_file(in, out, pw, pl, &P, verbose, force));
}
int api_dec_file(FILE * in, FILE * out, const uint8_t * pw, size_t pl,
    size_t maxmem, double frac, double maxtime, int verbose, int force)
{
	struct scryptenc_params P;
	setp(&P, maxmem, frac, maxtime, 0, 0, 0);
	return (scryptdec_file(in, out, pw, pl, &P, verbose, force));
}
int api_printparams(FILE * in) { return (scryptdec_file_printparams(in)); }
int api_entropy_read(uint8_t * b, size_t n) { return (crypto_entropy_read(b, n)); }
int api_readpass(char ** pw, const char * pr, const char * cp, int devtty) { return (readpass(pw, pr, cp, devtty)); }
int api_readpass_file(char ** pw, const char * fn) { return (readpass_file(pw, fn)); }
void api_setprogname(void) { warnp_setprogname("scrypt"); }
int api_rc(const char * n)
{
#define C(x) if (strcmp(n, #x) == 0) return (x)
	C(SCRYPT_OK); C(SCRYPT_ELIMIT); C(SCRYPT_ECLOCK); C(SCRYPT_EKEY); C(SCRYPT_ESALT); C(SCRYPT_EOPENSSL);
	C(SCRYPT_ENOMEM); C(SCRYPT_EINVAL); C(SCRYPT_EVERSION); C(SCRYPT_ETOOBIG); C(SCRYPT_ETOOSLOW);
	C(SCRYPT_EBIGSLOW); C(SCRYPT_EPASS); C(SCRYPT_EWRFILE); C(SCRYPT_ERDFILE); C(SCRYPT_EPARAM);
	return (-99);
}

/* Primitives, driven piecewise. */
void * api_key(const uint8_t * k, size_t n) { return (crypto_aes_key_expand(k, n)); }
void api_key_free(void * k) { crypto_aes_key_free(k); }
void api_block(const uint8_t * in, uint8_t * out, const void * k) { crypto_aes_encrypt_block(in, out, k); }
void * api_ctr(const void * k, uint64_t nonce) { return (crypto_aesctr_init(k, nonce)); }
void * api_ctr2(const void * k, uint64_t nonce) { struct crypto_aesctr * s = crypto_aesctr_alloc(); if (s != NULL) crypto_aesctr_init2(s, k, nonce); return (s); }
void api_ctr_reset(void * s, const void * k, uint64_t nonce) { crypto_aesctr_init2(s, k, nonce); }
void api_ctr_stream(void * s, const uint8_t * in, uint8_t * out, size_t n) { crypto_aesctr_stream(s, in, out, n); }
void api_ctr_free(void * s) { crypto_aesctr_free(s); }
void api_ctr_buf(const void * k, uint64_t nonce, const uint8_t * in, uint8_t * out, size_t n) { crypto_aesctr_buf(k, nonce, in, out, n); }
void api_sha(const uint8_t * d, const size_t * piece, size_t npiece, uint8_t out[32]) { SHA256_CTX c; SHA256_Init(&c); for (size_t i = 0; i < npiece; d += piece[i++]) SHA256_Update(&c, d, piece[i]); SHA256_Final(out, &c); }
void api_hmac(const uint8_t * k, size_t kl, const uint8_t * d, const size_t * piece, size_t npiece, uint8_t out[32]) { HMAC_SHA256_CTX c; HMAC_SHA256_Init(&c, k, kl); for (size_t i = 0; i < npiece; d += piece[i++]) HMAC_SHA256_Update(&c, d, piece[i]); HMAC_SHA256_Final(out, &c); }
void api_pbkdf2(const uint8_t * pw, size_t pl, const uint8_t * s, size_t sl, uint64_t c, uint8_t * o, size_t n) { PBKDF2_SHA256(pw, pl, s, sl, c, o, n); }

/* The two-step decryption interface and passphrase methods. */
int api_dec_prep(FILE * in, const uint8_t * pw, size_t pl, size_t maxmem, double maxtime, int force, void ** cookie)
{
	struct scryptenc_params P;
	struct scryptdec_file_cookie * C = NULL;
	int rc;
	setp(&P, maxmem, 0.5, maxtime, 0, 0, 0);
	rc = scryptdec_file_prep(in, pw, pl, &P, 0, force, &C);
	*cookie = rc ? NULL : C;
	return (rc);
}
int api_dec_copy(void * C, FILE * out) { return (scryptdec_file_copy(C, out)); }
void api_dec_free(void * C) { scryptdec_file_cookie_free(C); }
int api_pass_entry(char ** pw, const char * methodarg, int once)
{
	enum passphrase_entry m = PASSPHRASE_UNSET;
	const char * a = NULL;
	if (passphrase_entry_parse(methodarg, &m, &a)) return (-1);
	return (passphrase_entry_readpass(pw, m, a, "Prompt", "Again", once));
}

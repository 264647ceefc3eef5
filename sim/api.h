#pragma once
#include <cstdint>
#include <cstdio>
extern "C" {
int api_enc_buf(const uint8_t *, size_t, uint8_t *, const uint8_t *, size_t, size_t, double, double, int, uint32_t, uint32_t, int, int);
int api_dec_buf(const uint8_t *, size_t, uint8_t *, size_t *, const uint8_t *, size_t, size_t, double, double, int, int);
int api_enc_file(FILE *, FILE *, const uint8_t *, size_t, size_t, double, double, int, uint32_t, uint32_t, int, int);
int api_dec_file(FILE *, FILE *, const uint8_t *, size_t, size_t, double, double, int, int);
int api_printparams(FILE *);
int api_entropy_read(uint8_t *, size_t);
int api_readpass(char **, const char *, const char *, int);
int api_readpass_file(char **, const char *);
void api_setprogname(void);
int api_rc(const char *);
int crypto_scrypt(const uint8_t *, size_t, const uint8_t *, size_t, uint64_t, uint32_t, uint32_t, uint8_t *, size_t);
int sim_crypto_scrypt(const uint8_t *, size_t, const uint8_t *, size_t, uint64_t, uint32_t, uint32_t, uint8_t *, size_t);
void *api_key(const uint8_t *, size_t); void api_key_free(void *); void api_block(const uint8_t *, uint8_t *, const void *);
void *api_ctr(const void *, uint64_t); void *api_ctr2(const void *, uint64_t); void api_ctr_reset(void *, const void *, uint64_t); void api_ctr_stream(void *, const uint8_t *, uint8_t *, size_t); void api_ctr_free(void *); void api_ctr_buf(const void *, uint64_t, const uint8_t *, uint8_t *, size_t);
void api_sha(const uint8_t *, const size_t *, size_t, uint8_t *); void api_hmac(const uint8_t *, size_t, const uint8_t *, const size_t *, size_t, uint8_t *); void api_pbkdf2(const uint8_t *, size_t, const uint8_t *, size_t, uint64_t, uint8_t *, size_t);
int api_dec_prep(FILE *, const uint8_t *, size_t, size_t, double, int, void **); int api_dec_copy(void *, FILE *); void api_dec_free(void *); int api_pass_entry(char **, const char *, int);
void *sim_malloc(size_t); void sim_free(void *);
FILE *sim_fopen(const char *, const char *); int sim_fclose(FILE *);
}

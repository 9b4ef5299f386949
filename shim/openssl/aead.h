// BoringSSL's AEAD interface, implemented with OpenSSL 3 in harness/boring.cpp.
#pragma once

#include <openssl/evp.h>

#include <cstddef>
#include <cstdint>

#define EVP_AEAD_DEFAULT_TAG_LENGTH 0

typedef struct evp_aead_st EVP_AEAD;
typedef struct evp_aead_ctx_st EVP_AEAD_CTX;

extern "C" {
const EVP_AEAD *EVP_aead_aes_128_gcm(void);
const EVP_AEAD *EVP_aead_aes_256_gcm(void);
const EVP_AEAD *EVP_aead_chacha20_poly1305(void);
size_t EVP_AEAD_key_length(const EVP_AEAD *);
size_t EVP_AEAD_nonce_length(const EVP_AEAD *);
size_t EVP_AEAD_max_overhead(const EVP_AEAD *);
EVP_AEAD_CTX *EVP_AEAD_CTX_new(const EVP_AEAD *, const uint8_t *, size_t, size_t);
void EVP_AEAD_CTX_free(EVP_AEAD_CTX *);
int EVP_AEAD_CTX_seal(const EVP_AEAD_CTX *, uint8_t *, size_t *, size_t, const uint8_t *, size_t, const uint8_t *,
                      size_t, const uint8_t *, size_t);
int EVP_AEAD_CTX_open(const EVP_AEAD_CTX *, uint8_t *, size_t *, size_t, const uint8_t *, size_t, const uint8_t *,
                      size_t, const uint8_t *, size_t);
}

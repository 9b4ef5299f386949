// BoringSSL's AEAD, HKDF and ChaCha20 functions, implemented with OpenSSL 3.
#include <openssl/aead.h>
#include <openssl/chacha.h>
#include <openssl/hkdf.h>

#include <openssl/core_names.h>
#include <openssl/crypto.h>
#include <openssl/evp.h>
#include <openssl/kdf.h>
#include <openssl/params.h>

#include <cstring>
#include <vector>

struct evp_aead_st {
  int kind;
  size_t key;
};

struct evp_aead_ctx_st {
  const EVP_AEAD *aead;
  std::vector<uint8_t> key;
};

namespace {

const EVP_AEAD AEADS[] = { { 0, 16 }, { 1, 32 }, { 2, 32 } };
const size_t TAG = 16;
const size_t NONCE = 12;

// Fetched algorithms live for the whole process, so that OpenSSL's own caches don't
// count as memory the code under test holds on to.
const EVP_CIPHER *
cipher(int kind)
{
  switch (kind) {
    case 0:
      return EVP_aes_128_gcm();
    case 1:
      return EVP_aes_256_gcm();
    default:
      return EVP_chacha20_poly1305();
  }
}

int
hkdf(int mode, const EVP_MD *md, const uint8_t *key, size_t key_size, const uint8_t *salt, size_t salt_size,
     const uint8_t *info, size_t info_size, uint8_t *out, size_t size)
{
  static EVP_KDF *kdf = EVP_KDF_fetch(nullptr, "HKDF", nullptr);
  EVP_KDF_CTX *ctx = EVP_KDF_CTX_new(kdf);
  static uint8_t none[1];
  OSSL_PARAM params[6];
  int n = 0;
  params[n++] = OSSL_PARAM_construct_int(OSSL_KDF_PARAM_MODE, &mode);
  params[n++] =
    OSSL_PARAM_construct_utf8_string(OSSL_KDF_PARAM_DIGEST, const_cast<char *>(EVP_MD_get0_name(md)), 0);
  params[n++] =
    OSSL_PARAM_construct_octet_string(OSSL_KDF_PARAM_KEY, key_size == 0 ? none : const_cast<uint8_t *>(key), key_size);
  if (salt_size != 0) {
    params[n++] = OSSL_PARAM_construct_octet_string(OSSL_KDF_PARAM_SALT, const_cast<uint8_t *>(salt), salt_size);
  }
  if (info_size != 0) {
    params[n++] = OSSL_PARAM_construct_octet_string(OSSL_KDF_PARAM_INFO, const_cast<uint8_t *>(info), info_size);
  }
  params[n] = OSSL_PARAM_construct_end();
  int rv = EVP_KDF_derive(ctx, out, size, params);
  EVP_KDF_CTX_free(ctx);
  return rv == 1;
}

}

extern "C" {

const EVP_AEAD *
EVP_aead_aes_128_gcm(void)
{
  return &AEADS[0];
}

const EVP_AEAD *
EVP_aead_aes_256_gcm(void)
{
  return &AEADS[1];
}

const EVP_AEAD *
EVP_aead_chacha20_poly1305(void)
{
  return &AEADS[2];
}

size_t
EVP_AEAD_key_length(const EVP_AEAD *aead)
{
  return aead->key;
}

size_t
EVP_AEAD_nonce_length(const EVP_AEAD *)
{
  return NONCE;
}

size_t
EVP_AEAD_max_overhead(const EVP_AEAD *)
{
  return TAG;
}

EVP_AEAD_CTX *
EVP_AEAD_CTX_new(const EVP_AEAD *aead, const uint8_t *key, size_t size, size_t tag)
{
  if (size != aead->key || (tag != 0 && tag != TAG)) {
    return nullptr;
  }
  return new EVP_AEAD_CTX{ aead, std::vector<uint8_t>(key, key + size) };
}

void
EVP_AEAD_CTX_free(EVP_AEAD_CTX *ctx)
{
  delete ctx;
}

int
EVP_AEAD_CTX_seal(const EVP_AEAD_CTX *ctx, uint8_t *out, size_t *out_size, size_t max, const uint8_t *nonce,
                  size_t nonce_size, const uint8_t *in, size_t size, const uint8_t *ad, size_t ad_size)
{
  if (nonce_size != NONCE || max < size + TAG) {
    // As BoringSSL does, so that a caller that ignores the failure can't use it.
    if (max != 0) {
      memset(out, 0, max);
    }
    *out_size = 0;
    return 0;
  }
  EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
  int n = 0;
  uint8_t dummy[32];
  bool ok = EVP_EncryptInit_ex(c, cipher(ctx->aead->kind), nullptr, ctx->key.data(), nonce) == 1;
  if (ok && ad_size != 0) {
    ok = EVP_EncryptUpdate(c, nullptr, &n, ad, static_cast<int>(ad_size)) == 1;
  }
  if (ok && size != 0) {
    ok = EVP_EncryptUpdate(c, out, &n, in, static_cast<int>(size)) == 1;
  }
  ok = ok && EVP_EncryptFinal_ex(c, dummy, &n) == 1 &&
       EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_GET_TAG, TAG, out + size) == 1;
  EVP_CIPHER_CTX_free(c);
  *out_size = ok ? size + TAG : 0;
  return ok;
}

int
EVP_AEAD_CTX_open(const EVP_AEAD_CTX *ctx, uint8_t *out, size_t *out_size, size_t max, const uint8_t *nonce,
                  size_t nonce_size, const uint8_t *in, size_t in_size, const uint8_t *ad, size_t ad_size)
{
  if (nonce_size != NONCE || in_size < TAG || max < in_size - TAG) {
    if (max != 0) {
      memset(out, 0, max);
    }
    *out_size = 0;
    return 0;
  }
  size_t size = in_size - TAG;
  uint8_t tag[TAG];
  memcpy(tag, in + size, TAG);
  EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
  int n = 0;
  uint8_t dummy[32];
  bool ok = EVP_DecryptInit_ex(c, cipher(ctx->aead->kind), nullptr, ctx->key.data(), nonce) == 1;
  if (ok && ad_size != 0) {
    ok = EVP_DecryptUpdate(c, nullptr, &n, ad, static_cast<int>(ad_size)) == 1;
  }
  if (ok && size != 0) {
    ok = EVP_DecryptUpdate(c, out, &n, in, static_cast<int>(size)) == 1;
  }
  ok = ok && EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_SET_TAG, TAG, tag) == 1 &&
       EVP_DecryptFinal_ex(c, dummy, &n) == 1;
  EVP_CIPHER_CTX_free(c);
  if (!ok && max != 0) {
    memset(out, 0, max);
  }
  *out_size = ok ? size : 0;
  return ok;
}

int
HKDF_extract(uint8_t *out, size_t *out_size, const EVP_MD *md, const uint8_t *secret, size_t secret_size,
             const uint8_t *salt, size_t salt_size)
{
  size_t size = static_cast<size_t>(EVP_MD_get_size(md));
  *out_size = size;
  return hkdf(EVP_KDF_HKDF_MODE_EXTRACT_ONLY, md, secret, secret_size, salt, salt_size, nullptr, 0, out, size);
}

int
HKDF_expand(uint8_t *out, size_t size, const EVP_MD *md, const uint8_t *prk, size_t prk_size, const uint8_t *info,
            size_t info_size)
{
  size_t digest = static_cast<size_t>(EVP_MD_get_size(md));
  if ((size + digest - 1) / digest > 255) {
    return 0;
  }
  if (size == 0) {
    return 1;
  }
  return hkdf(EVP_KDF_HKDF_MODE_EXPAND_ONLY, md, prk, prk_size, nullptr, 0, info, info_size, out, size);
}

void
CRYPTO_chacha_20(uint8_t *out, const uint8_t *in, size_t size, const uint8_t key[32], const uint8_t nonce[12],
                 uint32_t counter)
{
  uint8_t iv[16];
  for (int i = 0; i < 4; i++) {
    iv[i] = static_cast<uint8_t>(counter >> (8 * i));
  }
  memcpy(iv + 4, nonce, 12);
  EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
  int n = 0;
  EVP_EncryptInit_ex(c, EVP_chacha20(), nullptr, key, iv);
  EVP_EncryptUpdate(c, out, &n, in, static_cast<int>(size));
  EVP_CIPHER_CTX_free(c);
}
}

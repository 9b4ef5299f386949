// QUIC packet protection written from RFC 5869, RFC 8446 7.1, RFC 8439 and
// draft-ietf-quic-tls-22, with HMAC, AES-ECB and the AEADs taken from OpenSSL.
#pragma once

#include <openssl/evp.h>
#include <openssl/hmac.h>

#include <cstdint>
#include <cstring>
#include <optional>
#include <string>
#include <vector>

namespace ref {
namespace crypto {

using bytes = std::vector<uint8_t>;

inline const EVP_MD *
md(int hash)
{
  return hash == 0 ? EVP_sha256() : EVP_sha384();
}

inline size_t
digest(int hash)
{
  return hash == 0 ? 32 : 48;
}

inline bytes
hmac(int hash, const bytes &key, const bytes &data)
{
  bytes out(digest(hash));
  unsigned n = 0;
  static const uint8_t none[1] = {};
  HMAC(md(hash), key.empty() ? none : key.data(), static_cast<int>(key.size()), data.empty() ? none : data.data(),
       data.size(), out.data(), &n);
  return out;
}

// RFC 5869 2.2: a salt that is not given is a string of HashLen zeros.
inline bytes
extract(int hash, const bytes &secret, const bytes &salt)
{
  return hmac(hash, salt.empty() ? bytes(digest(hash)) : salt, secret);
}

inline std::optional<bytes>
expand(int hash, const bytes &prk, const bytes &info, size_t size)
{
  if (size > 255 * digest(hash)) {
    return std::nullopt;
  }
  bytes out, t;
  for (uint8_t i = 1; out.size() < size; i++) {
    bytes in = t;
    in.insert(in.end(), info.begin(), info.end());
    in.push_back(i);
    t = hmac(hash, prk, in);
    out.insert(out.end(), t.begin(), t.end());
  }
  out.resize(size);
  return out;
}

inline std::optional<bytes>
expand_label(int hash, const bytes &secret, const std::string &label, size_t size)
{
  bytes info;
  std::string full = "tls13 " + label;
  info.push_back(static_cast<uint8_t>(size >> 8));
  info.push_back(static_cast<uint8_t>(size & 0xff));
  info.push_back(static_cast<uint8_t>(full.size()));
  info.insert(info.end(), full.begin(), full.end());
  info.push_back(0);
  return expand(hash, secret, info, size);
}

inline size_t
key_size(int aead)
{
  return aead == 0 ? 16 : 32;
}

// RFC 8439 2.3
inline bytes
chacha_block(const bytes &key, uint32_t counter, const uint8_t *nonce)
{
  auto word = [](const uint8_t *p) {
    return static_cast<uint32_t>(p[0]) | static_cast<uint32_t>(p[1]) << 8 | static_cast<uint32_t>(p[2]) << 16 |
           static_cast<uint32_t>(p[3]) << 24;
  };
  uint32_t s[16] = { 0x61707865, 0x3320646e, 0x79622d32, 0x6b206574 };
  for (int i = 0; i < 8; i++) {
    s[4 + i] = word(key.data() + 4 * i);
  }
  s[12] = counter;
  for (int i = 0; i < 3; i++) {
    s[13 + i] = word(nonce + 4 * i);
  }
  uint32_t x[16];
  memcpy(x, s, sizeof x);
  auto rot = [](uint32_t v, int n) { return v << n | v >> (32 - n); };
  auto quarter = [&](int a, int b, int c, int d) {
    x[a] += x[b], x[d] = rot(x[d] ^ x[a], 16);
    x[c] += x[d], x[b] = rot(x[b] ^ x[c], 12);
    x[a] += x[b], x[d] = rot(x[d] ^ x[a], 8);
    x[c] += x[d], x[b] = rot(x[b] ^ x[c], 7);
  };
  for (int i = 0; i < 10; i++) {
    quarter(0, 4, 8, 12), quarter(1, 5, 9, 13), quarter(2, 6, 10, 14), quarter(3, 7, 11, 15);
    quarter(0, 5, 10, 15), quarter(1, 6, 11, 12), quarter(2, 7, 8, 13), quarter(3, 4, 9, 14);
  }
  bytes out(64);
  for (int i = 0; i < 16; i++) {
    uint32_t v = x[i] + s[i];
    for (int j = 0; j < 4; j++) {
      out[4 * i + j] = static_cast<uint8_t>(v >> (8 * j));
    }
  }
  return out;
}

// draft-ietf-quic-tls-22 5.4.3 and 5.4.4
inline bytes
mask(int aead, const bytes &key, const bytes &sample)
{
  bytes out(16);
  if (aead == 2) {
    uint32_t counter = static_cast<uint32_t>(sample[0]) | static_cast<uint32_t>(sample[1]) << 8 |
                       static_cast<uint32_t>(sample[2]) << 16 | static_cast<uint32_t>(sample[3]) << 24;
    out = chacha_block(key, counter, sample.data() + 4);
  } else {
    EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
    int n = 0;
    EVP_EncryptInit_ex(c, aead == 0 ? EVP_aes_128_ecb() : EVP_aes_256_ecb(), nullptr, key.data(), nullptr);
    EVP_CIPHER_CTX_set_padding(c, 0);
    EVP_EncryptUpdate(c, out.data(), &n, sample.data(), 16);
    EVP_CIPHER_CTX_free(c);
  }
  out.resize(5);
  return out;
}

inline bytes
seal(int aead, const bytes &key, const bytes &nonce, const bytes &ad, const bytes &in)
{
  EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
  const EVP_CIPHER *e = aead == 0 ? EVP_aes_128_gcm() : aead == 1 ? EVP_aes_256_gcm() : EVP_chacha20_poly1305();
  bytes out(in.size() + 16);
  uint8_t dummy[32];
  int n = 0;
  EVP_EncryptInit_ex(c, e, nullptr, key.data(), nonce.data());
  if (!ad.empty()) {
    EVP_EncryptUpdate(c, nullptr, &n, ad.data(), static_cast<int>(ad.size()));
  }
  if (!in.empty()) {
    EVP_EncryptUpdate(c, out.data(), &n, in.data(), static_cast<int>(in.size()));
  }
  EVP_EncryptFinal_ex(c, dummy, &n);
  EVP_CIPHER_CTX_ctrl(c, EVP_CTRL_AEAD_GET_TAG, 16, out.data() + in.size());
  EVP_CIPHER_CTX_free(c);
  return out;
}

}
}

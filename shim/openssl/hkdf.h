// Implemented in harness/boring.cpp.
#pragma once

#include <openssl/evp.h>

#include <cstddef>
#include <cstdint>

extern "C" {
int HKDF_extract(uint8_t *, size_t *, const EVP_MD *, const uint8_t *, size_t, const uint8_t *, size_t);
int HKDF_expand(uint8_t *, size_t, const EVP_MD *, const uint8_t *, size_t, const uint8_t *, size_t);
}

// QUIC variable-length integers (draft-ietf-quic-transport section 16), written
// from the specification text.
#pragma once

#include <cstdint>
#include <string>

namespace ref {

constexpr uint64_t VARINT_MAX = 4611686018427387903ULL;

// Length in bytes, 0 if it cannot be represented.
inline int
varint_size(uint64_t v)
{
  if (v <= 63) return 1;
  if (v <= 16383) return 2;
  if (v <= 1073741823) return 4;
  if (v <= VARINT_MAX) return 8;
  return 0;
}

inline std::string
varint_sized(uint64_t v, int size)
{
  std::string out(static_cast<size_t>(size), '\0');
  uint64_t rest = v;
  for (int i = size - 1; i >= 0; i--) {
    out[static_cast<size_t>(i)] = static_cast<char>(rest % 256);
    rest /= 256;
  }
  int log2 = size == 1 ? 0 : size == 2 ? 1 : size == 4 ? 2 : 3;
  out[0] = static_cast<char>(static_cast<uint8_t>(out[0]) + 64 * log2);
  return out;
}

inline std::string
varint(uint64_t v)
{
  return varint_sized(v, varint_size(v));
}

// Bytes used, 0 if incomplete.
inline size_t
varint_read(const std::string &s, size_t at, uint64_t *v)
{
  if (at >= s.size()) return 0;
  uint8_t first = static_cast<uint8_t>(s[at]);
  size_t size = first < 64 ? 1 : first < 128 ? 2 : first < 192 ? 4 : 8;
  if (s.size() - at < size) return 0;
  uint64_t value = first % 64;
  for (size_t i = 1; i < size; i++) {
    value = value * 256 + static_cast<uint8_t>(s[at + i]);
  }
  *v = value;
  return size;
}

}

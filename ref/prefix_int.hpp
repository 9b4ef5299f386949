// Prefixed integers (RFC 7541 section 5.1), written from the specification.
#pragma once

#include <cstdint>
#include <string>

namespace ref {

// `top` provides the bits above the prefix.
inline std::string
prefix_int(uint64_t value, int prefix, uint8_t top = 0)
{
  uint64_t limit = (uint64_t(1) << prefix) - 1;
  uint8_t keep = static_cast<uint8_t>(top & static_cast<uint8_t>(~limit));
  std::string out;
  if (value < limit) {
    out += static_cast<char>(keep + value);
    return out;
  }
  out += static_cast<char>(keep + limit);
  value -= limit;
  while (value > 127) {
    out += static_cast<char>(128 + value % 128);
    value /= 128;
  }
  out += static_cast<char>(value);
  return out;
}

struct prefix_read {
  enum { ok, incomplete, overflow, incomplete_overflow } status = incomplete;
  uint64_t value = 0;
  size_t end = 0;
};

inline prefix_read
prefix_int_read(const std::string &s, size_t at, int prefix)
{
  prefix_read r;
  if (at >= s.size()) return r;
  uint64_t limit = (uint64_t(1) << prefix) - 1;
  unsigned __int128 value = static_cast<uint8_t>(s[at]) & limit;
  at++;
  bool over = false;
  if (value == limit) {
    unsigned __int128 weight = 1;
    while (true) {
      if (at >= s.size()) {
        r.status = over ? prefix_read::incomplete_overflow : prefix_read::incomplete;
        return r;
      }
      uint8_t b = static_cast<uint8_t>(s[at++]);
      if (b % 128 != 0) {
        if (weight > UINT64_MAX) {
          over = true;
        } else {
          value += weight * (b % 128);
          over = over || value > UINT64_MAX;
        }
      }
      if (over) value = 0;
      if (weight <= UINT64_MAX) weight *= 128;
      if (b < 128) break;
    }
  }
  r.status = over ? prefix_read::overflow : prefix_read::ok;
  r.value = static_cast<uint64_t>(value);
  r.end = at;
  return r;
}

}

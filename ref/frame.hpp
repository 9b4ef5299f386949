// HTTP/3 frames (draft-ietf-quic-http section 4 as implemented by bnl), written
// from the specification text.
#pragma once

#include <ref/varint.hpp>

#include <array>
#include <cstdint>
#include <string>
#include <vector>

namespace ref {

enum frame_type : uint64_t {
  DATA = 0,
  HEADERS = 1,
  PRIORITY = 2,
  CANCEL_PUSH = 3,
  SETTINGS = 4,
  PUSH_PROMISE = 5,
  GOAWAY = 7,
  MAX_PUSH_ID = 13,
  DUPLICATE_PUSH = 14
};

inline bool
known(uint64_t type)
{
  return type <= 5 || type == 7 || type == 13 || type == 14;
}

struct frame {
  uint64_t type = 0;
  uint64_t id = 0;   // The identifier, or the size of DATA and HEADERS.
  uint64_t size = 0; // Header block size of PUSH_PROMISE.
  // PRIORITY
  int element = 0, dependency = 0;
  uint64_t element_id = 0, dependency_id = 0;
  uint8_t weight = 0;
  // SETTINGS
  uint64_t max_header_list_size = VARINT_MAX;
  uint64_t num_placeholders = 0;
  uint64_t table_capacity = 0;
  uint64_t blocked_streams = 0;

  bool operator==(const frame &o) const
  {
    return type == o.type && id == o.id && size == o.size &&
           element == o.element && dependency == o.dependency &&
           element_id == o.element_id && dependency_id == o.dependency_id &&
           weight == o.weight && max_header_list_size == o.max_header_list_size &&
           num_placeholders == o.num_placeholders &&
           table_capacity == o.table_capacity &&
           blocked_streams == o.blocked_streams;
  }
};

// The settings a SETTINGS payload made of (id, value) pairs stands for.
inline std::string
setting(uint64_t id, uint64_t value)
{
  return varint(id) + varint(value);
}

// Whether the frame can be encoded, and what is written for it (header block
// and body bytes excluded).
inline bool
encode(const frame &f, std::string *out)
{
  std::string payload;
  unsigned __int128 extra = 0;
  auto put = [&](uint64_t v) {
    if (varint_size(v) == 0) {
      return false;
    }
    payload += varint(v);
    return true;
  };
  switch (f.type) {
    case DATA:
    case HEADERS:
      extra = f.id;
      break;
    case PRIORITY:
      payload += static_cast<char>(f.element * 64 + f.dependency * 16);
      if (!put(f.element_id) || !put(f.dependency_id)) return false;
      payload += static_cast<char>(f.weight);
      break;
    case SETTINGS:
      // bnl writes all settings, except a zero number of placeholders.
      if (!put(6) || !put(f.max_header_list_size)) return false;
      if (f.num_placeholders != 0) {
        if (!put(9) || !put(f.num_placeholders)) return false;
      }
      if (!put(1) || !put(f.table_capacity)) return false;
      if (!put(7) || !put(f.blocked_streams)) return false;
      break;
    case PUSH_PROMISE:
      if (!put(f.id)) return false;
      extra = f.size;
      break;
    default:
      if (!put(f.id)) return false;
      break;
  }
  unsigned __int128 length = payload.size() + extra;
  if (length > VARINT_MAX) {
    return false;
  }
  *out = varint(f.type) + varint(static_cast<uint64_t>(length)) + payload;
  return true;
}

struct decoded {
  enum { ok, incomplete, malformed, incomplete_or_malformed } status = incomplete;
  frame f;
  size_t end = 0;                 // Bytes consumed when ok.
  std::vector<size_t> boundaries; // Of frames; when incomplete, decoding stops at the last.
};

inline decoded
decode(const std::string &s)
{
  decoded d;
  size_t at = 0;
  while (true) {
    d.boundaries.push_back(at);
    uint64_t type = 0, length = 0;
    size_t n = varint_read(s, at, &type);
    if (n == 0) return d;
    size_t p = at + n;
    n = varint_read(s, p, &length);
    if (n == 0) return d;
    p += n;
    size_t available = s.size() - p;

    if (!known(type)) {
      if (length > available) return d;
      at = p + static_cast<size_t>(length);
      continue;
    }

    d.f.type = type;
    if (type == DATA || type == HEADERS) {
      d.f.id = length;
      d.end = p;
      d.status = decoded::ok;
      return d;
    }

    // Parse the contents as if they were unbounded; `need` is where they end.
    size_t q = p;
    bool missing = false;
    auto get = [&](uint64_t *v) {
      size_t m = missing ? 0 : varint_read(s, q, v);
      if (m == 0) missing = true;
      q += m;
    };
    auto byte = [&](uint8_t *b) {
      if (missing || q >= s.size()) {
        missing = true;
        return;
      }
      *b = static_cast<uint8_t>(s[q++]);
    };
    switch (type) {
      case PRIORITY: {
        uint8_t b = 0;
        byte(&b);
        d.f.element = b / 64;
        d.f.dependency = b / 16 % 4;
        get(&d.f.element_id);
        get(&d.f.dependency_id);
        byte(&d.f.weight);
        break;
      }
      case SETTINGS:
        while (!missing && q - p < length) {
          uint64_t id = 0, value = 0;
          get(&id);
          get(&value);
          if (missing) break;
          if (id == 6) d.f.max_header_list_size = value;
          if (id == 9) d.f.num_placeholders = value;
          if (id == 1) d.f.table_capacity = value;
          if (id == 7) d.f.blocked_streams = value;
        }
        break;
      default:
        get(&d.f.id);
        break;
    }

    if (type == PUSH_PROMISE) {
      // Only the push id has to be there; the header block is the caller's.
      if (!missing && q - p <= length) {
        d.f.size = length - (q - p);
        d.end = q;
        d.status = decoded::ok;
      } else if (!missing) {
        d.status = decoded::malformed;
      } else {
        // A push id that cannot fit may be noticed at once.
        d.status = available >= length ? decoded::incomplete_or_malformed
                                       : decoded::incomplete;
      }
      return d;
    }

    if (missing) {
      d.status = available >= length ? decoded::incomplete_or_malformed
                                     : decoded::incomplete;
    } else if (q - p == length) {
      d.status = decoded::ok;
      d.end = q;
    } else if (q - p > length || available >= length) {
      d.status = decoded::malformed;
    } else {
      // The contents are over before the declared length, of which a part has
      // not arrived yet.
      d.status = decoded::incomplete_or_malformed;
    }
    return d;
  }
}

// Type of the first frame that is not unknown; false if not available yet.
inline bool
peek(const std::string &s, uint64_t *type)
{
  size_t at = 0;
  while (true) {
    size_t n = varint_read(s, at, type);
    if (n == 0) return false;
    if (known(*type)) return true;
    uint64_t length = 0;
    size_t p = at + n;
    n = varint_read(s, p, &length);
    if (n == 0) return false;
    p += n;
    if (length > s.size() - p) return false;
    at = p + static_cast<size_t>(length);
  }
}

}

// What a receiver has to report for the bytes of one stream, as a function of
// all bytes that arrived so far and of whether the stream ended. Written from
// the statements of C02, C04, C05 and C09.
#pragma once

#include <ref/frame.hpp>
#include <ref/qpack.hpp>

#include <set>
#include <string>
#include <vector>

namespace ref {

enum class role { client, server }; // Of the receiver.

// Error codes of bnl (bnl/http3/result.hpp).
constexpr uint64_t INTERNAL = 0x03, WRONG_STREAM = 0x0a, CLOSED_CRITICAL_STREAM = 0x0f,
                   MISSING_SETTINGS = 0x12, UNEXPECTED_FRAME = 0x13, MALFORMED_FRAME = 0x100,
                   QPACK_DECOMPRESSION_FAILED = 0x200, INCOMPLETE = 0x40ULL << 56U,
                   IDLE = INCOMPLETE + 1, DELEGATE = INCOMPLETE + 2,
                   NOT_IMPLEMENTED = INCOMPLETE + 3, VARINT_OVERFLOW = INCOMPLETE + 4,
                   MALFORMED_HEADER = INCOMPLETE + 5, STREAM_CLOSED = INCOMPLETE + 6,
                   INVALID_HANDLE = INCOMPLETE + 7;

struct expectation {
  std::vector<field> headers;
  bool section_ended = false; // The last of headers is the last of the section.
  std::string body;
  std::vector<frame> settings;
  // How it ends; several are possible where the statements leave a choice.
  bool open = false, finished = false, any_error = false;
  bool partial = false; // Less than that may have been reported.
  std::set<uint64_t> errors;

  expectation &ends_open()
  {
    open = true;
    return *this;
  }
  expectation &ends_finished()
  {
    finished = true;
    return *this;
  }
  expectation &fails(std::set<uint64_t> with)
  {
    errors.insert(with.begin(), with.end());
    return *this;
  }
};

// The error for a frame that is not allowed on a request stream.
inline uint64_t
request_frame_error(role r, uint64_t type, bool started)
{
  switch (type) {
    case DATA:
      return UNEXPECTED_FRAME;
    case SETTINGS:
    case MAX_PUSH_ID:
    case CANCEL_PUSH:
    case GOAWAY:
      return WRONG_STREAM;
    case PUSH_PROMISE:
    case DUPLICATE_PUSH:
      return r == role::client ? NOT_IMPLEMENTED : UNEXPECTED_FRAME;
    default: // PRIORITY
      return r == role::client || started ? UNEXPECTED_FRAME : NOT_IMPLEMENTED;
  }
}

inline expectation
request_stream(role r, const std::string &s, bool fin)
{
  expectation e;
  size_t at = 0;
  // More would be needed here: the stream may not end yet.
  auto incomplete = [&]() -> expectation & {
    return fin ? e.fails({ MALFORMED_FRAME }) : e.ends_open();
  };
  while (true) {
    if (at == s.size()) {
      if (!fin) {
        return e.ends_open();
      }
      return e.section_ended ? e.ends_finished() : e.fails({ MALFORMED_FRAME });
    }
    uint64_t type = 0, length = 0;
    size_t n = varint_read(s, at, &type);
    if (n == 0) {
      return incomplete();
    }
    if (known(type) && type != DATA && type != HEADERS) {
      decoded d = decode(s.substr(at));
      uint64_t error = request_frame_error(r, type, e.section_ended);
      switch (d.status) {
        case decoded::ok:
          return e.fails({ error });
        case decoded::malformed:
          return e.fails({ MALFORMED_FRAME });
        case decoded::incomplete:
          return incomplete();
        case decoded::incomplete_or_malformed:
          return incomplete().fails({ MALFORMED_FRAME });
      }
    }
    if (type == DATA && !e.section_ended) {
      // Refused, once the length is there at the latest.
      if (varint_read(s, at + n, &length) == 0) {
        return incomplete();
      }
      return e.fails({ UNEXPECTED_FRAME });
    }
    size_t m = varint_read(s, at + n, &length);
    if (m == 0) {
      return incomplete();
    }
    size_t p = at + n + m;
    size_t available = s.size() - p;
    size_t here = length < available ? static_cast<size_t>(length) : available;

    if (!known(type)) {
      if (length > available) {
        return incomplete();
      }
      at = p + here;
      continue;
    }

    if (type == DATA) {
      e.body += s.substr(p, here);
      if (length > available) {
        return incomplete();
      }
      at = p + here;
      continue;
    }

    // HEADERS
    if (e.section_ended) {
      // Trailers, which are ignored.
      if (length == 0) {
        e.fails({ MALFORMED_FRAME });
      }
      // Unknown frames may follow. Anything else may be an error.
      for (size_t q = p + here; q < s.size();) {
        uint64_t t = 0, l = 0;
        size_t a = varint_read(s, q, &t), b = a == 0 ? 0 : varint_read(s, q + a, &l);
        if (b == 0 || known(t) || l > s.size() - q - a - b) {
          e.any_error = true;
          break;
        }
        q += a + b + static_cast<size_t>(l);
      }
      if (length > available) {
        return incomplete();
      }
      return fin ? e.ends_finished() : e.ends_open();
    }
    if (length == 0) {
      return e.fails({ MALFORMED_FRAME });
    }
    std::string block = s.substr(p, here);
    bool complete = here == length;
    if (length < 2 || (complete && length == 2)) {
      // No room for the prefix, or no headers.
      if (!complete) {
        return incomplete().fails({ MALFORMED_FRAME, QPACK_DECOMPRESSION_FAILED });
      }
      return e.fails({ MALFORMED_FRAME, QPACK_DECOMPRESSION_FAILED });
    }
    if (length == 2) {
      return incomplete().fails({ MALFORMED_FRAME, QPACK_DECOMPRESSION_FAILED });
    }
    if (block.size() < 2) {
      return incomplete();
    }
    size_t q = 2;
    while (q < block.size()) {
      field_read f = read_field(block, q);
      if (f.status == field_read::ok) {
        e.headers.push_back(f.value);
        q = f.end;
        continue;
      }
      uint64_t error =
        f.status == field_read::malformed ? MALFORMED_HEADER : QPACK_DECOMPRESSION_FAILED;
      if (f.status == field_read::failed || f.status == field_read::malformed) {
        // A field line that is refused, whatever follows.
        e.fails({ error });
        if (!complete && f.status == field_read::failed) {
          incomplete();
        }
        return e;
      }
      // The field line is not complete. Whether it fits the frame may be known.
      e.fails({ MALFORMED_FRAME });
      if (f.status == field_read::incomplete_or_failed) {
        e.fails({ QPACK_DECOMPRESSION_FAILED });
      }
      if (complete) {
        // It crosses the end of the frame.
        e.fails({ QPACK_DECOMPRESSION_FAILED, MALFORMED_HEADER });
      } else {
        incomplete();
      }
      return e;
    }
    if (!complete) {
      return incomplete();
    }
    e.section_ended = true;
    at = p + here;
  }
}

inline expectation
control_stream(role r, const std::string &s)
{
  expectation e;
  uint64_t type = 0;
  size_t at = varint_read(s, 0, &type);
  if (at == 0) {
    return e.ends_open();
  }
  if (type != 0) {
    e.any_error = true;
    return e;
  }
  while (true) {
    decoded d = decode(s.substr(at));
    bool first = e.settings.empty();
    switch (d.status) {
      case decoded::incomplete:
        return e.ends_open();
      case decoded::incomplete_or_malformed:
        e.ends_open();
        if (first) {
          e.fails({ MISSING_SETTINGS });
        }
        return e.fails({ MALFORMED_FRAME });
      case decoded::malformed:
        if (first && d.f.type != SETTINGS) {
          e.fails({ MISSING_SETTINGS });
        }
        return e.fails({ MALFORMED_FRAME });
      case decoded::ok:
        break;
    }
    at += d.end;
    if (first) {
      if (d.f.type != SETTINGS) {
        return e.fails({ MISSING_SETTINGS });
      }
      e.settings.push_back(d.f);
      continue;
    }
    switch (d.f.type) {
      case HEADERS:
      case DATA:
      case PUSH_PROMISE:
      case DUPLICATE_PUSH:
        return e.fails({ WRONG_STREAM });
      case SETTINGS:
        return e.fails({ UNEXPECTED_FRAME });
      case CANCEL_PUSH:
        return e.fails({ NOT_IMPLEMENTED });
      case GOAWAY:
        return e.fails({ r == role::client ? NOT_IMPLEMENTED : UNEXPECTED_FRAME });
      default: // MAX_PUSH_ID, PRIORITY
        return e.fails({ r == role::client ? UNEXPECTED_FRAME : NOT_IMPLEMENTED });
    }
  }
}

}

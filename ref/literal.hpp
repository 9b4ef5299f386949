// String literals (RFC 7541 section 5.2 with a prefix).
#pragma once

#include <ref/huffman.hpp>
#include <ref/prefix_int.hpp>

namespace ref {

inline std::string
literal_form(const std::string &s, int prefix, bool huffman_form, uint8_t top = 0)
{
  std::string content = huffman_form ? huffman(s) : s;
  uint8_t form = static_cast<uint8_t>(1 << prefix);
  uint8_t above = static_cast<uint8_t>(0xff << (prefix + 1));
  uint8_t first = static_cast<uint8_t>((top & above) | (huffman_form ? form : 0));
  return prefix_int(content.size(), prefix, first) + content;
}

inline std::string
literal(const std::string &s, int prefix, uint8_t top = 0)
{
  return literal_form(s, prefix, huffman_size(s) < s.size(), top);
}

struct literal_read {
  enum { ok, incomplete, failed, incomplete_or_failed } status = incomplete;
  std::string value;
  size_t end = 0;
};

inline literal_read
read_literal(const std::string &s, size_t at, int prefix)
{
  literal_read r;
  prefix_read n = prefix_int_read(s, at, prefix);
  if (n.status == prefix_read::incomplete) return r;
  if (n.status != prefix_read::ok) {
    r.status = n.status == prefix_read::overflow ? literal_read::failed
                                                 : literal_read::incomplete_or_failed;
    return r;
  }
  if (n.value > s.size() - n.end) return r;
  std::string content = s.substr(n.end, static_cast<size_t>(n.value));
  if ((static_cast<uint8_t>(s[at]) >> prefix) % 2 == 1) {
    if (!huffman_decode(content, &r.value)) {
      r.status = literal_read::failed;
      return r;
    }
  } else {
    r.value = content;
  }
  r.status = literal_read::ok;
  r.end = n.end + static_cast<size_t>(n.value);
  return r;
}

}

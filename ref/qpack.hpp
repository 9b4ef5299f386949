// QPACK field lines without dynamic table (draft-ietf-quic-qpack section 4.5).
#pragma once

#include <ref/literal.hpp>
#include <ref/static_table.hpp>

#include <string>
#include <utility>
#include <vector>

namespace ref {

using field = std::pair<std::string, std::string>;

inline bool
has_uppercase(const std::string &name)
{
  for (char c : name) {
    if (c >= 'A' && c <= 'Z') return true;
  }
  return false;
}

inline std::string
indexed(uint64_t index, uint8_t first = 0xc0)
{
  return prefix_int(index, 6, first);
}

inline std::string
name_reference(uint64_t index, const std::string &value, uint8_t first = 0x50)
{
  return prefix_int(index, 4, first) + literal(value, 7);
}

inline std::string
literal_name(const field &f)
{
  return literal(f.first, 3, 0x20) + literal(f.second, 7);
}

// Every encoding that uses the static table as specified: more than one where
// the table leaves a choice.
inline std::vector<std::string>
field_encodings(const field &f)
{
  std::vector<std::string> full, names;
  for (int i = 0; i < 99; i++) {
    if (f.first == STATIC_TABLE[i].name) {
      if (f.second == STATIC_TABLE[i].value) {
        full.push_back(indexed(static_cast<uint64_t>(i)));
      }
      names.push_back(name_reference(static_cast<uint64_t>(i), f.second));
    }
  }
  if (!full.empty() && !f.second.empty()) return full;
  if (!full.empty()) {
    names.insert(names.end(), full.begin(), full.end());
  }
  if (!names.empty()) return names;
  return { literal_name(f) };
}

// One canonical encoding.
inline std::string
field_line(const field &f)
{
  return field_encodings(f).front();
}

inline std::string
header_block(const std::vector<field> &fields)
{
  std::string s(2, '\0');
  for (const field &f : fields) s += field_line(f);
  return s;
}

struct field_read {
  // The last two: nothing more can make it valid, or something was missing.
  enum { ok, incomplete, failed, malformed, incomplete_or_failed } status = incomplete;
  field value;
  size_t end = 0;
};

inline field_read
read_field(const std::string &s, size_t at)
{
  field_read r;
  if (at >= s.size()) return r;
  uint8_t first = static_cast<uint8_t>(s[at]);
  if (first >= 128) {
    if ((first & 0x40) == 0) {
      // Complete or not: it is refused at the latest once it is complete.
      r.status = prefix_int_read(s, at, 6).status == prefix_read::ok
                   ? field_read::failed
                   : field_read::incomplete_or_failed;
      return r;
    }
    prefix_read n = prefix_int_read(s, at, 6);
    if (n.status == prefix_read::incomplete) return r;
    if (n.status == prefix_read::incomplete_overflow) {
      r.status = field_read::incomplete_or_failed;
      return r;
    }
    if (n.status == prefix_read::overflow || n.value >= 99) {
      r.status = field_read::failed;
      return r;
    }
    r.status = field_read::ok;
    r.value = { STATIC_TABLE[n.value].name, STATIC_TABLE[n.value].value };
    r.end = n.end;
    return r;
  }
  std::string name;
  bool invalid = false;
  size_t p;
  if (first >= 64) {
    if ((first & 0x10) == 0) {
      r.status = field_read::incomplete_or_failed;
      // Complete or not, it is refused once enough is there.
      prefix_read n = prefix_int_read(s, at, 4);
      if (n.status == prefix_read::ok &&
          read_literal(s, n.end, 7).status == literal_read::ok) {
        r.status = field_read::failed;
      }
      return r;
    }
    prefix_read n = prefix_int_read(s, at, 4);
    if (n.status == prefix_read::incomplete) return r;
    if (n.status == prefix_read::incomplete_overflow) {
      r.status = field_read::incomplete_or_failed;
      return r;
    }
    if (n.status == prefix_read::overflow) {
      r.status = field_read::failed;
      return r;
    }
    if (n.value >= 99) {
      invalid = true;
    } else {
      name = STATIC_TABLE[n.value].name;
    }
    p = n.end;
  } else if (first >= 32) {
    literal_read n = read_literal(s, at, 3);
    if (n.status != literal_read::ok) {
      r.status = n.status == literal_read::incomplete ? field_read::incomplete
                 : n.status == literal_read::failed   ? field_read::failed
                                                      : field_read::incomplete_or_failed;
      return r;
    }
    name = n.value;
    p = n.end;
  } else {
    r.status = field_read::failed; // Post-base.
    return r;
  }
  literal_read v = read_literal(s, p, 7);
  switch (v.status) {
    case literal_read::ok:
      if (invalid) {
        r.status = field_read::failed;
      } else if (has_uppercase(name)) {
        r.status = field_read::malformed;
      } else {
        r.status = field_read::ok;
        r.value = { name, v.value };
        r.end = v.end;
      }
      break;
    case literal_read::failed:
      r.status = field_read::failed;
      break;
    case literal_read::incomplete:
      r.status = invalid ? field_read::incomplete_or_failed : field_read::incomplete;
      break;
    default:
      r.status = field_read::incomplete_or_failed;
      break;
  }
  return r;
}

}

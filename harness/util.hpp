// Helpers shared by the harnesses: bytes are std::string everywhere on the
// side of the oracle.
#pragma once

#include <explore.hpp>

#include <bnl/base/buffer.hpp>
#include <bnl/base/buffers.hpp>

#include <cstring>
#include <new>
#include <string>
#include <utility>
#include <vector>

namespace util {

using bnl::base::buffer;
using bnl::base::buffers;

using bytes = std::string;

inline bytes
str(const buffer &b)
{
  return bytes(reinterpret_cast<const char *>(b.data()), b.size());
}

// Bytes of anything with size() and operator[].
template<class Sequence>
bytes
content(const Sequence &s)
{
  bytes out;
  size_t n = s.size();
  for (size_t i = 0; i < n; i++) {
    out += static_cast<char>(s[i]);
  }
  return out;
}

inline buffer
buf(const bytes &s)
{
  return buffer(reinterpret_cast<const uint8_t *>(s.data()), s.size());
}

// A buffer that refers to a slice of a larger (heap) block.
inline buffer
heap(const bytes &s)
{
  bytes padded(40, '\x5a');
  padded += s;
  padded += bytes(8, '\x5b');
  buffer whole = buf(padded);
  whole.consume(40);
  return whole.slice(s.size());
}

// `mask` has a bit per position between two bytes: set means cut there. Bits
// beyond the width of mask mean no cut. `style` selects how pieces are stored.
inline buffers
cut(const bytes &s, uint64_t mask, int style = 0)
{
  buffers result;
  size_t start = 0;
  int piece = 0;
  for (size_t i = 1; i <= s.size(); i++) {
    bool here = i == s.size() || (i <= 64 && ((mask >> (i - 1)) & 1) != 0);
    if (here) {
      bytes part = s.substr(start, i - start);
      bool on_heap = style == 1 || (style == 2 && piece % 2 == 1);
      result.push(on_heap ? heap(part) : buf(part));
      start = i;
      piece++;
    }
  }
  return result;
}

// Cut at the given positions.
inline buffers
cut_at(const bytes &s, std::vector<size_t> at, int style = 0)
{
  buffers result;
  at.push_back(s.size());
  size_t start = 0;
  int piece = 0;
  for (size_t end : at) {
    if (end <= start || end > s.size()) {
      continue;
    }
    bytes part = s.substr(start, end - start);
    bool on_heap = style == 1 || (style == 2 && piece % 2 == 1);
    result.push(on_heap ? heap(part) : buf(part));
    start = end;
    piece++;
  }
  return result;
}

inline bytes
be(uint64_t v, int n)
{
  bytes out;
  for (int i = n - 1; i >= 0; i--) {
    out += static_cast<char>((v >> (8 * i)) & 0xff);
  }
  return out;
}

// Bytes of the buffer f() returns when the memory it is made in is not zero.
template<class F>
bytes
in_dirty_memory(F f)
{
  alignas(buffer) unsigned char storage[sizeof(buffer)];
  memset(storage, 0xa5, sizeof(storage));
  asm volatile("" : : "r"(storage) : "memory");
  buffer *b = new (static_cast<void *>(storage)) buffer(f());
  bytes result = str(*b);
  b->~buffer();
  return result;
}

inline std::string
hx(const bytes &b)
{
  return mc::hex(b, 48);
}

}

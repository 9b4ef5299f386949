// Huffman coding of RFC 7541 section 5.2, bit by bit.
#pragma once

#include <ref/huffman_table.hpp>

#include <string>
#include <vector>

namespace ref {

inline std::string
huffman_bits(const std::string &s)
{
  std::string bits;
  for (char c : s) {
    const huffman_code &h = HUFFMAN[static_cast<uint8_t>(c)];
    for (int i = h.bits - 1; i >= 0; i--) {
      bits += ((h.code >> i) & 1) != 0 ? '1' : '0';
    }
  }
  return bits;
}

inline std::string
pack_bits(std::string bits, char pad = '1')
{
  while (bits.size() % 8 != 0) {
    bits += pad;
  }
  std::string out;
  for (size_t i = 0; i < bits.size(); i += 8) {
    int v = 0;
    for (size_t j = 0; j < 8; j++) {
      v = v * 2 + (bits[i + j] == '1' ? 1 : 0);
    }
    out += static_cast<char>(v);
  }
  return out;
}

inline std::string
huffman(const std::string &s)
{
  return pack_bits(huffman_bits(s));
}

inline size_t
huffman_size(const std::string &s)
{
  size_t bits = 0;
  for (char c : s) {
    bits += static_cast<size_t>(HUFFMAN[static_cast<uint8_t>(c)].bits);
  }
  return (bits + 7) / 8;
}

// False if the encoding is invalid.
inline bool
huffman_decode(const std::string &encoded, std::string *out)
{
  struct node {
    int next[2] = { -1, -1 };
    int symbol = -1;
  };
  static std::vector<node> tree;
  if (tree.empty()) {
    tree.emplace_back();
    for (int symbol = 0; symbol < 257; symbol++) {
      int at = 0;
      for (int i = HUFFMAN[symbol].bits - 1; i >= 0; i--) {
        int bit = (HUFFMAN[symbol].code >> i) & 1;
        if (tree[static_cast<size_t>(at)].next[bit] < 0) {
          tree[static_cast<size_t>(at)].next[bit] = static_cast<int>(tree.size());
          tree.emplace_back();
        }
        at = tree[static_cast<size_t>(at)].next[bit];
      }
      tree[static_cast<size_t>(at)].symbol = symbol;
    }
  }
  out->clear();
  int at = 0;
  int pending = 0;
  bool ones = true;
  for (char c : encoded) {
    for (int i = 7; i >= 0; i--) {
      int bit = (static_cast<uint8_t>(c) >> i) & 1;
      pending++;
      ones = ones && bit == 1;
      at = tree[static_cast<size_t>(at)].next[bit];
      if (at < 0) {
        return false;
      }
      int symbol = tree[static_cast<size_t>(at)].symbol;
      if (symbol == 256) {
        return false;
      }
      if (symbol >= 0) {
        *out += static_cast<char>(symbol);
        at = 0;
        pending = 0;
        ones = true;
      }
    }
  }
  return pending < 8 && ones;
}

}

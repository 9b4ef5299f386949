// C14: Huffman coding is exact and rejects every invalid encoding.
#include "util.hpp"

#include <ref/huffman.hpp>

#include <bnl/base/string_view.hpp>
#include <bnl/http3/codec/qpack/huffman.hpp>

using namespace util;
using bnl::base::string_view;
using bnl::http3::error;
namespace huffman = bnl::http3::qpack::huffman;

template<class Sequence>
static void
check_decode(Sequence &seq, const bytes &in, size_t size, const char *form)
{
  auto r = huffman::decode(seq, size);
  mc::step();
  if (size > in.size()) {
    MC_CHECK(!r && r.error() == error::incomplete, "decode-incomplete",
             "decoding %zu bytes of %s (%s) is not incomplete", size,
             hx(in).c_str(), form);
    MC_CHECK(content(seq) == in, "decode-incomplete-consumes",
             "an incomplete decode of %s (%s) consumed bytes", hx(in).c_str(), form);
    return;
  }
  bytes expected;
  if (ref::huffman_decode(in.substr(0, size), &expected)) {
    MC_CHECK(r.has_value(), "decode-failed", "decoding %zu bytes of %s (%s): error %llu",
             size, hx(in).c_str(), form, (unsigned long long) r.error());
    MC_CHECK(r.value() == expected, "decode-value",
             "decoding %zu bytes of %s (%s) gave %s, not %s", size, hx(in).c_str(),
             form, hx(r.value()).c_str(), hx(expected).c_str());
    MC_CHECK(content(seq) == in.substr(size), "decode-consumed",
             "decoding %zu bytes of %s (%s) consumed the wrong amount", size,
             hx(in).c_str(), form);
  } else {
    MC_CHECK(!r && r.error() == error::qpack_decompression_failed, "decode-invalid",
             "decoding %zu bytes of the invalid %s (%s) gave %s", size,
             hx(in).c_str(), form,
             r ? ("string " + hx(r.value())).c_str()
               : std::to_string(static_cast<unsigned long long>(r.error())).c_str());
  }
}

static void
check_all(const bytes &in, size_t size, uint64_t mask, int style)
{
  {
    buffer b = style == 1 ? heap(in) : buf(in);
    check_decode(b, in, size, "buffer");
  }
  {
    buffer b = buf(in);
    buffer::lookahead l(b);
    check_decode(l, in, size, "buffer lookahead");
    MC_CHECK(str(b) == in, "lookahead-consumes", "a lookahead changed its buffer");
  }
  {
    buffers b = cut(in, mask, style);
    check_decode(b, in, size, "buffers");
  }
  {
    buffers b = cut(in, mask, style);
    buffers::lookahead l(b);
    check_decode(l, in, size, "buffers lookahead");
    MC_CHECK(content(b) == in, "lookahead-consumes", "a lookahead changed its buffers");
  }
}

static void
check_string(const bytes &s, uint64_t mask)
{
  bytes expected = ref::huffman(s);
  string_view view(s.data(), s.size());
  MC_CHECK(huffman::encoded_size(view) == expected.size(), "size",
           "encoded_size of %s is not %zu", hx(s).c_str(), expected.size());

  bytes area(expected.size() + 12, '\xc3');
  size_t n = huffman::encode(reinterpret_cast<uint8_t *>(&area[4]), view);
  mc::step(3);
  MC_CHECK(n == expected.size(), "encode-size", "encode of %s returned %zu, not %zu",
           hx(s).c_str(), n, expected.size());
  MC_CHECK(area.substr(4, n) == expected, "encode-bytes", "encode of %s wrote %s, not %s",
           hx(s).c_str(), hx(area.substr(4, n)).c_str(), hx(expected).c_str());
  MC_CHECK(area.substr(0, 4) == bytes(4, '\xc3') &&
             area.substr(4 + n) == bytes(8, '\xc3'),
           "encode-overrun", "encode of %s wrote outside", hx(s).c_str());
  bytes fresh = in_dirty_memory([&] { return huffman::encode(view); });
  MC_CHECK(fresh == expected, "encode-fresh", "encode of %s gave %s, not %s",
           hx(s).c_str(), hx(fresh).c_str(), hx(expected).c_str());
  check_all(expected + "\x42", expected.size(), mask, static_cast<int>(s.size() % 3));
  mc::state(mc::hasher().add(s));
  mc::outcome(mc::hasher().add(expected));
}

// Symbols of every code length.
static const std::vector<uint8_t> &
by_length()
{
  static std::vector<uint8_t> result;
  if (result.empty()) {
    for (int bits = 5; bits <= 30; bits++) {
      std::vector<uint8_t> of;
      for (int s = 0; s < 256; s++) {
        if (ref::HUFFMAN[s].bits == bits) {
          of.push_back(static_cast<uint8_t>(s));
        }
      }
      if (!of.empty()) {
        result.push_back(of.front());
        if (of.size() > 1) {
          result.push_back(of.back());
        }
      }
    }
  }
  return result;
}

static void
offsets()
{
  int before = mc::choose(8, "symbols before");
  int symbol = mc::choose(256, "symbol");
  static const std::vector<bytes> after = { "", "0", "&", "\n", "ab", bytes("\0", 1) };
  bytes s(static_cast<size_t>(before), 'a');
  s += static_cast<char>(symbol);
  s += mc::pick(after, "symbols after");
  mc::log("string %s", hx(s).c_str());
  check_string(s, ~uint64_t(0));
}

static void
pairs()
{
  bytes s;
  s += static_cast<char>(mc::choose(256, "first"));
  s += static_cast<char>(mc::choose(256, "second"));
  check_string(s, 0x5);
}

static void
lengths()
{
  int n = mc::choose(mc::thorough() ? 5 : 4, "length");
  bytes s;
  for (int i = 0; i < n; i++) {
    s += static_cast<char>(mc::pick(by_length(), "symbol"));
  }
  check_string(s, 0x12);
}

// Long strings: sizes around the inline storage and beyond.
static void
long_strings()
{
  static const std::vector<int> sizes = { 15, 16, 19, 20, 21, 25, 31, 32, 33, 63, 64,
                                          127, 128, 255, 256, 1000 };
  int n = mc::pick(sizes, "length");
  int start = mc::choose(256, "first symbol");
  int stride = mc::choose(3, "stride");
  bytes s;
  for (int i = 0; i < n; i++) {
    s += static_cast<char>(start + i * (stride == 0 ? 0 : stride == 1 ? 1 : 37));
  }
  check_string(s, 0x924924924);
}

// Numbers of bits, and of encoded and decoded bytes, that don't fit 16 bits.
static void
large_strings()
{
  static const std::vector<int> sizes = { 2184,  2185,  8192,  13107, 13108,  17476,  17477, 40329,
                                          40330, 65535, 65536, 65537, 104857, 104858, 120000 };
  int n = mc::pick(sizes, "length");
  int kind = mc::choose(5, "content");
  bytes s;
  for (int i = 0; i < n; i++) {
    static const char same[] = { 'a', '\n', '\x00' };
    s += kind < 3 ? same[kind] : static_cast<char>(i * (kind == 3 ? 1 : 37) + i / 256);
  }
  check_string(s, 0x924924924);
}

// Every short byte string taken as an encoding.
static void
encodings()
{
  int n = mc::choose(4, "length");
  bytes in;
  for (int i = 0; i < n; i++) {
    static const std::vector<uint8_t> last = { 0x00, 0x07, 0x1f, 0x3f, 0x7f, 0x80,
                                               0xc7, 0xf8, 0xfc, 0xfe, 0xff };
    if (i < 2 || mc::thorough()) {
      in += static_cast<char>(mc::choose(256, "byte"));
    } else {
      in += static_cast<char>(mc::pick(last, "byte"));
    }
  }
  mc::log("encoding %s", hx(in).c_str());
  check_all(in, in.size(), 0x1, n % 3);
  mc::state(mc::hasher().add(in));
  bytes out;
  bool ok = ref::huffman_decode(in, &out);
  mc::outcome(mc::hasher().add(ok).add(out));
}

// Long runs of ones: end-of-string symbols and the longest codes.
static void
long_codes()
{
  int before = mc::choose(9, "symbols before");
  int ones = mc::choose(40, "ones");
  int tail = mc::choose(64, "bits after");
  int tail_bits = mc::choose(7, "number of bits after");
  bytes bits;
  for (int i = 0; i < before; i++) {
    bits += ref::huffman_bits("a");
  }
  bits += bytes(static_cast<size_t>(ones), '1');
  if (tail >= 1 << tail_bits) {
    return;
  }
  for (int i = tail_bits - 1; i >= 0; i--) {
    bits += ((tail >> i) & 1) != 0 ? '1' : '0';
  }
  char pad = mc::choose(2, "padding") == 0 ? '1' : '0';
  bytes in = ref::pack_bits(bits, pad);
  mc::log("encoding %s", hx(in).c_str());
  check_all(in, in.size(), 0x2, 0);
  mc::state(mc::hasher().add(in));
  bytes out;
  bool ok = ref::huffman_decode(in, &out);
  mc::outcome(mc::hasher().add(ok).add(out));
}

// Every padding after strings that end at every bit offset.
static void
padding()
{
  int before = mc::choose(8, "symbols before");
  bytes symbol(1, static_cast<char>(mc::choose(256, "last symbol")));
  int pad_bits = mc::choose(18, "padding bits");
  int shape = mc::choose(pad_bits + 2, "zero bit");
  bytes bits = ref::huffman_bits(bytes(static_cast<size_t>(before), 'e') + symbol);
  bytes pad(static_cast<size_t>(pad_bits), '1');
  if (shape < pad_bits) {
    pad[static_cast<size_t>(shape)] = '0';
  } else if (shape == pad_bits + 1) {
    pad.assign(pad.size(), '0');
  }
  bits += pad;
  if (bits.size() % 8 != 0) {
    return;
  }
  bytes in = ref::pack_bits(bits);
  mc::log("encoding %s", hx(in).c_str());
  check_all(in, in.size(), 0x4, 1);
  mc::state(mc::hasher().add(in));
  bytes out;
  bool ok = ref::huffman_decode(in, &out);
  mc::outcome(mc::hasher().add(ok).add(out));
}

// Sizes other than the number of bytes available, every segmentation.
static void
segmented()
{
  static const std::vector<bytes> strings = { "", "a", "www.example.com", "\x01\x02",
                                              bytes("\0\xff", 2), "no-cache" };
  bytes encoded = ref::huffman(mc::pick(strings, "string"));
  size_t size = static_cast<size_t>(mc::choose(static_cast<int>(encoded.size()) + 3, "size"));
  int bits = static_cast<int>(encoded.size()) + 1;
  bytes in = encoded + "\x1f\xff";
  size_t keep = static_cast<size_t>(mc::choose(static_cast<int>(in.size()) + 1, "available"));
  in = in.substr(0, keep);
  uint64_t mask = bits <= 8 ? static_cast<uint64_t>(mc::choose(1 << (bits - 1), "cuts"))
                            : uint64_t(1) << mc::choose(bits, "cut");
  mc::log("size %zu of %s", size, hx(in).c_str());
  check_all(in, size, mask, static_cast<int>(size % 3));
  mc::state(mc::hasher().add(in).add(size).add(mask));
  mc::outcome(mc::hasher().add(in).add(size));
}

// Long encodings that are wrong at one place, or right.
static void
large_encodings()
{
  static const std::vector<int> sizes = { 8, 16, 32, 63, 65, 128, 200, 256, 257, 512, 1000, 4096, 16384, 70000 };
  size_t n = static_cast<size_t>(mc::pick(sizes, "symbols"));
  int symbol = mc::pick(std::vector<int>{ 'a', '&', 0x0a }, "symbol");
  int wrong = mc::choose(6, "nothing, end of string, zero padding, one zero, too much padding, cut");
  bytes bits = ref::huffman_bits(bytes(n, static_cast<char>(symbol)));
  if (wrong == 1) {
    // The end-of-string symbol at some place.
    size_t each = bits.size() / n;
    size_t place = static_cast<size_t>(mc::choose(5, "place")) * n / 4;
    bits.insert(place * each, bytes(30, '1'));
  }
  size_t tail = static_cast<size_t>(mc::choose(8, "shift"));
  bits = ref::huffman_bits(bytes(tail, '0')) + bits; // 5 bits each.
  size_t pad = (8 - bits.size() % 8) % 8;
  bytes padding(pad, '1');
  if (wrong == 2) {
    padding = bytes(pad, '0');
  } else if (wrong == 3 && pad > 0) {
    padding[static_cast<size_t>(mc::choose(static_cast<int>(pad), "zero"))] = '0';
  } else if (wrong == 4) {
    padding += bytes(8, '1');
  }
  bytes in = ref::pack_bits(bits + padding);
  if (wrong == 5) {
    in.pop_back();
  }
  mc::log("%zu symbols, %d, %zu bytes", n, wrong, in.size());
  // Few pieces if it's long.
  check_all(in, in.size(), in.size() > 600 ? 0x4 : 0x924924924, static_cast<int>(n % 3));
  mc::state(mc::hasher().add(in));
  bytes out;
  bool ok = ref::huffman_decode(in, &out);
  mc::outcome(mc::hasher().add(ok).add(out));
}

int
main(int argc, char **argv)
{
  return mc::run(
    argc, argv,
    {
      { "offsets", "256 symbols at 8 bit offsets with 6 endings, encoded and decoded", offsets, 2 },
      { "pairs", "all ordered pairs of symbols, encoded and decoded", pairs, 2 },
      { "lengths", "all strings of up to 3 (thorough: 4) symbols, two of each code length", lengths, 3 },
      { "long-strings", "16 lengths from 15 to 1000 x 256 starts x 3 strides", long_strings, 2 },
      { "large-strings", "15 lengths from 2184 to 120000 x 5 contents", large_strings, 2 },
      { "large-encodings",
        "14 lengths from 8 to 70000 symbols x 3 symbols x 8 bit offsets: right, or with the end of string "
        "symbol at 5 places, or with 4 kinds of wrong padding",
        large_encodings, 3 },
      { "encodings", "all byte strings of up to 2 (thorough: 3) bytes taken as encodings; 3 bytes with a boundary alphabet", encodings, 2 },
      { "long-codes", "runs of 0-39 ones at 8 bit offsets followed by up to 6 arbitrary bits", long_codes, 2 },
      { "padding", "256 symbols at 8 offsets with up to 17 padding bits, all ones, all zeros, or one zero", padding, 2 },
      { "segmented", "6 strings x every size x every number of available bytes x cuts", segmented, 3 },
    });
}

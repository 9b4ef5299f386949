// C15: string literals round-trip and use the shorter form.
#include "util.hpp"

#include <ref/literal.hpp>

#include <bnl/base/string_view.hpp>
#include <bnl/http3/codec/qpack/literal.hpp>

using namespace util;
using bnl::base::string_view;
using bnl::http3::error;
namespace literal = bnl::http3::qpack::literal;

template<class Sequence>
static void
check_decode(Sequence &seq, const bytes &in, int prefix, const char *form)
{
  ref::literal_read e = ref::read_literal(in, 0, prefix);
  auto r = literal::decode(seq, static_cast<uint8_t>(prefix));
  mc::step();
  switch (e.status) {
    case ref::literal_read::ok:
      MC_CHECK(r.has_value(), "decode-failed",
               "decoding %s with prefix %d (%s): error %llu", hx(in).c_str(),
               prefix, form, (unsigned long long) r.error());
      MC_CHECK(r.value() == e.value, "decode-value",
               "decoding %s with prefix %d (%s) gave %s, not %s", hx(in).c_str(),
               prefix, form, hx(r.value()).c_str(), hx(e.value).c_str());
      MC_CHECK(content(seq) == in.substr(e.end), "decode-consumed",
               "decoding %s with prefix %d (%s) left %zu bytes, not %zu",
               hx(in).c_str(), prefix, form, seq.size(), in.size() - e.end);
      break;
    case ref::literal_read::failed:
      MC_CHECK(!r && r.error() == error::qpack_decompression_failed,
               "decode-invalid", "decoding the invalid %s with prefix %d (%s) is not refused",
               hx(in).c_str(), prefix, form);
      break;
    case ref::literal_read::incomplete_or_failed:
      if (!r && r.error() == error::qpack_decompression_failed) {
        break;
      }
      // fall through
    case ref::literal_read::incomplete:
      MC_CHECK(!r && r.error() == error::incomplete, "decode-incomplete",
               "decoding the truncated %s with prefix %d (%s) is not incomplete",
               hx(in).c_str(), prefix, form);
      MC_CHECK(content(seq) == in, "decode-incomplete-consumes",
               "decoding the truncated %s with prefix %d (%s) consumed %zu bytes",
               hx(in).c_str(), prefix, form, in.size() - seq.size());
      break;
  }
}

static void
check_all(const bytes &in, int prefix, uint64_t mask, int style)
{
  {
    buffer b = style == 1 ? heap(in) : buf(in);
    check_decode(b, in, prefix, "buffer");
  }
  {
    buffer b = buf(in);
    buffer::lookahead l(b);
    check_decode(l, in, prefix, "buffer lookahead");
    MC_CHECK(str(b) == in, "lookahead-consumes", "a lookahead changed its buffer");
  }
  {
    buffers b = cut(in, mask, style);
    check_decode(b, in, prefix, "buffers");
  }
  {
    buffers b = cut(in, mask, style);
    buffers::lookahead l(b);
    check_decode(l, in, prefix, "buffers lookahead");
    MC_CHECK(content(b) == in, "lookahead-consumes", "a lookahead changed its buffers");
  }
}

static void
check_string(const bytes &s, int prefix, uint64_t mask)
{
  uint8_t p8 = static_cast<uint8_t>(prefix);
  bytes plain = ref::literal(s, prefix);
  string_view view(s.data(), s.size());
  MC_CHECK(literal::encoded_size(view, p8) == plain.size(), "size",
           "encoded_size of %s with prefix %d is not %zu", hx(s).c_str(), prefix,
           plain.size());
  uint8_t above = static_cast<uint8_t>(0xff << (prefix + 1));
  uint8_t form = static_cast<uint8_t>(1 << prefix);
  for (uint8_t top : { uint8_t(0), above, uint8_t(above & 0x55), form,
                       uint8_t(above & 0xaa) }) {
    bytes expected = ref::literal(s, prefix, top);
    bytes area(expected.size() + 12, '\xc3');
    area[4] = static_cast<char>(top);
    size_t n = literal::encode(reinterpret_cast<uint8_t *>(&area[4]), view, p8);
    mc::step();
    MC_CHECK(n == expected.size(), "encode-size",
             "encode of %s with prefix %d returned %zu, not %zu", hx(s).c_str(),
             prefix, n, expected.size());
    MC_CHECK(area.substr(4, n) == expected, "encode-bytes",
             "encode of %s with prefix %d over %02x wrote %s, not %s",
             hx(s).c_str(), prefix, top, hx(area.substr(4, n)).c_str(),
             hx(expected).c_str());
    MC_CHECK(area.substr(0, 4) == bytes(4, '\xc3') &&
               area.substr(4 + n) == bytes(8, '\xc3'),
             "encode-overrun", "encode of %s wrote outside", hx(s).c_str());
  }
  bytes fresh = in_dirty_memory([&] { return literal::encode(view, p8); });
  MC_CHECK(fresh == plain, "encode-fresh", "encode of %s with prefix %d gave %s, not %s",
           hx(s).c_str(), prefix, hx(fresh).c_str(), hx(plain).c_str());
  mc::step(2);
  // Both forms decode, whichever is shorter.
  for (bool h : { false, true }) {
    check_all(ref::literal_form(s, prefix, h, 0xff) + "\x41", prefix, mask,
              static_cast<int>(s.size() % 3));
  }
  mc::state(mc::hasher().add(s).add(static_cast<uint64_t>(prefix)));
  mc::outcome(mc::hasher().add(plain));
}

static void
short_strings()
{
  int n = mc::choose(3, "length");
  bytes s;
  for (int i = 0; i < n; i++) {
    s += static_cast<char>(mc::choose(256, "byte"));
  }
  static const std::vector<int> few = { 3, 7 };
  int prefix = n < 2 || mc::thorough() ? 1 + mc::choose(7, "prefix") : mc::pick(few, "prefix");
  mc::log("string %s prefix %d", hx(s).c_str(), prefix);
  check_string(s, prefix, 0x2);
}

static void
boundary_strings()
{
  static const std::vector<uint8_t> alphabet = { 'a', 'Z', '0', '&', 0x00, 0xff, '\n', '#', 0x80 };
  int n = 3 + mc::choose(mc::thorough() ? 3 : 2, "length");
  bytes s;
  for (int i = 0; i < n; i++) {
    s += static_cast<char>(mc::pick(alphabet, "byte"));
  }
  static const std::vector<int> few = { 3, 7 };
  check_string(s, mc::pick(few, "prefix"), 0x9);
}

static const std::vector<int> &
sizes()
{
  static std::vector<int> result;
  if (result.empty()) {
    for (int i = 0; i < 300; i++) {
      result.push_back(i);
    }
    for (int around : { 400, 415, 430, 16384, 16384 + 127, 16384 + 255, 26214, 26418, 65536, 104857,
                        131072 }) {
      for (int d = -2; d <= 2; d++) {
        if (mc::thorough() || around < 10000 || d % 2 == 0) {
          result.push_back(around + d);
        }
      }
    }
  }
  return result;
}

static void
long_strings()
{
  int n = mc::pick(sizes(), "length");
  int kind = mc::choose(4, "content");
  bytes s;
  for (int i = 0; i < n; i++) {
    s += kind == 0   ? 'a'
         : kind == 1 ? '\xff'
         : kind == 2 ? static_cast<char>('0' + i % 75)
                     : static_cast<char>(i * 7);
  }
  int prefix = n < 300 ? 1 + mc::choose(7, "prefix") : 3 + 4 * mc::choose(2, "prefix");
  mc::log("%d bytes prefix %d", n, prefix);
  check_string(s, prefix, 0x8421084210);
}

// Declared lengths that disagree with what is available, every truncation and
// segmentation.
static void
segmented()
{
  static const std::vector<bytes> strings = { "", "a", "no-cache", "\x01\x02\xff",
                                              "0123456789abcdefghijklmn" };
  static const std::vector<int> prefixes = { 3, 7, 1, 5 };
  bytes s = mc::pick(strings, "string");
  int prefix = mc::pick(prefixes, "prefix");
  bool h = mc::choose(2, "form") == 1;
  bytes in = ref::literal_form(s, prefix, h, 0x50);
  size_t keep = static_cast<size_t>(mc::choose(static_cast<int>(in.size()) + 2, "available"));
  in = keep > in.size() ? in + "\x99\x81" : in.substr(0, keep);
  size_t a = static_cast<size_t>(mc::choose(static_cast<int>(in.size()) + 1, "cut"));
  size_t b = a + static_cast<size_t>(mc::choose(static_cast<int>(in.size() - a) + 1, "cut"));
  int style = mc::choose(3, "storage");
  mc::log("prefix %d bytes %s cuts %zu %zu", prefix, hx(in).c_str(), a, b);
  uint64_t mask = 0;
  if (a > 0) mask |= uint64_t(1) << (a - 1);
  if (b > 0) mask |= uint64_t(1) << (b - 1);
  check_all(in, prefix, mask, style);
  mc::state(mc::hasher().add(in).add(mask));
  mc::outcome(mc::hasher().add(in));
}

// All short inputs taken as literals: huge lengths, invalid codes.
static void
inputs()
{
  static const std::vector<uint8_t> alphabet = { 0x00, 0x01, 0x02, 0x07, 0x0f, 0x1c, 0x3f, 0x7f,
                                                 0x80, 0x81, 0x82, 0xfe, 0xff };
  int prefix = 1 + mc::choose(7, "prefix");
  int n = mc::choose(mc::thorough() ? 6 : 5, "length");
  bytes in;
  for (int i = 0; i < n; i++) {
    in += static_cast<char>(mc::pick(alphabet, "byte"));
  }
  if (mc::choose(2, "tail") == 1) {
    in += bytes(9, '\xff') + bytes(1, '\x01') + bytes(20, '\x1f');
  }
  mc::log("prefix %d bytes %s", prefix, hx(in).c_str());
  check_all(in, prefix, 0x5, n % 3);
  mc::state(mc::hasher().add(in).add(static_cast<uint64_t>(prefix)));
  ref::literal_read e = ref::read_literal(in, 0, prefix);
  mc::outcome(mc::hasher().add(e.status).add(e.value).add(e.end));
}

int
main(int argc, char **argv)
{
  return mc::run(
    argc, argv,
    {
      { "short-strings", "all strings of up to 2 bytes, prefixes 3 and 7 (up to 1 byte or thorough: 1-7), both forms",
        short_strings, 2 },
      { "boundary-strings", "all strings of 3-4 (thorough: 5) bytes over 9 bytes, prefixes 3 and 7", boundary_strings, 3 },
      { "long-strings", "lengths 0-299 and around length-encoding boundaries up to 128 KiB, 4 contents, prefixes 1-7",
        long_strings, 2 },
      { "segmented", "5 strings x 4 prefixes x 2 forms x every truncation x every pair of cuts", segmented, 3 },
      { "inputs", "all byte strings of up to 4 (thorough: 5) bytes over 13 bytes x 7 prefixes, with a long tail or none",
        inputs, 3 },
    });
}

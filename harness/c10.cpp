// C10: variable-length integers are encoded and decoded exactly.
#include "util.hpp"

#include <ref/varint.hpp>

#include <bnl/http3/codec/varint.hpp>

#include <algorithm>

using namespace util;
using bnl::http3::error;
namespace varint = bnl::http3::varint;

// Values around every length boundary, and every combination of byte classes.
static const std::vector<uint64_t> &
values()
{
  static std::vector<uint64_t> result;
  if (result.empty()) {
    uint64_t window = mc::thorough() ? 3000 : 300;
    for (uint64_t v = 0; v < 20000; v++) {
      result.push_back(v);
    }
    for (int bit : { 16, 22, 24, 29, 30, 31, 32, 38, 46, 54, 61, 62, 63 }) {
      uint64_t c = uint64_t(1) << bit;
      for (uint64_t v = c - window; v < c + window; v++) {
        result.push_back(v);
      }
    }
    for (uint64_t v = 0; v < window; v++) {
      result.push_back(UINT64_MAX - v);
    }
    std::vector<uint8_t> classes = { 0x00, 0x01, 0x3f, 0x40, 0x80, 0xff };
    if (!mc::thorough()) {
      classes = { 0x00, 0x3f, 0x81, 0xff };
    }
    uint64_t n = 1;
    for (int i = 0; i < 8; i++) {
      n *= classes.size();
    }
    for (uint64_t i = 0; i < n; i++) {
      uint64_t v = 0;
      uint64_t rest = i;
      for (int b = 0; b < 8; b++) {
        v = v << 8 | classes[rest % classes.size()];
        rest /= classes.size();
      }
      result.push_back(v);
    }
    std::sort(result.begin(), result.end());
    result.erase(std::unique(result.begin(), result.end()), result.end());
  }
  return result;
}

template<class Sequence>
static void
check_decode(Sequence &seq, const bytes &in, const char *form)
{
  uint64_t expected = 0;
  size_t used = ref::varint_read(in, 0, &expected);
  auto r = varint::decode(seq);
  mc::step();
  if (used == 0) {
    MC_CHECK(!r.has_value(), "decode-truncated",
             "decoding the truncated %s from %s succeeded", hx(in).c_str(), form);
    MC_CHECK(r.error() == error::incomplete, "decode-truncated-error",
             "decoding the truncated %s from %s: error %llu", hx(in).c_str(),
             form, (unsigned long long) r.error());
    MC_CHECK(content(seq) == in, "decode-incomplete-consumes",
             "an incomplete decode of %s from %s consumed bytes", hx(in).c_str(),
             form);
  } else {
    MC_CHECK(r.has_value(), "decode-failed", "decoding %s from %s: error %llu",
             hx(in).c_str(), form, (unsigned long long) r.error());
    MC_CHECK(r.value() == expected, "decode-value",
             "decoding %s from %s gave %llu, not %llu", hx(in).c_str(), form,
             (unsigned long long) r.value(), (unsigned long long) expected);
    MC_CHECK(content(seq) == in.substr(used), "decode-consumed",
             "decoding %s from %s left %zu bytes, not %zu", hx(in).c_str(),
             form, seq.size(), in.size() - used);
  }
}

static void
check_all_forms(const bytes &in, uint64_t mask, int style)
{
  {
    buffer b = buf(in);
    check_decode(b, in, "a small buffer");
  }
  {
    buffer b = heap(in);
    check_decode(b, in, "a buffer");
  }
  {
    buffer b = buf(in);
    {
      buffer::lookahead l(b);
      check_decode(l, in, "a buffer lookahead");
    }
    MC_CHECK(str(b) == in, "lookahead-consumes",
             "decoding through a lookahead changed its buffer");
  }
  {
    buffers b = cut(in, mask, style);
    check_decode(b, in, "a list of buffers");
  }
  {
    buffers b = cut(in, mask, style);
    {
      buffers::lookahead l(b);
      check_decode(l, in, "a list lookahead");
    }
    MC_CHECK(content(b) == in, "lookahead-consumes",
             "decoding through a lookahead changed its list of buffers");
  }
}

static void
encode_value()
{
  uint64_t v = mc::pick(values());
  int size = ref::varint_size(v);
  auto s = varint::encoded_size(v);
  mc::step();
  mc::log("value %llu: reference size %d", (unsigned long long) v, size);

  uint8_t dest[16];
  for (uint8_t &d : dest) {
    d = 0xc3;
  }
  auto direct = varint::encode(dest + 2, v);
  auto allocated = varint::encode(v);
  mc::step(2);

  if (size == 0) {
    MC_CHECK(!s && s.error() == error::varint_overflow, "size-overflow",
             "encoded_size(%llu) does not report an overflow",
             (unsigned long long) v);
    MC_CHECK(!direct && direct.error() == error::varint_overflow,
             "encode-overflow", "encode(dest, %llu) does not report an overflow",
             (unsigned long long) v);
    MC_CHECK(!allocated && allocated.error() == error::varint_overflow,
             "encode-overflow", "encode(%llu) does not report an overflow",
             (unsigned long long) v);
    size = 0;
  } else {
    bytes expected = ref::varint(v);
    MC_CHECK(s && s.value() == static_cast<size_t>(size), "size",
             "encoded_size(%llu) is not %d", (unsigned long long) v, size);
    MC_CHECK(direct && direct.value() == static_cast<size_t>(size),
             "encode-size", "encode(dest, %llu) does not return %d",
             (unsigned long long) v, size);
    bytes got(reinterpret_cast<char *>(dest + 2), static_cast<size_t>(size));
    MC_CHECK(got == expected, "encode-bytes", "encode(dest, %llu) wrote %s, not %s",
             (unsigned long long) v, hx(got).c_str(), hx(expected).c_str());
    MC_CHECK(allocated && str(allocated.value()) == expected, "encode-bytes",
             "encode(%llu) gave the wrong bytes", (unsigned long long) v);

    // Every representation of the value decodes back to it.
    for (int n : { 1, 2, 4, 8 }) {
      if (n >= size) {
        bytes in = ref::varint_sized(v, n) + "\xff\x01";
        check_all_forms(in, v, static_cast<int>(v % 3));
      }
    }
  }
  for (size_t i = 0; i < sizeof(dest); i++) {
    if (i < 2 || i >= 2 + static_cast<size_t>(size)) {
      MC_CHECK(dest[i] == 0xc3, "encode-overrun",
               "encode(dest, %llu) wrote outside its %d bytes",
               (unsigned long long) v, size);
    }
  }
  mc::state(mc::hasher().add(v));
  mc::outcome(mc::hasher().add(static_cast<uint64_t>(size)));
}

// All inputs of up to three bytes, with every segmentation.
static void
decode_short()
{
  int first = mc::choose(256, "first byte");
  bytes in(1, static_cast<char>(first));
  int more = mc::choose(3, "more bytes");
  const std::vector<uint8_t> classes = { 0x00, 0x01, 0x3f, 0x40, 0x7f,
                                         0x80, 0xbf, 0xc0, 0xfe, 0xff };
  if (more >= 1) {
    in += static_cast<char>(mc::choose(256, "second byte"));
  }
  if (more >= 2) {
    in += static_cast<char>(mc::pick(classes, "third byte"));
  }
  for (uint64_t mask = 0; mask < (uint64_t(1) << (in.size() - 1)); mask++) {
    check_all_forms(in, mask, static_cast<int>(mask % 3));
  }
  mc::state(mc::hasher().add(in));
  uint64_t v = 0;
  mc::outcome(mc::hasher().add(ref::varint_read(in, 0, &v)).add(v));
}

// Every truncation of every length, every segmentation, with and without
// bytes following.
static void
decode_segmented()
{
  static const std::vector<uint64_t> sample = {
    0,          5,          63,        64,          16383,
    16384,      0x12345678 & 0x3fffffff,            1073741823,
    1073741824, 0x0123456789abcdef,                 ref::VARINT_MAX
  };
  uint64_t v = mc::pick(sample, "value");
  static const std::vector<int> sizes = { 1, 2, 4, 8 };
  int n = mc::pick(sizes, "size");
  if (n < ref::varint_size(v)) {
    return;
  }
  bytes in = ref::varint_sized(v, n);
  int trailing = mc::choose(3, "trailing");
  int keep = mc::choose(n + 1, "bytes available");
  in = in.substr(0, static_cast<size_t>(keep));
  if (keep == n) {
    in += bytes(static_cast<size_t>(trailing), '\xc1');
  } else if (trailing > 0) {
    return;
  }
  uint64_t masks = in.empty() ? 1 : uint64_t(1) << (in.size() - 1);
  uint64_t mask = static_cast<uint64_t>(mc::choose(static_cast<int>(masks), "cuts"));
  int style = mc::choose(3, "storage");
  mc::log("decode %s mask %llx style %d", hx(in).c_str(), (unsigned long long) mask, style);
  check_all_forms(in, mask, style);
  mc::state(mc::hasher().add(in).add(mask));
  mc::outcome(mc::hasher().add(in));
}

// Several integers in one sequence, bytes arriving one segment at a time.
static void
decode_stream()
{
  static const std::vector<uint64_t> sample = { 7, 300, 70000, 5000000000ULL };
  int count = 1 + mc::choose(mc::thorough() ? 3 : 2, "count");
  bytes all;
  std::vector<uint64_t> expected;
  for (int i = 0; i < count; i++) {
    uint64_t v = mc::pick(sample, "value");
    expected.push_back(v);
    all += ref::varint(v);
  }
  // Arrival: every choice of one or two cut positions.
  size_t a = static_cast<size_t>(mc::choose(static_cast<int>(all.size()) + 1, "cut"));
  size_t b = a + static_cast<size_t>(
                   mc::choose(static_cast<int>(all.size() - a) + 1, "cut"));
  std::vector<bytes> pieces = { all.substr(0, a), all.substr(a, b - a), all.substr(b) };
  buffers queue;
  bytes model;
  size_t got = 0;
  for (const bytes &p : pieces) {
    if (!p.empty()) {
      queue.push(p.size() % 2 == 0 ? heap(p) : buf(p));
    }
    model += p;
    while (true) {
      uint64_t v = 0;
      size_t used = ref::varint_read(model, 0, &v);
      auto r = varint::decode(queue);
      mc::step();
      MC_CHECK(r.has_value() == (used != 0), "stream-progress",
               "with %s available, decode %s", hx(model).c_str(),
               r ? "succeeded" : "failed");
      if (!r) {
        MC_CHECK(r.error() == error::incomplete, "stream-error", "wrong error");
        break;
      }
      MC_CHECK(got < expected.size() && r.value() == expected[got],
               "stream-value", "integer %zu is wrong", got);
      got++;
      model = model.substr(used);
      MC_CHECK(content(queue) == model, "stream-rest", "wrong bytes remain");
      mc::state(mc::hasher().add(model));
    }
  }
  MC_CHECK(got == expected.size(), "stream-count", "%zu of %zu integers", got,
           expected.size());
  mc::outcome(mc::hasher().add(all).add(a).add(b));
}

int
main(int argc, char **argv)
{
  return mc::run(
    argc, argv,
    {
      { "encode-value",
        "0..19999, windows around every power-of-two boundary, all "
        "combinations of byte classes over 8 bytes; all encodings of each",
        encode_value, 1 },
      { "decode-short", "all inputs of 1-2 bytes, 3 bytes with byte classes; every segmentation",
        decode_short, 2 },
      { "decode-segmented",
        "11 values x 4 lengths x every truncation x 0-2 trailing bytes x every "
        "segmentation x 3 storage forms",
        decode_segmented, 3 },
      { "decode-stream", "1-3 integers, every pair of arrival cuts", decode_stream, 2 },
    });
}

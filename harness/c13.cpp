// C13: QPACK prefixed integers are exact for every value and prefix.
#include "util.hpp"

#include <ref/prefix_int.hpp>

#include <bnl/http3/codec/qpack/prefix_int.hpp>

#include <algorithm>

using namespace util;
using bnl::http3::error;
namespace prefix_int = bnl::http3::qpack::prefix_int;

static const std::vector<uint64_t> &
values()
{
  static std::vector<uint64_t> v;
  if (v.empty()) {
    uint64_t top = mc::thorough() ? 300000 : 40000;
    for (uint64_t i = 0; i < top; i++) {
      v.push_back(i);
    }
    uint64_t window = mc::thorough() ? 700 : 300;
    for (int bit = 14; bit < 64; bit++) {
      uint64_t c = uint64_t(1) << bit;
      for (uint64_t x = c - window; x < c + window; x++) {
        v.push_back(x);
      }
    }
    for (uint64_t i = 0; i < window; i++) {
      v.push_back(UINT64_MAX - i);
    }
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
  }
  return v;
}

template<class Sequence>
static void
check_decode(Sequence &seq, const bytes &in, int prefix, const char *form)
{
  ref::prefix_read e = ref::prefix_int_read(in, 0, prefix);
  auto r = prefix_int::decode(seq, static_cast<uint8_t>(prefix));
  mc::step();
  switch (e.status) {
    case ref::prefix_read::ok:
      MC_CHECK(r.has_value(), "decode-failed",
               "decoding %s with prefix %d (%s): error %llu", hx(in).c_str(),
               prefix, form, (unsigned long long) r.error());
      MC_CHECK(r.value() == e.value, "decode-value",
               "decoding %s with prefix %d (%s) gave %llu, not %llu",
               hx(in).c_str(), prefix, form, (unsigned long long) r.value(),
               (unsigned long long) e.value);
      MC_CHECK(content(seq) == in.substr(e.end), "decode-consumed",
               "decoding %s with prefix %d (%s) left %zu bytes, not %zu",
               hx(in).c_str(), prefix, form, seq.size(), in.size() - e.end);
      break;
    case ref::prefix_read::overflow:
      MC_CHECK(!r && r.error() == error::qpack_decompression_failed,
               "decode-overflow",
               "decoding %s with prefix %d (%s), which does not fit 64 bits, "
               "gave %llu", hx(in).c_str(), prefix, form,
               (unsigned long long) (r ? r.value() : uint64_t(r.error())));
      break;
    case ref::prefix_read::incomplete_overflow:
      if (!r && r.error() == error::qpack_decompression_failed) {
        break;
      }
      // fall through
    case ref::prefix_read::incomplete:
      MC_CHECK(!r && r.error() == error::incomplete, "decode-incomplete",
               "decoding the truncated %s with prefix %d (%s) is not incomplete",
               hx(in).c_str(), prefix, form);
      MC_CHECK(content(seq) == in, "decode-incomplete-consumes",
               "decoding the truncated %s with prefix %d (%s) consumed %zu bytes",
               hx(in).c_str(), prefix, form, in.size() - seq.size());
      break;
  }
}

static void
check_all(const bytes &in, int prefix, uint64_t mask, int style)
{
  {
    buffer b = style == 1 ? heap(in) : buf(in);
    check_decode(b, in, prefix, "buffer");
  }
  {
    buffer b = buf(in);
    buffer::lookahead l(b);
    check_decode(l, in, prefix, "buffer lookahead");
    MC_CHECK(str(b) == in, "lookahead-consumes", "a lookahead changed its buffer");
  }
  {
    buffers b = cut(in, mask, style);
    check_decode(b, in, prefix, "buffers");
  }
  {
    buffers b = cut(in, mask, style);
    buffers::lookahead l(b);
    check_decode(l, in, prefix, "buffers lookahead");
    MC_CHECK(content(b) == in, "lookahead-consumes", "a lookahead changed its buffers");
  }
}

static void
encode_value()
{
  int prefix = 1 + mc::choose(8, "prefix");
  uint64_t v = mc::pick(values(), "value");
  uint8_t p8 = static_cast<uint8_t>(prefix);
  bytes plain = ref::prefix_int(v, prefix);
  mc::log("prefix %d value %llu -> %s", prefix, (unsigned long long) v, hx(plain).c_str());
  MC_CHECK(prefix_int::encoded_size(v, p8) == plain.size(), "size",
           "encoded_size(%llu, %d) is not %zu", (unsigned long long) v, prefix,
           plain.size());
  mc::step();

  uint8_t bits = static_cast<uint8_t>(0xff << prefix);
  for (uint8_t top : { uint8_t(0), bits, uint8_t(bits & 0x55), uint8_t(bits & 0xaa) }) {
    bytes expected = ref::prefix_int(v, prefix, top);
    uint8_t dest[20];
    for (uint8_t &d : dest) {
      d = 0xc3;
    }
    dest[2] = top;
    size_t n = prefix_int::encode(dest + 2, v, p8);
    mc::step();
    bytes got(reinterpret_cast<char *>(dest + 2), expected.size());
    MC_CHECK(n == expected.size() && got == expected, "encode-in-place",
             "encode(dest, %llu, %d) over %02x wrote %s (%zu), not %s",
             (unsigned long long) v, prefix, top, hx(got).c_str(), n,
             hx(expected).c_str());
    for (size_t i = 0; i < sizeof(dest); i++) {
      MC_CHECK((i >= 2 && i < 2 + expected.size()) || dest[i] == 0xc3,
               "encode-overrun", "encode(dest, %llu, %d) wrote outside",
               (unsigned long long) v, prefix);
    }
    check_all(expected + "\xff\x80", prefix, v, static_cast<int>(v % 3));
  }
  bytes fresh = in_dirty_memory([&] { return prefix_int::encode(v, p8); });
  mc::step();
  MC_CHECK(fresh == plain, "encode-fresh", "encode(%llu, %d) gave %s, not %s",
           (unsigned long long) v, prefix, hx(fresh).c_str(), hx(plain).c_str());
  mc::state(mc::hasher().add(v).add(static_cast<uint64_t>(prefix)));
  mc::outcome(mc::hasher().add(plain));
}

// Continuation bytes of every shape, complete or not, overflowing or not.
static void
decode_shapes()
{
  int prefix = 1 + mc::choose(8, "prefix");
  static const std::vector<uint8_t> alphabet = { 0x00, 0x01, 0x7f, 0x80, 0x81, 0xff };
  static const std::vector<uint8_t> fills = { 0x80, 0xff, 0x81 };
  uint8_t limit = static_cast<uint8_t>((1U << prefix) - 1);
  int head = mc::choose(3, "first byte");
  bytes in;
  if (head == 0) {
    in += static_cast<char>(limit);
  } else if (head == 1) {
    in += static_cast<char>(0xff);
  } else {
    in += static_cast<char>(limit - 1);
  }
  int before = mc::choose(3, "bytes before the run");
  for (int i = 0; i < before; i++) {
    in += static_cast<char>(mc::pick(alphabet));
  }
  int run = mc::choose(mc::thorough() ? 24 : 12, "run");
  uint8_t fill = run == 0 ? 0 : mc::pick(fills, "run byte");
  in += bytes(static_cast<size_t>(run), static_cast<char>(fill));
  int after = mc::choose(3, "bytes after the run");
  for (int i = 0; i < after; i++) {
    in += static_cast<char>(mc::pick(alphabet));
  }
  mc::log("prefix %d bytes %s", prefix, hx(in).c_str());
  check_all(in, prefix, 0x249249, run % 3);
  mc::state(mc::hasher().add(in).add(static_cast<uint64_t>(prefix)));
  ref::prefix_read e = ref::prefix_int_read(in, 0, prefix);
  mc::outcome(mc::hasher().add(e.status).add(e.value).add(e.end));
}

// The largest values that fit and the smallest that do not, exactly.
static void
decode_limit()
{
  int prefix = 1 + mc::choose(8, "prefix");
  int delta = mc::choose(400, "distance from 2^64");
  unsigned __int128 value = (unsigned __int128)(1) << 64;
  value = value - 200 + static_cast<unsigned>(delta);
  uint64_t limit = (uint64_t(1) << prefix) - 1;
  unsigned __int128 rest = value - limit;
  bytes in(1, static_cast<char>(limit));
  while (rest > 127) {
    in += static_cast<char>(128 + static_cast<int>(rest % 128));
    rest /= 128;
  }
  int padding = mc::choose(4, "redundant bytes");
  if (padding == 0) {
    in += static_cast<char>(rest);
  } else {
    in += static_cast<char>(128 + static_cast<int>(rest));
    in += bytes(static_cast<size_t>(padding - 1), '\x80');
    in += '\x00';
  }
  in += "\x01";
  mc::log("prefix %d bytes %s", prefix, hx(in).c_str());
  check_all(in, prefix, 0x5555, delta % 3);
  mc::state(mc::hasher().add(in).add(static_cast<uint64_t>(prefix)));
  mc::outcome(mc::hasher().add(in));
}

// Every truncation and every segmentation of encodings.
static void
segmented()
{
  int prefix = 1 + mc::choose(8, "prefix");
  static const std::vector<uint64_t> sample = { 0,    1,     127,       128,
                                                255,  383,   1337,      16511,
                                                70000, uint64_t(1) << 31, uint64_t(1) << 35 };
  uint64_t v = mc::pick(sample, "value");
  bytes in = ref::prefix_int(v, prefix, 0xff);
  int cut_off = mc::choose(static_cast<int>(in.size()) + 1, "truncation");
  in = cut_off == static_cast<int>(in.size()) ? in + "\x07" : in.substr(0, static_cast<size_t>(cut_off));
  uint64_t masks = in.empty() ? 1 : uint64_t(1) << (in.size() - 1);
  uint64_t mask = static_cast<uint64_t>(mc::choose(static_cast<int>(masks), "cuts"));
  int style = mc::choose(3, "storage");
  mc::log("prefix %d bytes %s cuts %llx", prefix, hx(in).c_str(), (unsigned long long) mask);
  check_all(in, prefix, mask, style);
  mc::state(mc::hasher().add(in).add(static_cast<uint64_t>(prefix)).add(mask));
  mc::outcome(mc::hasher().add(in).add(static_cast<uint64_t>(prefix)));
}

int
main(int argc, char **argv)
{
  return mc::run(argc, argv,
                 {
                   { "encode-value",
                     "8 prefixes x all values below 40000 (thorough: 300000) and around every "
                     "power of two x 4 patterns of the bits above the prefix; each decoded back "
                     "from 4 source types",
                     encode_value, 2 },
                   { "decode-shapes",
                     "8 prefixes x first byte x up to 2 bytes, a run of up to 11 (thorough: 23) "
                     "continuation bytes, up to 2 bytes; 4 source types",
                     decode_shapes, 3 },
                   { "decode-limit", "8 prefixes x 400 values around 2^64 x 4 amounts of redundant bytes",
                     decode_limit, 2 },
                   { "segmented", "8 prefixes x 11 values x every truncation x every segmentation x 3 storage forms",
                     segmented, 3 },
                 });
}

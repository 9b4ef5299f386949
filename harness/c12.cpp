// C12: frame decoding accepts exactly well-formed frames.
#include "frames.hpp"
#include "util.hpp"

using namespace util;
using bnl::http3::error;
using bnl::http3::frame;

static unsigned long long
code(error e)
{
  return static_cast<unsigned long long>(e);
}

template<class Sequence>
static void
check_one(Sequence &seq, const bytes &in, const char *form)
{
  // Peek.
  uint64_t type = 0;
  bool can_peek = ref::peek(in, &type);
  auto p = frame::peek(seq);
  mc::step();
  MC_CHECK(content(seq) == in, "peek-consumes", "peeking at %s (%s) consumed bytes",
           hx(in).c_str(), form);
  if (can_peek) {
    MC_CHECK(p.has_value(), "peek-failed", "peeking at %s (%s): error %llu, not type %llu",
             hx(in).c_str(), form, p ? 0 : code(p.error()), (unsigned long long) type);
    MC_CHECK(static_cast<uint64_t>(p.value()) == type, "peek-type",
             "peeking at %s (%s): type %llu, not %llu", hx(in).c_str(), form,
             (unsigned long long) p.value(), (unsigned long long) type);
  } else {
    MC_CHECK(!p && p.error() == error::incomplete, "peek-incomplete",
             "peeking at %s (%s) is not incomplete", hx(in).c_str(), form);
  }

  // Decode.
  ref::decoded d = ref::decode(in);
  auto r = frame::decode(seq);
  mc::step();
  switch (d.status) {
    case ref::decoded::ok: {
      MC_CHECK(r.has_value(), "decode-failed", "decoding %s (%s): error %llu, not %s",
               hx(in).c_str(), form, code(r.error()), frames::text(d.f).c_str());
      ref::frame got = frames::read(r.value());
      MC_CHECK(got == d.f, "decode-fields", "decoding %s (%s) gave %s, not %s",
               hx(in).c_str(), form, frames::text(got).c_str(),
               frames::text(d.f).c_str());
      MC_CHECK(content(seq) == in.substr(d.end), "decode-consumed",
               "decoding %s (%s) left %zu bytes, not %zu", hx(in).c_str(), form,
               seq.size(), in.size() - d.end);
      // What peek promised is what decode delivered.
      MC_CHECK(p && p.value() == static_cast<frame::type>(r.value()), "peek-decode",
               "peek and decode disagree about %s (%s)", hx(in).c_str(), form);
      break;
    }
    case ref::decoded::malformed:
      MC_CHECK(!r && r.error() == error::malformed_frame, "decode-malformed",
               "decoding %s (%s) is not malformed_frame but %s", hx(in).c_str(),
               form, r ? frames::text(frames::read(r.value())).c_str() : std::to_string(code(r.error())).c_str());
      break;
    case ref::decoded::incomplete:
    case ref::decoded::incomplete_or_malformed:
      MC_CHECK(!r, "decode-incomplete", "decoding the incomplete %s (%s) gave %s",
               hx(in).c_str(), form, frames::text(frames::read(r.value())).c_str());
      if (d.status == ref::decoded::incomplete_or_malformed &&
          r.error() == error::malformed_frame) {
        break;
      }
      MC_CHECK(r.error() == error::incomplete, "decode-incomplete-error",
               "decoding the incomplete %s (%s): error %llu", hx(in).c_str(), form,
               code(r.error()));
      {
        bytes rest = content(seq);
        MC_CHECK(rest == in.substr(d.boundaries.back()), "decode-incomplete-consumes",
                 "decoding the incomplete %s (%s) left %s, the incomplete frame is %s", hx(in).c_str(),
                 form, hx(rest).c_str(), hx(in.substr(d.boundaries.back())).c_str());
      }
      break;
  }
  mc::outcome(mc::hasher()
                .add(d.status)
                .add(frames::text(d.f))
                .add(d.end)
                .add(in.size()));
}

// Decodes from every kind of source; for lists, cut at `mask`.
static void
check_all(const bytes &in, uint64_t mask, int style)
{
  {
    buffer b = style == 1 ? heap(in) : buf(in);
    check_one(b, in, "buffer");
  }
  {
    buffer b = buf(in);
    buffer::lookahead l(b);
    check_one(l, in, "buffer lookahead");
    MC_CHECK(str(b) == in, "lookahead-consumes", "a lookahead changed its buffer");
  }
  {
    buffers b = cut(in, mask, style);
    check_one(b, in, "buffers");
  }
  {
    buffers b = cut(in, mask, style);
    buffers::lookahead l(b);
    check_one(l, in, "buffers lookahead");
    MC_CHECK(content(b) == in, "lookahead-consumes", "a lookahead changed its buffers");
  }
}

// All byte strings over an alphabet of structurally significant bytes.
static void
strings()
{
  static const std::vector<uint8_t> alphabet = { 0x00, 0x01, 0x02, 0x03, 0x04, 0x05,
                                                 0x06, 0x07, 0x09, 0x0d, 0x0e, 0x21,
                                                 0x40, 0x41, 0x80, 0xc0, 0xff };
  int length = mc::choose(mc::thorough() ? 7 : 6, "length");
  bytes in;
  for (int i = 0; i < length; i++) {
    in += static_cast<char>(mc::pick(alphabet, "byte"));
  }
  mc::log("bytes %s", hx(in).c_str());
  mc::state(mc::hasher().add(in));
  check_all(in, 0x5, length % 3);
}

// Encodings of frames with a wrong declared length, preceded by unknown frames,
// followed by more bytes, truncated anywhere.
struct payload {
  uint64_t type;
  std::vector<uint64_t> values; // Varints of the payload.
  bytes before, after;          // Raw bytes around them (PRIORITY).
};

static std::vector<payload>
payloads()
{
  return {
    { 0, {}, "", "" },
    { 1, {}, "", "" },
    { 2, { 5, 70 }, "\x9f", "\x11" },
    { 2, { 20000, 0 }, "\x20", "\xff" },
    { 3, { 0 }, "", "" },
    { 3, { 100 }, "", "" },
    { 3, { ref::VARINT_MAX }, "", "" },
    { 4, {}, "", "" },
    { 4, { 6, 100 }, "", "" },
    { 4, { 1, 0, 7, 16384 }, "", "" },
    { 4, { 6, 1, 9, 2, 1, 3, 7, 4 }, "", "" },
    { 4, { 33, 5, 9, 64, 300, 1, 6, 7 }, "", "" },
    { 4, { 6, 1, 6, 2 }, "", "" },
    { 5, { 1 }, "", "" },
    { 5, { 300 }, "", "" },
    { 7, { 4 }, "", "" },
    { 7, { 1073741824 }, "", "" },
    { 13, { 63 }, "", "" },
    { 13, { 64 }, "", "" },
    { 14, { 16383 }, "", "" },
    { 14, { 16384 }, "", "" },
  };
}

static const std::vector<bytes> &
prefixes()
{
  static std::vector<bytes> all;
  if (all.empty()) {
    all.push_back("");
    // Unknown types: reserved, grease, multi-byte, the removed type 8.
    std::vector<bytes> types = { ref::varint(6), ref::varint(8), ref::varint(0x21),
                                 ref::varint(0x40), ref::varint(0x1f * 7 + 0x21),
                                 ref::varint(0x10003), ref::varint(ref::VARINT_MAX) };
    for (const bytes &t : types) {
      for (int size : { 0, 1, 2, 3, 5 }) {
        if (!mc::thorough() && size != 0 && size != 3) {
          continue;
        }
        // The content of unknown frames looks like known ones.
        bytes body = bytes("\x04\x00\x01\x07\x0d", 5).substr(0, static_cast<size_t>(size));
        all.push_back(t + ref::varint(static_cast<uint64_t>(size)) + body);
      }
    }
    all.push_back(bytes("\x21\x01\x00", 3) + bytes("\x06\x02\x05\x05", 4));
    all.push_back(bytes("\x21\x00", 2) + bytes("\x21\x00", 2) + bytes("\x0f\x01\x03", 3));
    all.push_back(bytes("\x21\x40\x01\x00", 4)); // Length not minimal.
    all.push_back(bytes("\x21\x40\x40", 3) + bytes(64, '\x01'));
  }
  return all;
}

static void
structured()
{
  static const std::vector<payload> all = payloads();
  const payload &p = mc::pick(all, "frame");
  const bytes &prefix = mc::pick(prefixes(), "unknown frames before");
  bytes content_bytes = p.before;
  for (uint64_t v : p.values) {
    content_bytes += ref::varint(v);
  }
  content_bytes += p.after;
  static const std::vector<int> deltas = { 0, -1, 1, -2, 2, -100, 5, 60, 64 };
  int delta = mc::pick(deltas, "declared length");
  int64_t length = static_cast<int64_t>(content_bytes.size()) + delta;
  if (length < 0) {
    length = 0;
  }
  bytes type = ref::varint(p.type);
  int longer = mc::choose(3, "non-minimal type or length");
  if (longer == 1) {
    type = ref::varint_sized(p.type, 4);
  }
  bytes size = longer == 2 ? ref::varint_sized(static_cast<uint64_t>(length), 8)
                           : ref::varint(static_cast<uint64_t>(length));
  static const std::vector<bytes> tails =
    mc::thorough() ? std::vector<bytes>{ "", bytes("\x00", 1), bytes("\x01\x02\x03", 3), bytes(70, '\x40') }
                   : std::vector<bytes>{ "", bytes("\x01\x02", 2) + bytes(64, '\x40') };
  bytes frame_bytes = type + size + content_bytes + mc::pick(tails, "bytes after");
  bytes whole = prefix + frame_bytes;
  // Truncation: anywhere in the frame; prefixes have their own scenario.
  size_t from = prefix.empty() || prefix.size() > 8 ? prefix.size() : 0;
  int keep = mc::choose(static_cast<int>(whole.size() - from) + 1, "missing bytes");
  bytes in = whole.substr(0, whole.size() - static_cast<size_t>(keep));
  uint64_t mask = (keep % 3 == 0) ? ~uint64_t(0) : (keep % 3 == 1) ? 0x924924 : 0x4210;
  mc::log("bytes %s", hx(in).c_str());
  mc::state(mc::hasher().add(in));
  check_all(in, mask, keep % 3);
}

// Every segmentation into up to three pieces.
static void
segmented()
{
  static const std::vector<payload> all = payloads();
  const payload &p = mc::pick(all, "frame");
  static const std::vector<bytes> before = { "", bytes("\x21\x00", 2), bytes("\x21\x03\x00\x01\x04", 5),
                                             bytes("\x40\x41\x01\xff", 4) };
  bytes content_bytes = p.before;
  for (uint64_t v : p.values) {
    content_bytes += ref::varint(v);
  }
  content_bytes += p.after;
  static const std::vector<int> deltas = { 0, 1, -1 };
  int64_t length = static_cast<int64_t>(content_bytes.size()) + mc::pick(deltas, "length");
  bytes in = mc::pick(before, "unknown") + ref::varint(p.type) +
             ref::varint(static_cast<uint64_t>(length < 0 ? 0 : length)) +
             content_bytes + bytes("\x00\x05", 2);
  size_t a = static_cast<size_t>(mc::choose(static_cast<int>(in.size()) + 1, "cut"));
  size_t b = a + static_cast<size_t>(mc::choose(static_cast<int>(in.size() - a) + 1, "cut"));
  int style = mc::choose(3, "storage");
  mc::log("bytes %s cut at %zu, %zu", hx(in).c_str(), a, b);
  mc::state(mc::hasher().add(in).add(a).add(b));
  buffers q = cut_at(in, { a, b }, style);
  check_one(q, in, "buffers");
  buffers q2 = cut_at(in, { a, b }, style);
  buffers::lookahead l(q2);
  check_one(l, in, "buffers lookahead");
}

// Frames with many parts, and many frames.
void
many()
{
  static const std::vector<size_t> counts = { 0,   1,   2,   5,   10,  15,  16,  20,  31,  32,   33,
                                              63,  64,  65,  100, 127, 128, 129, 255, 256, 257,  300,
                                              511, 513, 1000, 1025, 4097, 8192 };
  size_t n = mc::pick(counts, "number");
  int what = mc::choose(7, "settings: unknown, large ids, one known, cycle; unknown frames: empty, "
                           "one byte; payload");
  int wrong = mc::choose(4, "complete, without last byte, one byte too short, one byte too long");
  bytes in, content;
  uint64_t type = ref::SETTINGS;
  switch (what) {
    case 0:
      for (size_t i = 0; i < n; i++) {
        content += ref::setting(0x21 + i % 20, i);
      }
      break;
    case 1:
      for (size_t i = 0; i < n; i++) {
        content += ref::setting((1ULL << 40) + i, (1ULL << 61) + i);
      }
      break;
    case 2:
      for (size_t i = 0; i < n; i++) {
        content += ref::setting(6, i);
      }
      break;
    case 3: {
      static const uint64_t known[] = { 1, 6, 7, 8, 9, 0x33 };
      for (size_t i = 0; i < n; i++) {
        content += ref::setting(known[i % 6], i * 100);
      }
      break;
    }
    case 4:
    case 5:
      for (size_t i = 0; i < n; i++) {
        in += ref::varint(0x21 + 0x1f * i) + (what == 4 ? bytes(1, '\0') : bytes("\x01\x04", 2));
      }
      content = ref::setting(6, 1) + ref::setting(1, n);
      break;
    default:
      in = ref::varint(0x21) + ref::varint(n * 16) + bytes(n * 16, '\x04');
      type = 0x0d;
      content = ref::varint(n);
      break;
  }
  size_t length = content.size();
  if (wrong == 2 && length > 0) {
    length--;
  } else if (wrong == 3) {
    length++;
  }
  in += ref::varint(type) + ref::varint(length) + content;
  if (wrong == 1) {
    in.pop_back();
  } else {
    in += bytes("\x00\x01\x02", 3);
  }
  mc::log("kind %d, %zu, %zu bytes", what, n, in.size());
  mc::state(mc::hasher().add(in));
  check_all(in, in.size() > 3000 ? 0x4 : 0x4210, static_cast<int>(n % 3));
}

// Frames of fixed shape with every byte, or every boundary value.
static void
values()
{
  static const std::vector<uint64_t> ids = { 0, 5, 63, 64, 16383, 16384, 1073741823, 1073741824, 0xffffffff,
                                             0x100000000, uint64_t(1) << 61, ref::VARINT_MAX };
  if (mc::choose(2, "frame: PRIORITY, others") == 0) {
    int first = mc::choose(256, "types");
    int weight = mc::choose(256, "weight");
    for (uint64_t id : { 0, 70 }) {
      bytes payload = static_cast<char>(first) + ref::varint(id) + ref::varint(id ^ 70) + static_cast<char>(weight);
      bytes in = ref::varint(2) + ref::varint(payload.size()) + payload;
      check_all(in + "z", 0x5, weight % 3);
    }
    return;
  }
  static const std::vector<int> types = { 0, 1, 3, 5, 7, 13, 14, 4 };
  int type = mc::pick(types, "type");
  uint64_t a = mc::pick(ids, "value"), b = mc::pick(ids, "value");
  int sizes = mc::choose(16, "sizes of the varints");
  auto encoded = [&](uint64_t v, int which) {
    bytes shortest = ref::varint(v);
    size_t size = size_t(1) << which;
    return size <= shortest.size() ? shortest : ref::varint_sized(v, size);
  };
  bytes payload, length;
  if (type == 0 || type == 1) {
    // The payload isn't part of what is decoded.
    length = encoded(a, sizes % 4);
    payload = "ab";
  } else if (type == 4) {
    payload = encoded(a, sizes % 4) + encoded(b, sizes / 4);
    length = ref::varint(payload.size());
  } else if (type == 5) {
    payload = encoded(a, sizes % 4);
    uint64_t all = payload.size() + b;
    length = all > ref::VARINT_MAX ? ref::varint(b) : ref::varint(all);
  } else {
    payload = encoded(a, sizes % 4);
    length = ref::varint(payload.size());
  }
  mc::log("type %d, %s", type, hx(payload).c_str());
  check_all(ref::varint(static_cast<uint64_t>(type)) + length + payload, 0x5, sizes % 3);
}

int
main(int argc, char **argv)
{
  return mc::run(argc, argv,
                 {
                   { "structured",
                     "21 payloads x 19 (thorough: 40) unknown-frame prefixes x 9 declared lengths x "
                     "3 encodings x 2 (4) tails x every truncation, 4 source types",
                     structured, 3 },
                   { "segmented", "21 payloads x 4 prefixes x 3 lengths x every pair of cuts x 3 storage forms",
                     segmented, 3 },
                   { "many",
        "0 to 8192 settings of 4 kinds or unknown frames of 3 kinds, complete, truncated, or with a "
        "length that is one off",
        many, 3 },
                   { "values",
                     "PRIORITY: all 65536 type bytes and weights; the other frames: 12 x 12 values in every "
                     "size of encoding",
                     values, 3 },
                   { "strings", "all strings of up to 5 (thorough: 6) bytes over 17 structural bytes, 4 source types",
                     strings, 3 },
                 });
}

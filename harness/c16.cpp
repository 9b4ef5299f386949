// C16: QPACK field lines use the static table exactly and round-trip.
#include "util.hpp"

#include <ref/qpack.hpp>

#include <bnl/http3/codec/qpack.hpp>

#include <algorithm>
#include <set>

using namespace util;
using bnl::http3::error;
using bnl::http3::header;
using bnl::http3::header_view;
namespace qpack = bnl::http3::qpack;
using ref::field;

static header_view
view(const field &f)
{
  return header_view(bnl::base::string_view(f.first.data(), f.first.size()),
                     bnl::base::string_view(f.second.data(), f.second.size()));
}

static bytes
string_of(bnl::base::string_view s)
{
  return bytes(s.data(), s.size());
}

static std::string
text(const field &f)
{
  return "'" + f.first + "': '" + f.second + "' (" + hx(f.first) + ": " +
         hx(f.second) + ")";
}

// A 16 byte string (without uppercase letters) whose 64-bit xxHash with seed 0
// is that of `s`: looking strings up by hash alone cannot tell them apart.
static bytes
collision(const bytes &s)
{
  const uint64_t P1 = 11400714785074694791ULL, P2 = 14029467366897019727ULL,
                 P3 = 1609587929392839161ULL, P4 = 9650029242287828579ULL,
                 P5 = 2870177450012600261ULL;
  auto rotl = [](uint64_t v, int n) { return v << n | v >> (64 - n); };
  auto rotr = [](uint64_t v, int n) { return v >> n | v << (64 - n); };
  auto inverse = [](uint64_t v) {
    uint64_t r = v;
    for (int i = 0; i < 6; i++) {
      r *= 2 - v * r;
    }
    return r;
  };
  auto read = [](const bytes &b, size_t at, int n) {
    uint64_t v = 0;
    for (int i = n - 1; i >= 0; i--) {
      v = v << 8 | static_cast<uint8_t>(b[at + static_cast<size_t>(i)]);
    }
    return v;
  };
  auto round = [&](uint64_t acc, uint64_t in) { return rotl(acc + in * P2, 31) * P1; };
  auto tail = [&](uint64_t h, const bytes &b, size_t at) {
    for (; at + 8 <= b.size(); at += 8) {
      h = rotl(h ^ round(0, read(b, at, 8)), 27) * P1 + P4;
    }
    if (at + 4 <= b.size()) {
      h = rotl(h ^ read(b, at, 4) * P1, 23) * P2 + P3;
      at += 4;
    }
    for (; at < b.size(); at++) {
      h = rotl(h ^ static_cast<uint8_t>(b[at]) * P5, 11) * P1;
    }
    return h;
  };
  auto finish = [&](uint64_t h) {
    h = (h ^ h >> 33) * P2;
    h = (h ^ h >> 29) * P3;
    return h ^ h >> 32;
  };
  auto hash = [&](const bytes &b) {
    uint64_t h;
    size_t at = 0;
    if (b.size() >= 32) {
      uint64_t v[4] = { P1 + P2, P2, 0, 0 - P1 };
      for (; at + 32 <= b.size(); at += 32) {
        for (size_t i = 0; i < 4; i++) {
          v[i] = round(v[i], read(b, at + 8 * i, 8));
        }
      }
      h = rotl(v[0], 1) + rotl(v[1], 7) + rotl(v[2], 12) + rotl(v[3], 18);
      for (uint64_t x : v) {
        h = (h ^ round(0, x)) * P1 + P4;
      }
    } else {
      h = P5;
    }
    return finish(tail(h + b.size(), b, at));
  };

  uint64_t target = hash(s);
  for (int salt = 0; salt < 1000; salt++) {
    bytes b = "x-" + std::to_string(100000 + salt);
    uint64_t h = tail(P5 + 16, b, 0);
    // Undo the finish, then choose the last eight bytes.
    uint64_t t = target;
    t ^= t >> 32;
    t *= inverse(P3);
    t ^= t >> 29 ^ t >> 58;
    t *= inverse(P2);
    t ^= t >> 33;
    uint64_t k = rotr((t - P4) * inverse(P1), 27) ^ h;
    uint64_t in = rotr(k * inverse(P1), 31) * inverse(P2);
    for (int i = 0; i < 8; i++) {
      b += static_cast<char>(in >> (8 * i));
    }
    if (hash(b) == target && !ref::has_uppercase(b)) {
      return b;
    }
  }
  return "no-collision-found";
}

// Encodes `f` with `encoder` (whose block is new or not) and checks everything.
static bytes
check_encode(qpack::encoder &encoder, const field &f, bool first, bool in_place)
{
  uint64_t before = encoder.count();
  auto size = encoder.encoded_size(view(f));
  bytes got;
  error failure = error::no_error;
  bool ok;
  if (in_place) {
    bytes area(f.first.size() * 4 + f.second.size() * 4 + 64, '\xc3');
    auto r = encoder.encode(reinterpret_cast<uint8_t *>(&area[4]), view(f));
    ok = r.has_value();
    if (ok) {
      got = area.substr(4, r.value());
      bytes rest = area.substr(4 + r.value());
      MC_CHECK(area.substr(0, 4) == bytes(4, '\xc3') && rest == bytes(rest.size(), '\xc3'),
               "encode-overrun", "encoding %s wrote outside", text(f).c_str());
    } else {
      failure = r.error();
    }
  } else {
    auto r = encoder.encode(view(f));
    ok = r.has_value();
    if (ok) {
      got = str(r.value());
    } else {
      failure = r.error();
    }
  }
  mc::step(2);

  if (ref::has_uppercase(f.first)) {
    MC_CHECK(!ok && failure == error::malformed_header, "encode-uppercase",
             "encoding %s is not refused with malformed_header", text(f).c_str());
    MC_CHECK(!size && size.error() == error::malformed_header, "size-uppercase",
             "the size of %s is not refused with malformed_header", text(f).c_str());
    MC_CHECK(encoder.count() == before, "encode-uppercase-count",
             "refusing %s changed the count", text(f).c_str());
    return "";
  }
  MC_CHECK(ok, "encode-failed", "encoding %s failed: %llu", text(f).c_str(),
           (unsigned long long) failure);
  MC_CHECK(size && size.value() == got.size(), "size",
           "the predicted size of %s is %zu, written %zu", text(f).c_str(),
           size ? size.value() : 0, got.size());
  bool found = false;
  std::vector<bytes> allowed = ref::field_encodings(f);
  for (const bytes &e : allowed) {
    found = found || got == (first ? bytes(2, '\0') + e : e);
  }
  MC_CHECK(found, "encode-bytes", "encoding %s%s wrote %s, not %s", text(f).c_str(),
           first ? " (first)" : "", hx(got).c_str(), hx(allowed.front()).c_str());
  MC_CHECK(encoder.count() == before + got.size(), "encode-count",
           "after encoding %s the count is %llu, not %llu", text(f).c_str(),
           (unsigned long long) encoder.count(),
           (unsigned long long) (before + got.size()));
  return got;
}

template<class Sequence>
static void
check_decode(qpack::decoder &decoder, Sequence &seq, const bytes &in, bool first,
             const char *form)
{
  size_t size_before = seq.size();
  uint64_t count_before = decoder.count();
  size_t at = first ? 2 : 0;
  auto r = decoder.decode(seq);
  mc::step();
  ref::field_read e;
  if (in.size() >= at) {
    e = ref::read_field(in, at);
  }
  MC_CHECK(decoder.count() - count_before == size_before - seq.size() ||
             (!r && r.error() != error::incomplete),
           "decode-count", "decoding %s (%s) consumed %zu bytes but counted %llu",
           hx(in).c_str(), form, size_before - seq.size(),
           (unsigned long long) (decoder.count() - count_before));
  switch (e.status) {
    case ref::field_read::ok:
      MC_CHECK(r.has_value(), "decode-failed", "decoding %s (%s): error %llu, not %s",
               hx(in).c_str(), form, (unsigned long long) r.error(), text(e.value).c_str());
      {
        field got(string_of(r.value().name()), string_of(r.value().value()));
        MC_CHECK(got == e.value, "decode-value", "decoding %s (%s) gave %s, not %s",
                 hx(in).c_str(), form, text(got).c_str(), text(e.value).c_str());
      }
      MC_CHECK(content(seq) == in.substr(e.end), "decode-consumed",
               "decoding %s (%s) left %zu bytes, not %zu", hx(in).c_str(), form,
               seq.size(), in.size() - e.end);
      break;
    case ref::field_read::failed:
      MC_CHECK(!r && r.error() == error::qpack_decompression_failed, "decode-invalid",
               "decoding the invalid %s (%s) gave %s", hx(in).c_str(), form,
               r ? text({ string_of(r.value().name()), string_of(r.value().value()) }).c_str()
                 : std::to_string(static_cast<unsigned long long>(r.error())).c_str());
      break;
    case ref::field_read::malformed:
      MC_CHECK(!r && r.error() == error::malformed_header, "decode-uppercase",
               "decoding %s (%s) is not refused with malformed_header",
               hx(in).c_str(), form);
      break;
    case ref::field_read::incomplete_or_failed:
      if (!r && r.error() == error::qpack_decompression_failed) {
        break;
      }
      // fall through
    case ref::field_read::incomplete: {
      MC_CHECK(!r && r.error() == error::incomplete, "decode-incomplete",
               "decoding the truncated %s (%s) is not incomplete", hx(in).c_str(), form);
      bytes rest = content(seq);
      MC_CHECK(rest == in || (first && in.size() >= 2 && rest == in.substr(2)),
               "decode-incomplete-consumes",
               "an incomplete decode of %s (%s) left %s", hx(in).c_str(), form,
               hx(rest).c_str());
      break;
    }
  }
}

static void
check_decode_all(const bytes &in, bool first, int style)
{
  bytes block = first ? in : in;
  auto prepare = [&](qpack::decoder &d) {
    if (!first) {
      // Get past the prefix of the block.
      buffer b = buf(bytes("\0\0\xc1", 3));
      auto r = d.decode(b);
      MC_CHECK(r && d.count() == 3, "decode-prepare", "decoding index 1 failed");
    }
  };
  {
    qpack::decoder d;
    prepare(d);
    buffer b = style == 1 ? heap(block) : buf(block);
    check_decode(d, b, block, first, "buffer");
  }
  {
    qpack::decoder d;
    prepare(d);
    buffers b = cut(block, style == 0 ? ~uint64_t(0) : 0x2a, style);
    check_decode(d, b, block, first, "buffers");
  }
}

// ------------------------------------------------------------ scenarios ---

static std::vector<bytes>
unique(std::vector<bytes> v)
{
  std::vector<bytes> out;
  std::set<bytes> seen;
  for (const bytes &s : v) {
    if (seen.insert(s).second) {
      out.push_back(s);
    }
  }
  return out;
}

static const std::vector<bytes> &
names()
{
  static std::vector<bytes> v;
  if (v.empty()) {
    for (const auto &e : ref::STATIC_TABLE) {
      v.push_back(e.name);
    }
    for (const auto &e : ref::STATIC_TABLE) {
      bytes n = e.name;
      v.push_back(n + "x");
      v.push_back(n.substr(0, n.size() - 1));
      v.push_back(n.substr(1));
      bytes m = n;
      m[n.size() / 2] ^= 1;
      v.push_back(m);
      m = n;
      m[n.size() - 1] = static_cast<char>(m[n.size() - 1] - 32); // Uppercase.
      v.push_back(m);
      m = n;
      m[n.size() > 1 && n[0] == ':' ? 1 : 0] -= 32;
      v.push_back(m);
      v.push_back(n + bytes(1, '\0'));
    }
    for (const auto &e : ref::STATIC_TABLE) {
      v.push_back(collision(e.name));
    }
    for (bytes n : { "", "a", "A", "Z", "@", "[", "`", "{", "az", "aZ", "x-custom",
                     "\xc3\x89", "0123456789", "a b" }) {
      v.push_back(n);
    }
    v.push_back(bytes(7, 'a'));
    v.push_back(bytes(300, '\xff'));
    v = unique(v);
  }
  return v;
}

static const std::vector<bytes> &
values()
{
  static std::vector<bytes> v;
  if (v.empty()) {
    for (const auto &e : ref::STATIC_TABLE) {
      v.push_back(e.value);
    }
    for (const auto &e : ref::STATIC_TABLE) {
      bytes s = e.value;
      v.push_back(s + " ");
      if (!s.empty()) {
        v.push_back(s.substr(0, s.size() - 1));
        s[s.size() - 1] ^= 1;
        v.push_back(s);
      }
    }
    for (const auto &e : ref::STATIC_TABLE) {
      v.push_back(collision(e.value));
    }
    for (bytes s : { "a", "UPPER", "\xff\xfe", "x-custom", ":path" }) {
      v.push_back(s);
    }
    v.push_back(bytes(3, '\0'));
    v.push_back(bytes(130, '\xff'));
    v.push_back(bytes(21, 'a'));
    v = unique(v);
  }
  return v;
}

static void
round_trip()
{
  field f;
  f.first = mc::pick(names(), "name");
  f.second = mc::pick(values(), "value");
  bool first = mc::choose(2, "first in block") == 1;
  bool in_place = mc::choose(2, "in place") == 1;
  mc::log("%s", text(f).c_str());
  qpack::encoder encoder;
  bytes all;
  if (!first) {
    all = check_encode(encoder, { ":path", "/" }, true, false);
  }
  bytes got = check_encode(encoder, f, first, in_place);
  if (!got.empty()) {
    check_decode_all(got + "\xff\xc1", first, static_cast<int>(got.size() % 3));
    // What the decoder returned is compared with the reference; it must also be
    // the header that went in.
    ref::field_read e = ref::read_field(got, first ? 2 : 0);
    MC_CHECK(e.status == ref::field_read::ok && e.value == f, "round-trip",
             "%s was encoded as something else", text(f).c_str());
  }
  mc::state(mc::hasher().add(f.first).add(f.second).add(first));
  mc::outcome(mc::hasher().add(got));
}

// Several headers through one encoder and one decoder, some of them refused.
static void
sequences()
{
  static const std::vector<field> alphabet = {
    { ":method", "GET" }, { ":authority", "" },     { "age", "17" },
    { "x", "y" },         { "X", "refused" },       { "", "" },
    { "content-security-policy", "script-src 'none'; object-src 'none'; base-uri 'none'" },
    { "user-agent", bytes(40, '~') }
  };
  int n = 1 + mc::choose(mc::thorough() ? 4 : 3, "headers");
  qpack::encoder encoder;
  std::vector<field> sent;
  bytes stream;
  for (int i = 0; i < n; i++) {
    const field &f = mc::pick(alphabet, "header");
    bytes got = check_encode(encoder, f, sent.empty(), i % 2 == 1);
    if (!ref::has_uppercase(f.first)) {
      sent.push_back(f);
      stream += got;
    }
    MC_CHECK(encoder.count() == stream.size(), "encode-count",
             "the encoder counts %llu of %zu bytes",
             (unsigned long long) encoder.count(), stream.size());
    mc::state(mc::hasher().add(stream));
  }
  // Moving an encoder or decoder keeps its position in the block.
  qpack::encoder moved(std::move(encoder));
  MC_CHECK(moved.count() == stream.size(), "move-count", "moving an encoder lost its count");
  bytes more = check_encode(moved, { "moved", "encoder" }, sent.empty(), false);
  sent.push_back({ "moved", "encoder" });
  stream += more;

  buffers queue = cut(stream, 0x1111111111111111, 2);
  qpack::decoder decoder;
  uint64_t total = stream.size();
  for (size_t i = 0; i < sent.size(); i++) {
    auto r = decoder.decode(queue);
    mc::step();
    MC_CHECK(r.has_value(), "sequence-decode", "header %zu does not decode", i);
    field got(string_of(r.value().name()), string_of(r.value().value()));
    MC_CHECK(got == sent[i], "sequence-value", "header %zu is %s, not %s", i,
             text(got).c_str(), text(sent[i]).c_str());
    MC_CHECK(decoder.count() == total - queue.size(), "decode-count",
             "the decoder counts %llu of %llu bytes",
             (unsigned long long) decoder.count(),
             (unsigned long long) (total - queue.size()));
    if (i == 0) {
      qpack::decoder other(std::move(decoder));
      decoder = std::move(other);
    }
  }
  MC_CHECK(queue.empty(), "sequence-rest", "bytes are left");
  mc::outcome(mc::hasher().add(stream));
}

// Every index in both forms that carry one, for both tables.
static void
indices()
{
  static std::vector<uint64_t> all;
  if (all.empty()) {
    for (uint64_t i = 0; i < 700; i++) {
      all.push_back(i);
    }
    for (int bit : { 10, 12, 15, 16, 24, 31, 32, 40, 48, 56, 63 }) {
      for (uint64_t d = 0; d < 110; d++) {
        all.push_back((uint64_t(1) << bit) + d);
        all.push_back((uint64_t(1) << bit) - 1 - d);
      }
    }
    for (uint64_t d = 0; d < 110; d++) {
      all.push_back(UINT64_MAX - d);
    }
  }
  uint64_t index = mc::pick(all, "index");
  int kind = mc::choose(6, "form");
  bytes line;
  switch (kind) {
    case 0: line = ref::prefix_int(index, 6, 0xc0); break;
    case 1: line = ref::prefix_int(index, 6, 0x80); break;
    case 2: line = ref::prefix_int(index, 4, 0x50) + ref::literal("value", 7); break;
    case 3: line = ref::prefix_int(index, 4, 0x70) + ref::literal("", 7); break;
    case 4: line = ref::prefix_int(index, 4, 0x40) + ref::literal("v", 7); break;
    case 5: line = ref::prefix_int(index, 4, 0x10) + bytes(2, '\0'); break;
  }
  bool first = mc::choose(2, "first in block") == 1;
  bytes in = (first ? bytes("\x00\x00", 2) : bytes()) + line + "\xc1";
  mc::log("index %llu form %d: %s", (unsigned long long) index, kind, hx(in).c_str());
  check_decode_all(in, first, static_cast<int>(index % 3));
  mc::state(mc::hasher().add(in));
  ref::field_read e = ref::read_field(in, first ? 2 : 0);
  mc::outcome(mc::hasher().add(e.status).add(e.value.first).add(e.value.second));
}

// Every first byte, followed by all short tails.
static void
inputs()
{
  static const std::vector<uint8_t> tail = { 0x00, 0x01, 0x02, 0x1f, 0x41, 0x7f, 0x80,
                                             0x81, 0x82, 0xff };
  bytes in(1, static_cast<char>(mc::choose(256, "first byte")));
  int n = mc::choose(mc::thorough() ? 6 : 4, "length");
  for (int i = 0; i < n; i++) {
    in += static_cast<char>(mc::pick(tail, "byte"));
  }
  int prefix = mc::choose(3, "prefix bytes");
  if (prefix == 1) {
    in = bytes(2, '\0') + in;
  } else if (prefix == 2) {
    in = bytes(2, '\0').substr(0, 1) + bytes(1, '\x7f') + in;
  }
  mc::log("bytes %s", hx(in).c_str());
  check_decode_all(in, prefix != 0, n % 3);
  mc::state(mc::hasher().add(in).add(static_cast<uint64_t>(prefix)));
  ref::field_read e = ref::read_field(in, prefix != 0 ? 2 : 0);
  mc::outcome(mc::hasher().add(e.status).add(e.value.first).add(e.value.second).add(e.end));
}

// Truncations of whole blocks, from the empty input on.
static void
truncated()
{
  static const std::vector<field> alphabet = {
    { ":method", "GET" }, { "age", "17" }, { "x", "y" }, { "x-longer-name", bytes(80, 'b') },
    { "x-frame-options", "sameorigin" }, { "abc", bytes(3, '\xff') },
  };
  bytes line = ref::field_line(mc::pick(alphabet, "header"));
  bytes in = bytes(2, '\0') + line;
  size_t keep = static_cast<size_t>(mc::choose(static_cast<int>(in.size()) + 1, "available"));
  in = in.substr(0, keep);
  int style = mc::choose(3, "storage");
  mc::log("bytes %s", hx(in).c_str());
  check_decode_all(in, true, style);
  mc::state(mc::hasher().add(in));
  mc::outcome(mc::hasher().add(in));
}

// Names of many lengths with an odd byte at every place.
static void
names_and_places()
{
  static const std::vector<int> lengths = [] {
    std::vector<int> r;
    for (int i = 1; i <= 70; i++) {
      r.push_back(i);
    }
    for (int n : { 126, 127, 128, 129, 150, 200, 254, 255, 256, 257, 300, 511, 512, 1000, 1024, 4096 }) {
      r.push_back(n);
    }
    return r;
  }();
  int n = mc::pick(lengths, "length");
  int places = n <= 70 ? n : 16;
  int k = mc::choose(places, "place");
  size_t at = static_cast<size_t>(n <= 70 || k < 5 ? k : k >= 11 ? n - 1 - (k - 11) : n * (k - 4) / 7);
  static const std::vector<int> some = { 'A', 'M', 'Z', '@', '[', 'z', ':', 0x00, 0x5f, 0x80, 0xc1, 0xff };
  int odd = n <= 8 ? mc::choose(256, "byte") : mc::pick(some, "byte");
  int form = mc::choose(3, "start: letter, colon, dash");
  bytes name(static_cast<size_t>(n), 'n');
  name[0] = form == 0 ? 'h' : form == 1 ? ':' : '-';
  name[at] = static_cast<char>(odd);
  field f(name, bytes(static_cast<size_t>(n % 3), 'V'));
  mc::log("name of %d bytes, byte %02x at %zu", n, odd, at);
  qpack::encoder encoder;
  bytes got = check_encode(encoder, f, true, n % 2 == 0);
  if (!got.empty()) {
    check_decode_all(got, true, n % 3);
  }
  for (bool huffman : { false, true }) {
    bytes in = bytes(2, '\0') + ref::literal_form(f.first, 3, huffman, 0x20) +
               ref::literal_form(f.second, 7, huffman);
    check_decode_all(in, true, n % 3);
  }
  mc::state(mc::hasher().add(name));
  mc::outcome(mc::hasher().add(name));
}

int
main(int argc, char **argv)
{
  return mc::run(
    argc, argv,
    {
      { "round-trip",
        "all static names, near misses, uppercase variants and hash collisions of each x all "
        "static values, near misses and hash collisions; first in block or not; both ways to encode",
        round_trip, 2 },
      { "sequences", "all sequences of up to 3 (thorough: 4) headers over 8, some refused", sequences, 2 },
      { "names", "names of 86 lengths up to 4096 with 12 (short names: all) bytes at up to 70 places, 3 starts",
        names_and_places, 2 },
      { "indices", "all indices below 700, around powers of two up to 2^64, in 6 field line forms", indices, 1 },
      { "inputs", "all first bytes followed by up to 3 (thorough: 5) bytes over 10, 3 block prefixes", inputs, 2 },
      { "truncated", "6 field lines, every truncation, 3 storage forms", truncated, 2 },
    });
}

// C18: a header section is encoded and decoded as exactly one HEADERS frame.
#include "util.hpp"

#include <ref/frame.hpp>
#include <ref/qpack.hpp>

#include <bnl/http3/codec/headers.hpp>

using namespace util;
using bnl::http3::error;
using bnl::http3::header_view;
using ref::field;
namespace headers = bnl::http3::headers;

static header_view
view(const field &f)
{
  return header_view(bnl::base::string_view(f.first.data(), f.first.size()),
                     bnl::base::string_view(f.second.data(), f.second.size()));
}

static unsigned long long
code(error e)
{
  return static_cast<unsigned long long>(e);
}

// A value that makes the header block [prefix, 'x-b' literal] `size` bytes.
static field
sized(size_t size)
{
  for (size_t n = size > 40 ? size - 40 : 0;; n++) {
    // Bytes with long Huffman codes, so that they are written literally.
    field f{ "x-b", bytes(n, '\x01') };
    size_t got = 2 + ref::field_line(f).size();
    if (got == size) {
      return f;
    }
    if (got > size) {
      return { "", "" };
    }
  }
}

static const std::vector<field> &
fields()
{
  static const std::vector<field> all = {
    { ":method", "GET" },
    { ":path", "/a" },
    { "x", "" },
    { "cookie", "" },
    { "Upper", "v" },
    { "x-bytes", bytes("\x00\xff\x0a", 3) },
    { "", "" },
  };
  return all;
}

// Whether `out` is a HEADERS frame of these fields, in order.
static bool
is_frame_of(const bytes &out, const std::vector<field> &added, std::string *why)
{
  uint64_t type = 0, length = 0;
  size_t n = ref::varint_read(out, 0, &type);
  size_t m = n == 0 ? 0 : ref::varint_read(out, n, &length);
  if (m == 0 || type != ref::HEADERS) {
    *why = "not a HEADERS frame";
    return false;
  }
  if (length != out.size() - n - m) {
    *why = "length " + std::to_string(length) + " of " + std::to_string(out.size() - n - m) +
           " bytes";
    return false;
  }
  if (n + m != ref::varint(1).size() + ref::varint(length).size()) {
    *why = "frame header is not minimal";
    return false;
  }
  size_t at = n + m;
  if (out.substr(at, 2) != bytes(2, '\0')) {
    *why = "no QPACK prefix";
    return false;
  }
  at += 2;
  for (const field &f : added) {
    bool found = false;
    for (const bytes &e : ref::field_encodings(f)) {
      if (out.compare(at, e.size(), e) == 0) {
        at += e.size();
        found = true;
        break;
      }
    }
    if (!found) {
      *why = "field '" + f.first + "' is not next at " + std::to_string(at);
      return false;
    }
  }
  if (at != out.size()) {
    *why = "bytes after the last field";
    return false;
  }
  return true;
}

static void
encoder_operations()
{
  int depth = mc::thorough() ? 7 : 6;
  headers::encoder encoder;
  std::vector<field> added;
  bool ended = false, finished = false;
  bytes out;
  int moves = 0;
  for (int d = 0; d < depth; d++) {
    int op = mc::choose(4 + static_cast<int>(fields().size()), "operation");
    mc::step();
    if (op == 0) {
      break;
    }
    if (op == 1) {
      mc::log("fin");
      auto r = encoder.fin();
      bool allowed = !ended && !added.empty();
      MC_CHECK(r.has_value() == allowed, "fin", "fin with %zu headers, %s: %s", added.size(),
               ended ? "ended" : "not ended", r ? "accepted" : "refused");
      ended = ended || allowed;
    } else if (op == 2) {
      auto r = encoder.encode();
      mc::log("encode: %s", r ? hx(str(r.value())).c_str() : std::to_string(code(r.error())).c_str());
      if (!ended) {
        MC_CHECK(!r && r.error() == error::idle, "encode-idle",
                 "encode before the end is not idle");
      } else if (finished) {
        MC_CHECK(!r && r.error() != error::idle, "encode-finished",
                 "encode after the end is not an error");
      } else {
        MC_CHECK(r.has_value(), "encode-failed", "encode fails with %llu", code(r.error()));
        out += str(r.value());
        finished = encoder.finished();
        if (finished) {
          std::string why;
          MC_CHECK(is_frame_of(out, added, &why), "encode-bytes", "emitted %s: %s",
                   hx(out).c_str(), why.c_str());
        }
      }
    } else if (op == 3) {
      if (++moves > 2) {
        break;
      }
      mc::log("move");
      headers::encoder moved(std::move(encoder));
      if (moves == 1) {
        encoder = std::move(moved);
      } else {
        headers::encoder other;
        other = std::move(moved);
        encoder = std::move(other);
      }
    } else {
      const field &f = fields()[static_cast<size_t>(op - 4)];
      auto r = encoder.add(view(f));
      mc::log("add '%s': %s", f.first.c_str(), r ? "ok" : "refused");
      bool allowed = !ended && !ref::has_uppercase(f.first);
      MC_CHECK(r.has_value() == allowed, "add", "add '%s', %s: %s", f.first.c_str(),
               ended ? "ended" : "not ended", r ? "accepted" : "refused");
      MC_CHECK(r || ended || r.error() == error::malformed_header, "add-error",
               "adding '%s' gives error %llu", f.first.c_str(), code(r.error()));
      if (allowed) {
        added.push_back(f);
      }
    }
    MC_CHECK(encoder.finished() == finished, "finished", "finished() is %d after %zu of the bytes",
             encoder.finished(), out.size());
    mc::state(mc::hasher().add(ended).add(finished).add(added.size()).add(out).add(
      added.empty() ? "" : added.back().first));
  }

  // Whatever was done: end it and drain it.
  if (!ended) {
    auto r = encoder.fin();
    MC_CHECK(r.has_value() == !added.empty(), "fin", "fin with %zu headers: %s", added.size(),
             r ? "accepted" : "refused");
    if (added.empty()) {
      auto e = encoder.encode();
      MC_CHECK(!e && e.error() == error::idle, "encode-idle", "encode of nothing is not idle");
      return;
    }
  }
  for (int i = 0; i < 100 && !encoder.finished(); i++) {
    auto r = encoder.encode();
    mc::step();
    MC_CHECK(r.has_value(), "encode-failed", "encode fails with %llu", code(r.error()));
    out += str(r.value());
  }
  MC_CHECK(encoder.finished(), "encode-endless", "encoding does not finish");
  std::string why;
  MC_CHECK(is_frame_of(out, added, &why), "encode-bytes", "emitted %s: %s", hx(out).c_str(),
           why.c_str());
  mc::outcome(mc::hasher().add(out));
}

// Header blocks of every interesting size, alone and made of several fields.
static void
encoder_sizes()
{
  static const std::vector<size_t> sizes = { 3,     4,     20,    21,    22,    61,    62,   63,
                                             64,    65,    66,    127,   128,   129,   255,  256,
                                             16381, 16382, 16383, 16384, 16385, 16386, 65535, 65536 };
  size_t size = mc::pick(sizes, "block size");
  int before = mc::choose(4, "fields before");
  int after = mc::choose(3, "fields after");
  // The fields around it take one byte each.
  size_t own = size > static_cast<size_t>(before + after) ? size - static_cast<size_t>(before + after) : 0;
  field f = sized(own);
  if (f.first.empty()) {
    return;
  }
  std::vector<field> list;
  for (int i = 0; i < before; i++) {
    list.push_back({ ":method", "GET" });
  }
  list.push_back(f);
  for (int i = 0; i < after; i++) {
    list.push_back({ ":path", "/" });
  }
  mc::log("block of %zu bytes, %zu fields", size, list.size());
  headers::encoder encoder;
  for (const field &g : list) {
    MC_CHECK(encoder.add(view(g)).has_value(), "add", "add is refused");
  }
  MC_CHECK(encoder.fin().has_value(), "fin", "fin is refused");
  bytes out;
  while (!encoder.finished()) {
    auto r = encoder.encode();
    mc::step();
    MC_CHECK(r.has_value(), "encode-failed", "encode fails with %llu", code(r.error()));
    out += str(r.value());
  }
  std::string why;
  MC_CHECK(is_frame_of(out, list, &why), "encode-bytes", "%zu fields, block of %zu: %s",
           list.size(), size, why.c_str());
  mc::state(mc::hasher().add(size).add(static_cast<uint64_t>(before * 4 + after)));
  mc::outcome(mc::hasher().add(out));

  // And back.
  headers::decoder decoder;
  buffers in = cut_at(out, { 1, out.size() / 2 }, before % 3);
  for (size_t i = 0; i < list.size(); i++) {
    MC_CHECK(!decoder.finished(), "decode-finished", "finished before header %zu", i);
    auto r = decoder.decode(in);
    mc::step();
    MC_CHECK(r.has_value(), "decode-failed", "decoding header %zu of a block of %zu: error %llu",
             i, size, code(r.error()));
    MC_CHECK(header_view(r.value()) == view(list[i]), "decode-value",
             "header %zu of a block of %zu is wrong", i, size);
  }
  MC_CHECK(decoder.finished() && in.empty(), "decode-finished",
           "not finished after the last header of a block of %zu", size);
}

// What decoding a stream gives, judged from all of its bytes.
struct section {
  std::vector<field> got;
  enum { done, waits, malformed, failed, delegate, bad_header } end = waits;
  size_t at = 0; // Where a delegated frame begins or the section ends.
};

static section
judge(const bytes &in)
{
  section s;
  uint64_t type = 0, length = 0;
  if (!ref::peek(in, &type)) {
    return s;
  }
  if (type != ref::HEADERS) {
    s.end = section::delegate;
    return s;
  }
  ref::decoded d = ref::decode(in);
  if (d.status != ref::decoded::ok) {
    return s;
  }
  length = d.f.id;
  size_t at = d.end;
  bytes block = in.substr(at, static_cast<size_t>(length));
  bool whole = block.size() == length;
  if (length == 0) {
    s.end = section::malformed;
    return s;
  }
  size_t p = 2;
  if (block.size() < 2) {
    s.end = whole ? section::malformed : section::waits;
    return s;
  }
  while (true) {
    if (p == length) {
      // Complete, unless there was nothing but the prefix.
      s.end = s.got.empty() ? section::malformed : section::done;
      s.at = at + p;
      return s;
    }
    ref::field_read r = ref::read_field(block, p);
    switch (r.status) {
      case ref::field_read::ok:
        s.got.push_back(r.value);
        p = r.end;
        continue;
      case ref::field_read::failed:
        s.end = section::failed;
        return s;
      case ref::field_read::malformed:
        s.end = section::bad_header;
        return s;
      default:
        s.end = whole ? (r.status == ref::field_read::incomplete ? section::malformed
                                                                 : section::failed)
                      : section::waits;
        return s;
    }
  }
}

// Decodes what arrived so far and compares with what has to come of it.
static void
check_decoder(const bytes &in, const std::vector<size_t> &cuts)
{
  headers::decoder decoder;
  buffers queue;
  bytes sofar;
  std::vector<field> got;
  std::vector<size_t> ends = cuts;
  ends.push_back(in.size());
  size_t from = 0;
  for (size_t end : ends) {
    bytes piece = in.substr(from, end - from);
    from = end;
    sofar += piece;
    queue.push(piece.size() % 2 == 0 ? buf(piece) : heap(piece));
    section expected = judge(sofar);
    while (true) {
      auto r = decoder.decode(queue);
      mc::step();
      if (r) {
        auto name = r.value().name();
        auto value = r.value().value();
        got.push_back({ bytes(name.data(), name.size()), bytes(value.data(), value.size()) });
        MC_CHECK(got.size() <= expected.got.size() && got.back() == expected.got[got.size() - 1],
                 "decode-value", "header %zu of %s is '%s': '%s'", got.size() - 1,
                 hx(sofar).c_str(), got.back().first.c_str(), got.back().second.c_str());
        bool last = got.size() == expected.got.size() && expected.end == section::done;
        MC_CHECK(decoder.finished() == last, "decode-finished",
                 "finished() is %d after header %zu of %s", decoder.finished(), got.size() - 1,
                 hx(sofar).c_str());
        if (last) {
          MC_CHECK(content(queue) == sofar.substr(expected.at), "decode-consumed",
                   "the section of %s is %zu bytes, but %zu are left", hx(sofar).c_str(),
                   expected.at, queue.size());
          auto again = decoder.decode(queue);
          MC_CHECK(!again && again.error() != error::incomplete &&
                     again.error() != error::delegate,
                   "decode-after-end", "decoding goes on after the last header");
          mc::outcome(mc::hasher().add(got.size()).add(1));
          return;
        }
        continue;
      }
      error e = r.error();
      MC_CHECK(got.size() == expected.got.size(), "decode-lost",
               "decoding %s gave error %llu after %zu of %zu headers", hx(sofar).c_str(), code(e),
               got.size(), expected.got.size());
      bool right = false;
      switch (expected.end) {
        case section::done:
          break;
        case section::waits:
          // Only errors that no further byte can repair may come early.
          right = e == error::incomplete ||
                  ((e == error::malformed_frame || e == error::qpack_decompression_failed) &&
                   judge(sofar + bytes(64, '\0')).end != section::done &&
                   judge(sofar + bytes(64, '\0')).end != section::waits);
          break;
        case section::malformed:
          right = e == error::malformed_frame;
          break;
        case section::failed:
          right = e == error::qpack_decompression_failed || e == error::malformed_frame;
          break;
        case section::bad_header:
          right = e == error::malformed_header;
          break;
        case section::delegate:
          right = e == error::delegate;
          break;
      }
      MC_CHECK(right, "decode-error", "decoding %s: error %llu after %zu headers (expected %d)",
               hx(sofar).c_str(), code(e), got.size(), static_cast<int>(expected.end));
      MC_CHECK(!decoder.finished(), "decode-finished", "finished() after an error");
      if (e == error::delegate) {
        // Nothing of the frame is consumed (unknown ones before it may be).
        uint64_t left = 0, type = 0;
        bytes rest = content(queue);
        MC_CHECK(sofar.size() >= rest.size() &&
                   sofar.substr(sofar.size() - rest.size()) == rest && ref::peek(rest, &left) &&
                   ref::peek(sofar, &type) && left == type && !decoder.started(),
                 "delegate-consumes", "delegating %s leaves %s", hx(sofar).c_str(),
                 hx(rest).c_str());
      }
      if (e == error::incomplete) {
        break;
      }
      mc::outcome(mc::hasher().add(got.size()).add(code(e)));
      return;
    }
  }
  mc::outcome(mc::hasher().add(got.size()).add(2));
}

static const std::vector<bytes> &
blocks()
{
  static std::vector<bytes> all;
  if (all.empty()) {
    bytes p(2, '\0');
    all = {
      "",
      p.substr(0, 1),
      p,
      p + ref::indexed(17),
      p + ref::indexed(17) + ref::indexed(1) + ref::indexed(23),
      bytes("\x07\x83", 2) + ref::indexed(25) + ref::name_reference(4, "12"),
      p + ref::literal_name({ "x-name", "a value" }) + ref::literal_name({ "y", "" }),
      p + ref::name_reference(84, "text/plain") + ref::indexed(0),
      p + ref::literal_name({ "", "" }),
      p + ref::literal_name({ "Name", "v" }) + ref::indexed(25),
      p + ref::indexed(25) + bytes("\x80", 1),
      p + ref::indexed(99),
      p + ref::name_reference(99, "v"),
      p + ref::indexed(25) + bytes("\x05", 1),
      p + bytes("\x2a\xff\xff", 3) + ref::indexed(25),
    };
  }
  return all;
}

static void
decoder_inputs()
{
  static const std::vector<bytes> before = {
    "", bytes("\x21\x00", 2), bytes("\x40\x41\x02\x01\x01", 5), bytes("\x00\x00", 2),
    bytes("\x04\x00", 2), bytes("\x21\x01\x00\x03\x01\x05", 6), bytes("\x05\x01\x02", 3),
  };
  static const std::vector<bytes> after = { "", bytes("\x00\x01x", 3), bytes("\xc0\xd1\xff\xff\xff", 5),
                                            bytes("\x01\x03\x00\x00\xd1", 5) };
  const bytes &b = mc::pick(blocks(), "block");
  // Around the block's size, or with only the low bits of it.
  static const std::vector<int64_t> deltas = { -3,         -2,         -1,         0,          1,          2,         3,
                                               1LL << 8,   1LL << 16,  1LL << 24,  1LL << 32,  1LL << 40,  1LL << 48, 1LL << 56 };
  int64_t delta = mc::pick(deltas, "declared length");
  int64_t length = static_cast<int64_t>(b.size()) + delta;
  if (length < 0) {
    return;
  }
  int form = delta > 3 ? 1 : mc::choose(2, "length encoding");
  bytes in = mc::pick(before, "before") + ref::varint(1) +
             ref::varint_sized(static_cast<uint64_t>(length), delta > 3 ? 8 : form == 0 ? 1 : 4) + b +
             mc::pick(after, "after");
  int missing = mc::choose(mc::thorough() ? static_cast<int>(in.size()) + 1 : 4, "truncate");
  in = in.substr(0, in.size() - std::min(in.size(), static_cast<size_t>(missing)));
  size_t first = static_cast<size_t>(mc::choose(static_cast<int>(in.size()) + 2, "cut"));
  std::vector<size_t> cuts;
  if (first == in.size() + 1) {
    for (size_t i = 1; i < in.size(); i++) {
      cuts.push_back(i);
    }
  } else {
    cuts.push_back(first);
    if (mc::thorough()) {
      cuts.push_back(first + static_cast<size_t>(mc::choose(static_cast<int>(in.size() - first) + 1, "cut")));
    }
  }
  mc::log("bytes %s, %zu cuts, first at %zu", mc::hex(in, 100).c_str(), cuts.size(), first);
  mc::hasher h;
  h.add(in);
  for (size_t c : cuts) {
    h.add(c);
  }
  mc::state(h);
  check_decoder(in, cuts);
}

// Large blocks, the last line of which may not fit.
static void
decoder_large()
{
  static const std::vector<size_t> sizes = { 60, 64, 200, 1000, 4090, 4096, 5000, 16380, 16384, 70000 };
  size_t n = mc::pick(sizes, "size");
  static const std::vector<int> more = { -1, 0, 1, 2, 100, 1 << 20 };
  size_t length = static_cast<size_t>(static_cast<int>(n) + mc::pick(more, "length of the last value"));
  bytes b(2, '\0');
  b += ref::literal_name({ "first", "v" }) + "\x21n" + ref::prefix_int(length, 7) + bytes(n, 'v');
  static const std::vector<bytes> after = { "", bytes("\x00\x01x", 3), bytes(300, 'v') };
  bytes in = ref::varint(1) + ref::varint(b.size()) + b + mc::pick(after, "after");
  std::vector<size_t> cuts;
  switch (mc::choose(5, "cuts: none, near the start, in the middle, near the end, packets")) {
    case 0:
      break;
    case 1:
      cuts.push_back(1 + static_cast<size_t>(mc::choose(20, "at")));
      break;
    case 2:
      cuts.push_back(in.size() / 2);
      break;
    case 3:
      cuts.push_back(in.size() - 1 - static_cast<size_t>(mc::choose(8, "at")));
      break;
    default:
      for (size_t i = 1200; i < in.size(); i += 1200) {
        cuts.push_back(i);
      }
      break;
  }
  mc::log("block of %zu bytes, last value of %zu", b.size(), length);
  mc::state(mc::hasher().add(in).add(cuts.size()).add(cuts.empty() ? 0 : cuts[0]));
  check_decoder(in, cuts);
}

// Lists of fields in every order, encoded by the encoder, decoded again.
static void
round_trip()
{
  static const std::vector<field> some = {
    { ":status", "200" },
    { "content-type", "text/html; charset=utf-8" },
    { "accept", "no/such" },
    { "x-long-name-that-is-not-in-the-table", bytes(130, 'v') },
    { "x", bytes("\x00\x7f\x80\xff", 4) },
    { "", "empty name" },
  };
  int n = 1 + mc::choose(mc::thorough() ? 5 : 4, "headers");
  std::vector<field> list;
  headers::encoder encoder;
  for (int i = 0; i < n; i++) {
    list.push_back(mc::pick(some, "header"));
    MC_CHECK(encoder.add(view(list.back())).has_value(), "add", "add is refused");
  }
  MC_CHECK(encoder.fin().has_value(), "fin", "fin is refused");
  buffers queue;
  bytes all;
  while (!encoder.finished()) {
    auto r = encoder.encode();
    MC_CHECK(r.has_value(), "encode-failed", "encode fails with %llu", code(r.error()));
    all += str(r.value());
    queue.push(std::move(r.value()));
    mc::step();
  }
  mc::log("%d headers, %zu bytes", n, all.size());
  queue.push(buf("tail"));
  headers::decoder decoder;
  for (int i = 0; i < n; i++) {
    auto r = decoder.decode(queue);
    mc::step();
    MC_CHECK(r.has_value() && header_view(r.value()) == view(list[static_cast<size_t>(i)]),
             "decode-value", "header %d of %s is not as encoded", i, hx(all).c_str());
    MC_CHECK(decoder.finished() == (i + 1 == n), "decode-finished",
             "finished() is %d after header %d of %d", decoder.finished(), i, n);
  }
  MC_CHECK(content(queue) == "tail", "decode-consumed", "not exactly the frame is consumed");
  mc::state(mc::hasher().add(all));
  mc::outcome(mc::hasher().add(all));
}

int
main(int argc, char **argv)
{
  return mc::run(
    argc, argv,
    {
      { "encoder-operations",
        "every sequence of up to 6 (thorough: 7) of: add one of 7 headers, fin, encode, move; then drained",
        encoder_operations, 3 },
      { "encoder-sizes", "24 header block sizes around the length classes x 4 x 3 further fields",
        encoder_sizes, 2 },
      { "round-trip", "every list of up to 4 (thorough: 5) of 6 headers", round_trip, 2 },
      { "decoder-large", "blocks of 10 sizes up to 70000 x 6 lengths of the last value x 3 frames after x 31 ways to cut",
        decoder_large, 3 },
      { "decoder-inputs",
        "15 blocks x 14 declared lengths x 2 encodings x 7 frames before x 4 after x truncations x every "
        "cut (thorough: two cuts, every truncation)",
        decoder_inputs, 3 },
    });
}

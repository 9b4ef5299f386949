// C19: a message body is carried by DATA frames without loss.
#include "util.hpp"

#include <ref/frame.hpp>

#include <bnl/http3/codec/body.hpp>

using namespace util;
using bnl::http3::error;
namespace body = bnl::http3::body;

static unsigned long long
code(error e)
{
  return static_cast<unsigned long long>(e);
}

static bytes
pattern(size_t size, int seed)
{
  bytes s;
  s.reserve(size);
  for (size_t i = 0; i < size; i++) {
    s += static_cast<char>(static_cast<size_t>(seed) * 41 + i * 7 + (i >> 8));
  }
  return s;
}

// Whether `out` is a beginning of: one DATA frame per piece, where frames of
// empty pieces may be left out. `whole`: it has to be all of it.
static bool
frames_of(const bytes &out, const std::vector<bytes> &pieces, bool whole)
{
  size_t at = 0;
  for (const bytes &p : pieces) {
    bytes frame = ref::varint(0) + ref::varint(p.size()) + p;
    size_t n = std::min(frame.size(), out.size() - at);
    if (out.compare(at, n, frame, 0, n) == 0 && n == frame.size()) {
      at += n;
    } else if (p.empty()) {
      continue;
    } else if (!whole && at + n == out.size() && out.compare(at, n, frame, 0, n) == 0) {
      return true;
    } else {
      return false;
    }
  }
  return at == out.size();
}

// Is there anything but empty pieces left to emit?
static bool
owes(const bytes &out, const std::vector<bytes> &pieces)
{
  return !frames_of(out, pieces, true);
}

static void
check_operations(const std::vector<bytes> &alphabet, int depth)
{
  body::encoder encoder;
  std::vector<bytes> pieces;
  bytes out;
  bool ended = false;
  int moves = 0;
  auto encode = [&]() {
    auto r = encoder.encode();
    mc::step();
    mc::log("encode: %s", r ? hx(str(r.value())).c_str() : std::to_string(code(r.error())).c_str());
    if (r) {
      out += str(r.value());
      MC_CHECK(frames_of(out, pieces, false), "encode-bytes", "emitted %s for %zu pieces",
               hx(out).c_str(), pieces.size());
      return true;
    }
    MC_CHECK(!owes(out, pieces), "encode-stuck",
             "encode fails with %llu while only %s was emitted of %zu pieces", code(r.error()),
             hx(out).c_str(), pieces.size());
    if (!ended) {
      MC_CHECK(r.error() == error::idle, "encode-idle", "encode of nothing gives %llu, not idle",
               code(r.error()));
    } else {
      MC_CHECK(r.error() != error::idle || !encoder.finished(), "encode-finished",
               "encode after the end is idle");
    }
    return false;
  };
  for (int d = 0; d < depth; d++) {
    int op = mc::choose(4 + static_cast<int>(alphabet.size()), "operation");
    mc::step();
    if (op == 0) {
      break;
    }
    if (op == 1) {
      auto r = encoder.fin();
      mc::log("fin: %s", r ? "ok" : "refused");
      MC_CHECK(r.has_value() == !ended, "fin", "ending %s is %s",
               ended ? "again" : "for the first time", r ? "accepted" : "refused");
      ended = true;
    } else if (op == 2) {
      encode();
    } else if (op == 3) {
      if (++moves > 2) {
        break;
      }
      body::encoder moved(std::move(encoder));
      encoder = std::move(moved);
      mc::log("move");
    } else {
      const bytes &p = alphabet[static_cast<size_t>(op - 4)];
      auto r = encoder.add(p.size() % 2 == 0 ? heap(p) : buf(p));
      mc::log("add %zu bytes: %s", p.size(), r ? "ok" : "refused");
      MC_CHECK(r.has_value() == !ended, "add", "adding %s is %s",
               ended ? "after the end" : "before the end", r ? "accepted" : "refused");
      if (r) {
        pieces.push_back(p);
      }
    }
    // Empty pieces may or may not be emitted: only then is there a choice.
    bool nothing_owed = !owes(out, pieces);
    bool trailing_empty = !pieces.empty() && pieces.back().empty();
    bool f = encoder.finished();
    if (f) {
      MC_CHECK(ended && nothing_owed, "finished-early",
               "finished() after %s of %zu pieces, %s", hx(out).c_str(), pieces.size(),
               ended ? "ended" : "not ended");
    } else {
      MC_CHECK(!ended || !nothing_owed || trailing_empty, "finished-late",
               "not finished() though ended and all emitted");
    }
    mc::state(mc::hasher().add(out).add(ended).add(f).add(pieces.size()).add(
      pieces.empty() ? 99 : pieces.back().size()));
  }
  if (!ended) {
    MC_CHECK(encoder.fin().has_value(), "fin", "ending is refused");
    ended = true;
  }
  for (int i = 0; i < 1000 && !encoder.finished(); i++) {
    if (!encode()) {
      break;
    }
  }
  MC_CHECK(encoder.finished(), "finished-never", "not finished() after everything was emitted");
  MC_CHECK(frames_of(out, pieces, true), "encode-bytes", "emitted %s for %zu pieces",
           hx(out).c_str(), pieces.size());
  MC_CHECK(!encoder.add(buf("x")).has_value(), "add", "adding after the end is accepted");
  MC_CHECK(!encoder.fin().has_value(), "fin", "ending again is accepted");
  MC_CHECK(!encode(), "encode-finished", "something is emitted after the end");
  mc::outcome(mc::hasher().add(out));
}

static void
encoder_operations()
{
  static const std::vector<bytes> alphabet = { "", "a", pattern(20, 1), pattern(21, 2),
                                               pattern(64, 3) };
  check_operations(alphabet, mc::thorough() ? 7 : 6);
}

static void
encoder_sizes()
{
  static const std::vector<size_t> sizes = { 0,   1,   19,  20,    21,    22,    40,    62,    63,
                                             64,  65,  127, 128,   255,   256,   1000,  4096,  16382,
                                             16383, 16384, 16385, 65535, 65536, 70000,
                                             (1 << 20) + 3, (1 << 24) + 5 };
  std::vector<bytes> pieces;
  for (int i = 0; i < 2; i++) {
    bool small = i == 1 && pieces[0].size() > 100000;
    size_t n = small ? 300 : mc::pick(sizes, "size");
    pieces.push_back(pattern(n, i));
  }
  bool late = mc::choose(2, "fin late") == 1;
  mc::log("pieces of %zu and %zu bytes", pieces[0].size(), pieces[1].size());
  body::encoder encoder;
  bytes out;
  for (const bytes &p : pieces) {
    MC_CHECK(encoder.add(buf(p)).has_value(), "add", "adding is refused");
  }
  if (!late) {
    MC_CHECK(encoder.fin().has_value(), "fin", "ending is refused");
  }
  while (!encoder.finished()) {
    auto r = encoder.encode();
    mc::step();
    if (!r && r.error() == error::idle) {
      break;
    }
    MC_CHECK(r.has_value(), "encode-failed", "encode fails with %llu", code(r.error()));
    out += str(r.value());
  }
  if (late) {
    MC_CHECK(encoder.fin().has_value(), "fin", "ending is refused");
  }
  MC_CHECK(encoder.finished(), "finished-never", "not finished() after everything was emitted");
  MC_CHECK(frames_of(out, pieces, true), "encode-bytes", "emitted %s", hx(out).c_str());
  mc::state(mc::hasher().add(pieces[0].size()).add(pieces[1].size()).add(late));
  mc::outcome(mc::hasher().add(out));

  // And back, in two styles of arrival.
  for (size_t cut : { size_t(0), std::min(out.size(), size_t(1)), out.size() / 2, out.size() }) {
    body::decoder decoder;
    buffers in;
    bytes got;
    for (int part = 0; part < 2; part++) {
      in.push(buf(part == 0 ? out.substr(0, cut) : out.substr(cut)));
      while (true) {
        auto r = decoder.decode(in);
        mc::step();
        if (!r) {
          MC_CHECK(r.error() == error::incomplete, "decode-failed", "decode fails with %llu",
                   code(r.error()));
          break;
        }
        got += str(r.value());
      }
    }
    MC_CHECK(got == pieces[0] + pieces[1], "decode-bytes", "%zu bytes come back of %zu, cut at %zu",
             got.size(), pieces[0].size() + pieces[1].size(), cut);
    MC_CHECK(!decoder.in_progress() && in.empty(), "decode-end", "decoding does not end");
  }
}

// What the bytes so far stand for.
struct judged {
  bytes body;
  bool in_progress = false;
  bool delegate = false;
  uint64_t type = 0;
  size_t at = 0; // Beginning of the frame to be handled by the caller.
};

static judged
judge(const bytes &in)
{
  judged j;
  size_t at = 0;
  while (true) {
    uint64_t type = 0, length = 0;
    size_t n = ref::varint_read(in, at, &type);
    if (n == 0) {
      return j;
    }
    if (ref::known(type) && type != ref::DATA) {
      j.delegate = true;
      j.type = type;
      j.at = at;
      return j;
    }
    size_t m = ref::varint_read(in, at + n, &length);
    if (m == 0) {
      return j;
    }
    size_t p = at + n + m;
    size_t have = in.size() - p < length ? in.size() - p : static_cast<size_t>(length);
    if (type == ref::DATA) {
      j.body += in.substr(p, have);
      if (have < length) {
        j.in_progress = true;
        return j;
      }
    } else if (have < length) {
      return j;
    }
    at = p + have;
  }
}

template<class Sequence, class Append>
static void
check_decoder(const std::vector<bytes> &pieces, Sequence &queue, Append append, const char *form)
{
  body::decoder decoder;
  bytes sofar, got;
  for (size_t i = 0; i < pieces.size(); i++) {
    sofar += pieces[i];
    append(pieces[i], i);
    judged j = judge(sofar);
    for (int calls = 0;; calls++) {
      MC_CHECK(calls < 200, "endless", "decoding %s (%s) does not end", hx(sofar).c_str(), form);
      size_t before = queue.size();
      auto r = decoder.decode(queue);
      mc::step();
      if (r) {
        got += str(r.value());
        MC_CHECK(queue.size() < before, "no-progress", "a piece was returned but nothing consumed");
        MC_CHECK(j.body.compare(0, got.size(), got) == 0, "decode-bytes",
                 "decoding %s (%s) returned %s", hx(sofar).c_str(), form, hx(got).c_str());
        // In progress exactly if payload of this frame is still to be returned.
        judged upto = judge(sofar.substr(0, sofar.size() - queue.size()));
        MC_CHECK(decoder.in_progress() == upto.in_progress, "in-progress",
                 "in_progress() is %d after %zu bytes of %s (%s)", decoder.in_progress(),
                 sofar.size() - queue.size(), hx(sofar).c_str(), form);
        continue;
      }
      MC_CHECK(got == j.body, "decode-lost",
               "decoding %s (%s): error %llu after %zu of %zu body bytes", hx(sofar).c_str(), form,
               code(r.error()), got.size(), j.body.size());
      MC_CHECK(decoder.in_progress() == j.in_progress, "in-progress",
               "in_progress() is %d at the end of %s (%s)", decoder.in_progress(),
               hx(sofar).c_str(), form);
      if (j.delegate) {
        MC_CHECK(r.error() == error::delegate, "decode-delegate",
                 "the frame of type %llu in %s (%s) gives error %llu", (unsigned long long) j.type,
                 hx(sofar).c_str(), form, code(r.error()));
        bytes rest = content(queue);
        uint64_t type = 0;
        MC_CHECK(rest.size() >= sofar.size() - j.at &&
                   sofar.substr(sofar.size() - rest.size()) == rest && ref::peek(rest, &type) &&
                   type == j.type,
                 "delegate-consumes", "delegating in %s (%s) leaves %s", hx(sofar).c_str(), form,
                 hx(rest).c_str());
        mc::outcome(mc::hasher().add(got).add(j.type));
        return;
      }
      MC_CHECK(r.error() == error::incomplete, "decode-error", "decoding %s (%s): error %llu",
               hx(sofar).c_str(), form, code(r.error()));
      break;
    }
  }
  mc::outcome(mc::hasher().add(got).add(sofar.size()));
}

static void
decode_both(const std::vector<bytes> &pieces)
{
  {
    buffers queue;
    check_decoder(
      pieces, queue,
      [&](const bytes &p, size_t i) { queue.push(i % 2 == 0 ? buf(p) : heap(p)); }, "list");
  }
  {
    buffer queue;
    check_decoder(
      pieces, queue, [&](const bytes &p, size_t) { queue = buffer::concat(queue, buf(p)); },
      "buffer");
  }
}

// Every sequence of frames, cut everywhere.
static void
decoder_sequences()
{
  static const std::vector<bytes> elements = {
    bytes("\x00\x00", 2),                 // Empty DATA.
    bytes("\x00\x01\x61", 3),             //
    bytes("\x00\x40\x03\x00\x01\x02", 6), // Length not minimal, payload like frames.
    bytes("\x40\x00\x02\x78\x79", 5),     // Type not minimal.
    bytes("\x21\x00", 2),                 // Unknown.
    bytes("\x40\x41\x02\x00\x05", 5),     // Unknown with payload like DATA.
    bytes("\x01\x02\x00\x00", 4),         // HEADERS.
    bytes("\x04\x00", 2),                 // SETTINGS.
    bytes("\x05\x02\x01\x00", 4),         // PUSH_PROMISE.
  };
  int n = 1 + mc::choose(mc::thorough() ? 4 : 3, "frames");
  bytes in;
  for (int i = 0; i < n; i++) {
    in += mc::pick(elements, "frame");
  }
  size_t a = static_cast<size_t>(mc::choose(static_cast<int>(in.size()) + 2, "cut"));
  std::vector<bytes> pieces;
  if (a == in.size() + 1) {
    for (char c : in) {
      pieces.push_back(bytes(1, c));
    }
  } else {
    size_t b = a + static_cast<size_t>(mc::choose(static_cast<int>(in.size() - a) + 1, "cut"));
    pieces = { in.substr(0, a), in.substr(a, b - a), in.substr(b) };
  }
  mc::log("bytes %s", hx(in).c_str());
  mc::hasher h;
  for (const bytes &p : pieces) {
    h.add(p);
  }
  mc::state(h);
  decode_both(pieces);
}

// Large and truncated payloads, lengths of every class.
static void
decoder_sizes()
{
  static const std::vector<size_t> sizes = { 0, 1, 20, 21, 63, 64, 100, 16383, 16384, 70000 };
  size_t first = mc::pick(sizes, "size");
  size_t second = mc::pick(sizes, "size");
  int form = mc::choose(3, "length encoding");
  bytes header = ref::varint(0) + (form == 0   ? ref::varint(first)
                                   : form == 1 ? ref::varint_sized(first, 8)
                                               : ref::varint_sized(first, first < 16384 ? 2 : 4));
  bytes in = header + pattern(first, 1) + ref::varint(0) + ref::varint(second) + pattern(second, 2);
  std::vector<size_t> marks = { 0, 1, header.size() - 1, header.size(), header.size() + first / 2,
                                header.size() + first, header.size() + first + 1, in.size() - 1, in.size() };
  size_t a = mc::pick(marks, "cut");
  size_t b = mc::pick(marks, "cut");
  size_t missing = static_cast<size_t>(mc::choose(2, "truncated"));
  if (b < a) {
    std::swap(a, b);
  }
  in = in.substr(0, in.size() - missing);
  a = std::min(a, in.size());
  b = std::min(b, in.size());
  mc::log("DATA of %zu and %zu, cut at %zu and %zu", first, second, a, b);
  mc::state(mc::hasher().add(first).add(second).add(a).add(b).add(missing).add(static_cast<uint64_t>(form)));
  decode_both({ in.substr(0, a), in.substr(a, b - a), in.substr(b) });
}

// A payload that is declared far larger than what ever arrives.
static void
decoder_huge()
{
  static const std::vector<uint64_t> lengths = { 1000,       16384,          (1ULL << 30) - 1, 1ULL << 30,
                                                 1ULL << 32, (1ULL << 32) + 3, 1ULL << 61,      (1ULL << 62) - 1 };
  uint64_t length = mc::pick(lengths, "length");
  int n = mc::choose(5, "pieces");
  std::vector<bytes> pieces = { ref::varint(0) + ref::varint(length) };
  for (int i = 0; i < n; i++) {
    static const std::vector<size_t> sizes = { 0, 1, 3, 50 };
    pieces.push_back(pattern(mc::pick(sizes, "piece"), i));
  }
  mc::log("DATA of %llu bytes", (unsigned long long) length);
  mc::hasher h;
  h.add(length);
  for (const bytes &p : pieces) {
    h.add(p.size());
  }
  mc::state(h);
  decode_both(pieces);
}

int
main(int argc, char **argv)
{
  return mc::run(
    argc, argv,
    {
      { "encoder-operations",
        "every sequence of up to 6 (thorough: 7) of: add one of 5 pieces, fin, encode, move; then drained",
        encoder_operations, 3 },
      { "encoder-sizes", "every pair of 24 piece sizes, ended early or late, and back", encoder_sizes, 2 },
      { "decoder-sequences",
        "every sequence of up to 3 (thorough: 4) of 9 frames x every pair of cuts or byte by byte, list and buffer",
        decoder_sequences, 3 },
      { "decoder-sizes", "pairs of 10 payload sizes x 3 length encodings x pairs of 9 cuts, whole or truncated",
        decoder_sizes, 3 },
      { "decoder-huge", "8 declared lengths up to 2^62-1 x up to 4 pieces of 4 sizes", decoder_huge, 2 },
    });
}

// C08: hostile peers cannot crash, hang or exhaust an endpoint. Runs with
// address and undefined behaviour checking; every error of those, every abort
// and every exception counts.
#include "corpus.hpp"

using namespace conn;
using corpus::stream;

namespace {

role
choose_role()
{
  return mc::choose(2, "role") == 0 ? role::client : role::server;
}

// What may be held for what was received.
void
check_memory(uint64_t before, uint64_t now, size_t received, size_t segments, size_t streams)
{
  uint64_t held = now > before ? now - before : 0;
  uint64_t limit = 4 * received + 1024 * segments + 4096 * streams + 4096;
  MC_CHECK(held <= limit, "memory",
           "%lu bytes of memory are held for %zu bytes received in %zu segments on %zu streams",
           held, received, segments, streams);
}

void
check_peak(int64_t peak, size_t received, size_t segments, size_t streams)
{
  int64_t limit = static_cast<int64_t>(16 * received + 1024 * segments + 4096 * streams + 8192);
  MC_CHECK(peak <= limit, "memory-peak",
           "%ld bytes of memory were used at once for %zu bytes received in %zu segments on %zu "
           "streams",
           peak, received, segments, streams);
}

// Delivers and compares with the reference.
void
against_reference(role r, bool control, const bytes &s, int delivery, bool fin)
{
  endpoint e(r);
  uint64_t id = control ? control_id(r) : 0;
  const observed &o = e.streams[id];
  bytes so_far;
  size_t segments = 0;
  size_t size = delivery == 0 ? s.size() : delivery == 1 ? 1 : (s.size() + 1) / 2;
  if (size == 0) {
    size = 1;
  }
  for (size_t i = 0; i < s.size() && !o.failed; i += size) {
    bytes segment = s.substr(i, size);
    bool last = i + size >= s.size();
    so_far += segment;
    e.feed(id, segment, last && fin);
    segments++;
    compare(o, expected(r, control, so_far, last && fin), name(r));
  }
  size_t kept = o.body.size() * 3;
  for (const ref::field &f : o.headers) {
    kept += 256 + 4 * (f.first.size() + f.second.size());
  }
  int64_t seen = static_cast<int64_t>(kept);
  check_memory(0, static_cast<uint64_t>(std::max<int64_t>(e.held - seen, 0)), s.size(), segments, 1);
  check_peak(e.peak - seen, s.size(), segments, 1);
  mc::state(mc::hasher().add(static_cast<uint64_t>(r)).add(control).add(s));
  mc::outcome(mc::hasher().add(static_cast<uint64_t>(r)).add(hash(o)));
}

// All strings over bytes that mean something somewhere.
const bytes SIGNIFICANT("\x00\x01\x02\x03\x04\x05\x07\x0d\x21\x3f\x40\x80\xc0\xd1\xff\x51\x27\x10", 18);

void
strings()
{
  role r = choose_role();
  bool control = mc::choose(2, "stream") == 1;
  int most = mc::thorough() ? 5 : 4;
  bytes s;
  for (int i = 0; i < most; i++) {
    int c = mc::choose(static_cast<int>(SIGNIFICANT.size()) + 1, "byte");
    if (c == 0) {
      break;
    }
    s += SIGNIFICANT[static_cast<size_t>(c - 1)];
  }
  int delivery = mc::choose(2, "segments: one, per byte");
  bool fin = mc::choose(2, "fin") == 1;
  mc::log("%s", hx(s).c_str());
  against_reference(r, control, s, delivery, fin);
}

// The same inside a structure: what precedes decides what the bytes mean.
void
strings_inside()
{
  role r = choose_role();
  static const bytes get = conn::headers({ { ":method", "GET" } });
  static const std::vector<std::pair<bytes, bool>> contexts = {
    { get, false },
    { get + conn::data("x"), false },
    { get + frame(0x21, "ab"), false },
    { bytes("\x01\x06\x00\x00", 4), false },       // Field lines.
    { bytes("\x01\x08\x00\x00\xd1", 5), false },   // More field lines.
    { bytes("\x01\x08\x00\x00\x51", 5), false },   // A value.
    { bytes("\x01\x0a\x00\x00\x23nam", 8), false }, // The value of a literal.
    { get + bytes("\x00\x04", 2), false },         // Body.
    { get + bytes("\x04", 1), false },
    { get + bytes("\x02", 1), false },
    { get + bytes("\x05", 1), false },
    { get + conn::headers({ { "t", "" } }), false }, // After trailers.
    { bytes(1, '\0'), true },
    { bytes("\x00\x04\x04", 3), true }, // Settings.
    { bytes(1, '\0') + frame(ref::SETTINGS, ""), true },
    { bytes(1, '\0') + frame(ref::SETTINGS, "") + bytes("\x02", 1), true },
    { bytes(1, '\0') + frame(ref::SETTINGS, "") + bytes("\x07", 1), true },
  };
  const auto &context = mc::pick(contexts, "context");
  int most = mc::thorough() ? 4 : 3;
  bytes s;
  for (int i = 0; i < most; i++) {
    int c = mc::choose(static_cast<int>(SIGNIFICANT.size()) + 1, "byte");
    if (c == 0) {
      break;
    }
    s += SIGNIFICANT[static_cast<size_t>(c - 1)];
  }
  int delivery = mc::choose(2, "segments: one, per byte");
  bool fin = mc::choose(2, "fin") == 1;
  mc::log("%s then %s", hx(context.first).c_str(), hx(s).c_str());
  against_reference(r, context.second, context.first + s, delivery, fin);
}

const std::vector<stream> &
valid_streams()
{
  static const std::vector<stream> all = [] {
    std::vector<stream> r = corpus::messages();
    for (const stream &s : corpus::controls()) {
      r.push_back(s);
    }
    return r;
  }();
  return all;
}

// Every one-byte corruption, and every truncation of it for short streams.
void
corruptions()
{
  role r = choose_role();
  const stream &s = mc::pick(valid_streams(), "stream");
  size_t n = s.data.size();
  size_t at = static_cast<size_t>(mc::choose(static_cast<int>(n), "position"));
  // All values for short streams.
  int value = n <= 24 ? mc::choose(256, "byte")
                      : static_cast<uint8_t>(mc::pick(SIGNIFICANT, "byte"));
  if (static_cast<uint8_t>(s.data[at]) == value) {
    return;
  }
  bytes changed = s.data;
  changed[at] = static_cast<char>(value);
  if (n <= 12 && mc::thorough()) {
    changed = changed.substr(0, 1 + static_cast<size_t>(mc::choose(static_cast<int>(n), "length")));
  }
  int delivery = n > 24 ? 2 * mc::choose(2, "segments: one, two")
                        : mc::choose(mc::thorough() ? 3 : 2, "segments: one, per byte, two");
  bool fin = mc::choose(2, "fin") == 1;
  mc::log("%s (%s): byte %zu is %02x", s.name, name(r), at, value);
  against_reference(r, s.control, changed, delivery, fin);
}

// Every pair of corrupted bytes for short streams, over significant bytes.
void
double_corruptions()
{
  role r = choose_role();
  static const std::vector<const stream *> list = [] {
    std::vector<const stream *> l;
    for (const stream &s : valid_streams()) {
      if (s.data.size() <= (mc::thorough() ? 16 : 9)) {
        l.push_back(&s);
      }
    }
    return l;
  }();
  const stream &s = *mc::pick(list, "stream");
  int n = static_cast<int>(s.data.size());
  if (n < 2) {
    return;
  }
  bytes changed = s.data;
  int a = mc::choose(n - 1, "first");
  int b = a + 1 + mc::choose(n - 1 - a, "second");
  changed[static_cast<size_t>(a)] = mc::pick(SIGNIFICANT, "byte");
  changed[static_cast<size_t>(b)] = mc::pick(SIGNIFICANT, "byte");
  int delivery = mc::choose(2, "segments: one, per byte");
  bool fin = mc::choose(2, "fin") == 1;
  mc::log("%s (%s): %s", s.name, name(r), hx(changed).c_str());
  against_reference(r, s.control, changed, delivery, fin);
}

// Inserted, removed and repeated pieces of valid streams.
void
splices()
{
  role r = choose_role();
  const stream &s = mc::pick(valid_streams(), "stream");
  int n = static_cast<int>(std::min<size_t>(s.data.size(), 24));
  int from = mc::choose(n, "from");
  int size = 1 + mc::choose(std::min(n - from, 8), "size");
  bytes piece = s.data.substr(static_cast<size_t>(from), static_cast<size_t>(size));
  bytes changed;
  if (mc::choose(2, "removed or repeated") == 0) {
    changed = s.data.substr(0, static_cast<size_t>(from)) +
              s.data.substr(static_cast<size_t>(from + size));
  } else {
    changed = s.data.substr(0, static_cast<size_t>(from)) + piece +
              s.data.substr(static_cast<size_t>(from));
  }
  int delivery = mc::choose(3, "segments: one, per byte, two");
  bool fin = mc::choose(2, "fin") == 1;
  mc::log("%s (%s): %s", s.name, name(r), hx(changed).c_str());
  against_reference(r, s.control, changed, delivery, fin);
}

// ------------------------------------------------------------ no mercy ---

// Takes events even after errors, a few times; nothing but safety counts.
template<class Connection>
void
hammer(Connection &c, uint64_t id, const bytes &s, bool fin, size_t received)
{
  mc::step();
  auto g = c.recv(quic::event(quic::data{ id, fin, buf(s) }));
  if (!g) {
    return;
  }
  int errors = 0;
  uint64_t events = 0;
  while (errors < 4 && g.value().next()) {
    auto r = g.value().get();
    if (!r) {
      errors++;
    }
    events++;
    MC_CHECK(events <= 2 * received + 16, "unbounded-events", "%lu events for %zu bytes", events,
             received);
  }
}

// Any segments on any streams, going on after errors.
void
anything()
{
  static const std::vector<bytes> segments = {
    "",
    conn::headers({ { ":method", "GET" } }),
    conn::headers({ { ":method", "GET" } }) + conn::data("x"),
    conn::data("abc"),
    bytes("\x01", 1),
    bytes("\x00\x04\x00", 3),
    frame(ref::SETTINGS, ref::setting(6, 1)),
    frame(0x21, "u"),
    frame(ref::GOAWAY, ref::varint(1)),
    bytes("\x01\x04\x00\x00\xff\xff", 6),
    bytes("\x01\xff\xff\xff\xff\xff\xff\xff\xff\x00\x00\x27\xff\xff\xff\xff\xff\xff\xff\xff\x7f", 21),
    bytes("\xff\xff\xff\xff\xff\xff\xff\xff", 8),
  };
  static const std::vector<uint64_t> ids = { 0, 4, 2, 3, 7, 1, ref::VARINT_MAX - 3 };
  role r = choose_role();
  endpoint e(r, mc::choose(2, "requests"), false);
  int most = mc::thorough() ? 4 : 3;
  size_t received = 0;
  uint64_t before = mc::memory::live_bytes();
  size_t last = 0;
  for (int i = 0; i < most; i++) {
    int c = mc::choose(static_cast<int>(segments.size() * 2) + 1, "segment");
    if (c == 0) {
      break;
    }
    const bytes &s = segments[static_cast<size_t>(c - 1) / 2];
    bool fin = (c - 1) % 2 == 1;
    // Mostly the same stream again.
    size_t k = i < 2 ? static_cast<size_t>(mc::choose(static_cast<int>(ids.size()), "stream"))
                     : mc::choose(2, "stream") == 0 ? last : 0;
    last = k;
    uint64_t id = ids[k];
    received += s.size();
    mc::log("stream %lu: %s%s", id, hx(s).c_str(), fin ? " fin" : "");
    if (e.client) {
      hammer(*e.client, id, s, fin, received);
    } else {
      hammer(*e.server, id, s, fin, received);
    }
  }
  check_memory(before, mc::memory::live_bytes(), received, static_cast<size_t>(most), 3);
  e.flush();
  mc::state(mc::hasher().add(static_cast<uint64_t>(r)).add(received).add(last));
}

// Errors of the transport are reported and leave everything else alone.
void
transport_errors()
{
  using code = quic::application::error;
  static const std::vector<decltype(code::rst_stream)> types = { code::rst_stream,
                                                                 code::stop_sending,
                                                                 code::connection_close };
  static const std::vector<uint64_t> ids = { 0, 1, 2, 3, 4, 400, ref::VARINT_MAX, UINT64_MAX };
  static const std::vector<uint64_t> values = { 0, 0x100, UINT64_MAX };
  role r = choose_role();
  endpoint e(r);
  bytes message = conn::headers({ { ":method", "GET" } }) + conn::data("xyz");
  std::vector<bytes> segments = { message.substr(0, 3), message.substr(3, 4), message.substr(7) };
  bytes so_far;
  int left = mc::thorough() ? 2 : 1;
  for (size_t i = 0; i <= segments.size(); i++) {
    int c = left == 0 ? 0 : mc::choose(static_cast<int>(types.size()) + 1, "transport error");
    if (c != 0) {
      left--;
      auto type = types[static_cast<size_t>(c - 1)];
      uint64_t id = mc::pick(ids, "stream");
      uint64_t value = mc::pick(values, "code");
      auto try_on = [&](auto &connection) {
        auto g = connection.recv(quic::event(code{ type, id, value }));
        if (g) {
          observed seen;
          drain(g.value(), id, so_far.size(), &seen);
          MC_CHECK(seen.headers.empty() && seen.body.empty() && !seen.finished, "transport-error",
                   "a transport error on stream %lu led to %s", id, text(seen).c_str());
        }
      };
      if (e.client) {
        try_on(*e.client);
      } else {
        try_on(*e.server);
      }
      mc::step();
    }
    if (i < segments.size()) {
      bool fin = i + 1 == segments.size();
      so_far += segments[i];
      e.feed(0, segments[i], fin);
      compare(e.streams[0], ref::request_stream(r, so_far, fin), name(r));
    }
  }
  e.flush();
  mc::outcome(hash(e.streams[0]));
}

// Declared lengths far beyond what arrives, on every kind of stream, in every
// place that has a length.
void
lengths()
{
  role r = choose_role();
  static const std::vector<uint64_t> list = {
    64, 16384, 1ULL << 20, (1ULL << 30) - 1, 1ULL << 30, 1ULL << 31, (1ULL << 32) - 1, 1ULL << 32,
    (1ULL << 32) + 1, 1ULL << 40, 1ULL << 56, ref::VARINT_MAX - 1, ref::VARINT_MAX };
  static const std::vector<uint64_t> big = {
    127, 128, 16384, 1ULL << 31, 1ULL << 32, 1ULL << 62, 1ULL << 63, UINT64_MAX - 1, UINT64_MAX };
  bytes get = conn::headers({ { ":method", "GET" } });
  bytes s;
  bool control = false;
  int place = mc::choose(9, "place");
  uint64_t n = place < 5 ? mc::pick(list, "length") : mc::pick(big, "length");
  switch (place) {
    case 0:
      s = ref::varint(1) + ref::varint(n) + bytes("\0\0\xd1", 3);
      break;
    case 1:
      s = get + ref::varint(0) + ref::varint(n) + "some body";
      break;
    case 2:
      s = ref::varint(0x21) + ref::varint(n) + "something";
      break;
    case 3:
      control = true;
      s = bytes(1, '\0') + ref::varint(4) + ref::varint(n) + ref::setting(6, 1);
      break;
    case 4:
      s = get + conn::data("x") + ref::varint(1) + ref::varint(n) + bytes("\0\0\xd1", 3);
      break;
    case 5:
      s = ref::varint(1) + ref::varint(ref::VARINT_MAX) + bytes(2, '\0') + ref::prefix_int(n, 3, 0x20) +
          "name";
      break;
    case 6:
      s = ref::varint(1) + ref::varint(ref::VARINT_MAX) + bytes(2, '\0') + "\x51" +
          ref::prefix_int(n, 7, 0x00) + "value";
      break;
    case 7:
      s = ref::varint(1) + ref::varint(ref::VARINT_MAX) + bytes(2, '\0') + "\x51" +
          ref::prefix_int(n, 7, 0x80) + "value";
      break;
    default:
      s = ref::varint(1) + ref::varint(40) + bytes(2, '\0') + ref::prefix_int(n, 6, 0xc0) +
          bytes(40, '\xd1');
      break;
  }
  int delivery = mc::choose(3, "segments: one, per byte, two");
  bool fin = mc::choose(2, "fin") == 1;
  mc::log("%s: %s", name(r), hx(s).c_str());
  against_reference(r, control, s, delivery, fin);
}

// Many pieces: what was handled isn't kept, and nothing takes forever.
void
floods()
{
  role r = choose_role();
  int kind = mc::choose(7, "kind");
  bool one_segment = mc::choose(2, "in one segment") == 1;
  const int n = one_segment ? (mc::thorough() ? 4000 : 1000) : (mc::thorough() ? 400 : 100);
  endpoint e(r);
  bytes get = conn::headers({ { ":method", "GET" } });
  bytes first, piece;
  uint64_t id = 0;
  switch (kind) {
    case 0:
      first = get;
      piece = conn::data("x");
      break;
    case 1:
      first = get;
      piece = conn::data("");
      break;
    case 2:
      first = get;
      piece = frame(0x21, "");
      break;
    case 3:
      first = bytes(1, '\0') + frame(ref::SETTINGS, "");
      piece = frame(0x21, "");
      id = control_id(r);
      break;
    case 4:
      piece = frame(0x21, "abc");
      break;
    case 5:
      first = get + conn::data("") + ref::varint(1) + ref::varint(1 << 28);
      piece = "trailers";
      break;
    default:
      first = ref::varint(1) + ref::varint(1 << 28) + bytes(2, '\0');
      piece = "\xd1";
      break;
  }
  // The memory held after half of it and after all of it.
  uint64_t before = mc::memory::live_bytes();
  observed ignored;
  uint64_t half = 0, all = 0;
  size_t sent = 0;
  auto send = [&](const bytes &s) {
    sent += s.size();
    // The result isn't kept: only the connection's memory counts.
    if (e.client) {
      hammer(*e.client, id, s, false, sent);
    } else {
      hammer(*e.server, id, s, false, sent);
    }
  };
  send(first);
  for (int part = 0; part < 2; part++) {
    if (one_segment) {
      bytes s;
      for (int i = 0; i < n; i++) {
        s += piece;
      }
      send(s);
    } else {
      for (int i = 0; i < n; i++) {
        send(piece);
      }
    }
    (part == 0 ? half : all) = mc::memory::live_bytes();
  }
  // Frames that aren't handled before another one follows are kept.
  size_t segments = one_segment ? 3 : static_cast<size_t>(2 * n + 1);
  MC_CHECK(all - before <= 4 * sent + 256 * segments + 4096, "memory-grows",
           "%s, kind %d: %lu bytes are held for %zu bytes received in %zu segments", name(r), kind,
           all - before, sent, segments);
  if (kind != 2 && kind != 4) {
    MC_CHECK(all <= half + 1024, "memory-kept",
             "%s, kind %d: %lu bytes are held after %d pieces, %lu after as many again", name(r),
             kind, half - before, n, all - before);
  }
  mc::state(mc::hasher().add(static_cast<uint64_t>(r)).add(static_cast<uint64_t>(kind)).add(one_segment));
}

}

int
main(int argc, char **argv)
{
  return mc::run(
    argc, argv,
    { { "strings",
        "all strings of up to 4 (thorough 5) of 18 significant bytes as request and control "
        "stream, both roles, in one segment or per byte, ended or not",
        strings, 4 },
      { "strings-in-context",
        "all strings of up to 3 (thorough 4) of them in 17 contexts (after frames, inside field "
        "lines, settings and bodies)",
        strings_inside, 4 },
      { "corruptions",
        "every other value of every byte of every stream of the corpus (thorough: and every "
        "truncation of those)",
        corruptions, 4 },
      { "double-corruptions",
        "every pair of bytes of streams of up to 9 (thorough 16) bytes replaced by significant "
        "bytes",
        double_corruptions, 4 },
      { "splices", "every piece of up to 8 bytes removed or repeated", splices, 4 },
      { "anything",
        "3 (thorough 4) segments of 12 kinds, ended or not, on seven stream ids, going on after "
        "errors",
        anything, 4 },
      { "transport-errors", "every kind of transport error on eight stream ids at every point of a message",
        transport_errors, 4 },
      { "lengths", "declared lengths up to 2^64-1 in every place that has one", lengths, 3 },
      { "floods", "thousands of small pieces of seven kinds: memory held stays constant", floods, 2 } });
}

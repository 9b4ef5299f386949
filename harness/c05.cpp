// C05: control streams accept exactly the frame sequences allowed for the role.
#include "corpus.hpp"

using namespace conn;

namespace {

struct piece {
  const char *name;
  bytes data;
};

const std::vector<piece> &
alphabet()
{
  using namespace ref;
  using conn::frame;
  using conn::headers;
  using conn::data;
  static const std::vector<piece> all = {
    { "empty SETTINGS", frame(SETTINGS, "") },
    { "SETTINGS", frame(SETTINGS, setting(6, 100) + setting(1, 7) + setting(7, 64) + setting(9, 1)) },
    { "unknown", frame(0x21, "u\x01") },
    { "empty unknown", frame(0x0f, "") },
    { "HEADERS", headers({ { ":method", "GET" } }) },
    { "DATA", data("xyz") },
    { "empty DATA", data("") },
    { "GOAWAY", frame(GOAWAY, varint(4)) },
    { "MAX_PUSH_ID", frame(MAX_PUSH_ID, varint(70)) },
    { "CANCEL_PUSH", frame(CANCEL_PUSH, varint(1)) },
    { "PUSH_PROMISE", frame(PUSH_PROMISE, varint(1) + bytes("\0\0\xd1", 3)) },
    { "DUPLICATE_PUSH", frame(DUPLICATE_PUSH, varint(1)) },
    { "PRIORITY", frame(PRIORITY, bytes("\x00\x01\x02\x03", 4)) },
    { "reserved type 6", frame(6, bytes("\x06\x01", 2)) },
    { "oversized GOAWAY", frame(GOAWAY, varint(4) + "x") },
    { "SETTINGS without value", frame(SETTINGS, varint(6)) },
  };
  return all;
}

role
choose_role()
{
  return mc::choose(2, "role") == 0 ? role::client : role::server;
}

// Delivers segments; the end of stream comes with segment `fin_at`, or as a
// segment of its own after it if `alone`, if not negative.
void
run(role r, const std::vector<bytes> &segments, int fin_at, bool alone, int requests = 1)
{
  endpoint e(r, requests);
  uint64_t id = control_id(r);
  bytes so_far;
  for (size_t i = 0; i < segments.size(); i++) {
    bool fin = fin_at == static_cast<int>(i) && !alone;
    so_far += segments[i];
    e.feed(id, segments[i], fin);
    compare(e.streams[id], expected(r, true, so_far, fin), name(r));
    if (e.streams[id].failed) {
      break;
    }
    if (fin_at == static_cast<int>(i)) {
      e.feed(id, "", true);
      compare(e.streams[id], expected(r, true, so_far, true), name(r));
      break;
    }
  }
  mc::outcome(mc::hasher().add(static_cast<uint64_t>(r)).add(hash(e.streams[id])));
  mc::state(mc::hasher().add(static_cast<uint64_t>(r)).add(so_far).add(static_cast<uint64_t>(fin_at)));
}

std::vector<bytes>
cut_into(const std::vector<bytes> &pieces, int delivery)
{
  std::vector<bytes> segments;
  bytes all;
  for (const bytes &p : pieces) {
    all += p;
  }
  switch (delivery) {
    case 0:
      return { all };
    case 1:
      return pieces;
    default:
      for (char c : all) {
        segments.push_back(bytes(1, c));
      }
      return segments;
  }
}

void
run_ended(role r, const std::vector<bytes> &pieces)
{
  int delivery = mc::choose(3, "segments: one, per frame, per byte");
  std::vector<bytes> segments = cut_into(pieces, delivery);
  // The end of stream: never, or with or after any segment.
  int n = static_cast<int>(segments.size());
  int fin = n == 0 ? 0 : mc::choose(2 * n + 1, "end of stream");
  if (fin == 0) {
    run(r, segments, -1, false);
  } else {
    run(r, segments, (fin - 1) / 2, (fin - 1) % 2 == 1);
  }
}

void
sequences()
{
  role r = choose_role();
  std::vector<bytes> pieces = { bytes(1, '\0') };
  bytes all = pieces[0];
  bool rejected = false;
  for (int i = 0; i < (mc::thorough() ? 6 : 4); i++) {
    int c = mc::choose(static_cast<int>(alphabet().size()) + 1, "frame");
    if (c == 0) {
      break;
    }
    const piece &p = alphabet()[static_cast<size_t>(c - 1)];
    mc::log("%s", p.name);
    pieces.push_back(p.data);
    all += p.data;
    if (rejected) {
      break;
    }
    rejected = !ref::control_stream(r, all).open;
  }
  run_ended(r, pieces);
}

// Every type of stream.
void
stream_types()
{
  role r = choose_role();
  static const std::vector<uint64_t> far = {
    16384, 16385, 65536, 1ULL << 30, 1ULL << 31, 1ULL << 32, (1ULL << 32) + 1, 1ULL << 40,
    1ULL << 56, 1ULL << 61, ref::VARINT_MAX };
  int t = mc::choose(1024 + static_cast<int>(far.size()), "type");
  uint64_t type = t < 1024 ? static_cast<uint64_t>(t) : far[static_cast<size_t>(t - 1024)];
  static const std::vector<int> sizes = { 1, 2, 4, 8 };
  std::vector<int> fit;
  for (int s : sizes) {
    if (s >= ref::varint_size(type)) {
      fit.push_back(s);
    }
  }
  int size = mc::pick(fit, "size of the type");
  static const std::vector<bytes> after = {
    "", frame(ref::SETTINGS, ""), frame(ref::SETTINGS, ref::setting(6, 5)) + data("x"), data("x") };
  const bytes &rest = mc::pick(after, "after it");
  int delivery = mc::choose(3, "segments: one, two, per byte");
  mc::log("type %lu in %d bytes", type, size);
  run(r, cut_into({ ref::varint_sized(type, size), rest }, delivery), -1, false);
}

// Every subset and order of settings with boundary values.
void
settings()
{
  static const std::vector<uint64_t> ids = { 6, 1, 7, 9, 0x21, 0, 2, 0x3fff, 1ULL << 40 };
  static const std::vector<uint64_t> values = {
    0, 1, 63, 64, 16383, 16384, (1ULL << 30) - 1, 1ULL << 30, 1ULL << 32, ref::VARINT_MAX };
  role r = choose_role();
  int most = mc::thorough() ? 4 : 3;
  bytes payload;
  for (int i = 0; i < most; i++) {
    int c = mc::choose(static_cast<int>(ids.size()) + 1, "setting");
    if (c == 0) {
      break;
    }
    uint64_t id = ids[static_cast<size_t>(c - 1)];
    // Fewer values the more there are.
    static const std::vector<uint64_t> some = { 0, 64, ref::VARINT_MAX };
    uint64_t value = i == 0 ? mc::pick(values, "value") : mc::pick(some, "value");
    mc::log("setting %lu = %lu", id, value);
    payload += ref::setting(id, value);
  }
  int delivery = mc::choose(3, "segments: one, per frame, per byte");
  run(r, cut_into({ bytes(1, '\0'), frame(ref::SETTINGS, payload) }, delivery), -1, false);
}

// Every value of each setting.
void
setting_values()
{
  static const std::vector<uint64_t> ids = { 6, 1, 7, 9 };
  static const std::vector<int> sizes = { 1, 2, 4, 8 };
  role r = choose_role();
  uint64_t id = mc::pick(ids, "setting");
  uint64_t value;
  int c = mc::choose(4096 + 62 * 3, "value");
  if (c < 4096) {
    value = static_cast<uint64_t>(c);
  } else {
    c -= 4096;
    value = (1ULL << (c / 3)) - 1 + static_cast<uint64_t>(c % 3);
  }
  std::vector<int> fit;
  for (int s : sizes) {
    if (ref::varint_size(value) != 0 && s >= ref::varint_size(value)) {
      fit.push_back(s);
    }
  }
  if (fit.empty()) {
    return;
  }
  bytes payload = ref::varint(id) + ref::varint_sized(value, mc::pick(fit, "size of value"));
  run(r, { bytes(1, '\0') + frame(ref::SETTINGS, payload) }, -1, false);
}

// The length of SETTINGS is not the length of its settings.
void
setting_lengths()
{
  static const std::vector<bytes> payloads = {
    "", ref::setting(6, 1), ref::setting(6, 1) + ref::setting(7, 1),
    ref::setting(0x3fff, 70) + ref::setting(1, 1ULL << 40), ref::varint(6),
    ref::setting(7, 64) + ref::varint(0x21) };
  role r = choose_role();
  const bytes &payload = mc::pick(payloads, "payload");
  int length = mc::choose(static_cast<int>(payload.size()) + 4, "declared length");
  static const std::vector<bytes> after = { "", data("x"), ref::setting(6, 1), bytes(3, '\0'),
                                            frame(0x21, "") };
  bytes rest = mc::pick(after, "after it");
  int delivery = mc::choose(3, "segments: one, two, per byte");
  run(r,
      cut_into({ bytes(1, '\0') + ref::varint(ref::SETTINGS) +
                   ref::varint(static_cast<uint64_t>(length)) + payload,
                 rest },
               delivery),
      -1, false);
}

// Every frame type at every place.
void
every_type()
{
  role r = choose_role();
  bool first = mc::choose(2, "first") == 1;
  int types = mc::thorough() ? 16384 : 2048;
  uint64_t type = static_cast<uint64_t>(mc::choose(types + 16 * 6, "type"));
  if (type >= static_cast<uint64_t>(types)) {
    uint64_t c = type - static_cast<uint64_t>(types);
    static const uint64_t bases[] = { 1ULL << 16, 1ULL << 30, 1ULL << 32, 1ULL << 33, 1ULL << 56,
                                      1ULL << 61 };
    type = bases[c / 16] + c % 16;
  }
  int size = mc::choose(5, "payload size");
  int delivery = mc::choose(2, "segments: one, per byte") * 2;
  bytes tested = frame(type, bytes(static_cast<size_t>(size), '\x01'));
  bytes settings = frame(ref::SETTINGS, ref::setting(7, 3));
  mc::log("type %lu with %d bytes %s", type, size, first ? "first" : "after SETTINGS");
  run(r,
      cut_into({ bytes(1, '\0') + (first ? tested + settings : settings + tested + data("")) },
               delivery),
      -1, false);
}

// Frames of many bytes, and many frames.
void
large()
{
  role r = choose_role();
  static const std::vector<size_t> sizes = { 63, 64, 1023, 1200, 4096, 16383, 16384, 17000, 65536, 70000, 1100000 };
  size_t n = mc::pick(sizes, "size");
  bytes settings = frame(ref::SETTINGS, ref::setting(7, 3)), goaway = frame(ref::GOAWAY, ref::varint(4));
  bytes s(1, '\0');
  switch (mc::choose(5, "unknown first, second, many, large settings, far too large a GOAWAY")) {
    case 0:
      s += frame(0x21, body(n)) + settings + goaway;
      break;
    case 1:
      s += settings + frame(0x21, body(n)) + goaway;
      break;
    case 2: {
      s += settings;
      for (size_t i = 0; i < std::min<size_t>(n, 2000); i++) {
        s += frame(0x21, body(i % 3));
      }
      s += frame(ref::DATA, "x");
      break;
    }
    case 3: {
      bytes list;
      while (list.size() < std::min<size_t>(n, 20000)) {
        list += ref::setting(0x21, 5) + ref::setting(0x3fff, 1ULL << 20);
      }
      s += frame(ref::SETTINGS, list + ref::setting(7, 9)) + goaway;
      break;
    }
    default:
      s += settings + frame(ref::GOAWAY, body(n)) + goaway;
      break;
  }
  static const std::vector<size_t> segments = { 0, 1200, 16384, 50000 };
  size_t size = mc::pick(segments, "segments");
  size = size == 0 ? s.size() : std::max(size, s.size() / 40);
  std::vector<bytes> list;
  for (size_t i = 0; i < s.size(); i += size) {
    list.push_back(s.substr(i, size));
  }
  if (mc::choose(2, "last byte alone") == 1 && list.back().size() > 1) {
    bytes last(1, list.back().back());
    list.back().pop_back();
    list.push_back(last);
  }
  mc::log("%zu bytes in %zu segments", s.size(), list.size());
  run(r, list, -1, false);
}

// A client without requests, and settings in the middle of requests.
void
independent()
{
  int requests = mc::choose(3, "requests");
  std::vector<bytes> pieces = { bytes(1, '\0') };
  for (int i = 0; i < 3; i++) {
    int c = mc::choose(static_cast<int>(alphabet().size()) + 1, "frame");
    if (c == 0) {
      break;
    }
    pieces.push_back(alphabet()[static_cast<size_t>(c - 1)].data);
  }
  run(role::client, pieces, -1, false, requests);
}

}

int
main(int argc, char **argv)
{
  return mc::run(
    argc, argv,
    { { "frame-sequences",
        "all sequences of up to 4 (thorough 6) of 16 frames after the stream type that are allowed "
        "up to a first rejected frame and one after it; both roles; end of stream missing or with "
        "or after any segment; in one segment, per frame or per byte",
        sequences, 4 },
      { "stream-types", "all stream types below 1024 and far ones in every varint size",
        stream_types, 3 },
      { "settings",
        "all lists of up to 3 (thorough 4) of 9 known and unknown settings with boundary values",
        settings, 4 },
      { "setting-values", "all values below 4096 and around powers of two for each setting",
        setting_values, 3 },
      { "setting-lengths", "every declared length around the true one, with bytes after it",
        setting_lengths, 3 },
      { "every-frame-type",
        "all frame types below 2048 (thorough 16384) and far ones, first and after SETTINGS",
        every_type, 3 },
      { "large", "unknown frames, settings and frames of the wrong size of up to 1.1 MB, and 2000 frames, in 5 forms x "
                 "11 sizes x 4 segment sizes", large, 3 },
      { "independent-of-requests", "sequences of 3 frames for clients with 0 to 2 requests",
        independent, 3 } });
}

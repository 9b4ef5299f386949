// C04: request streams accept exactly the frame sequences allowed for the role.
#include "corpus.hpp"

using namespace conn;

namespace {

struct piece {
  const char *name;
  bytes data;
};

bytes
priority()
{
  return frame(ref::PRIORITY, bytes("\x00\x01\x02\x03", 4));
}

const std::vector<piece> &
alphabet()
{
  static const std::vector<piece> all = {
    { "HEADERS", headers({ { ":method", "GET" } }) },
    { "HEADERS with two lines", headers({ { ":status", "200" }, { "a", "b" } }) },
    { "DATA", data("xyz") },
    { "empty DATA", data("") },
    { "unknown", frame(0x21, "u\x01") },
    { "empty unknown", frame(0x0f, "") },
    { "SETTINGS", frame(ref::SETTINGS, ref::setting(6, 5)) },
    { "GOAWAY", frame(ref::GOAWAY, ref::varint(4)) },
    { "MAX_PUSH_ID", frame(ref::MAX_PUSH_ID, ref::varint(70)) },
    { "CANCEL_PUSH", frame(ref::CANCEL_PUSH, ref::varint(1)) },
    { "PUSH_PROMISE", frame(ref::PUSH_PROMISE, ref::varint(1) + bytes("\0\0\xd1", 3)) },
    { "DUPLICATE_PUSH", frame(ref::DUPLICATE_PUSH, ref::varint(1)) },
    { "PRIORITY", priority() },
    { "HEADERS of length zero", frame(ref::HEADERS, "") },
  };
  return all;
}

enum ending { NEVER, JOINED, ALONE };

void
run(role r, const std::vector<const piece *> &sequence, ending how, int delivery)
{
  endpoint e(r);
  bytes all;
  for (const piece *p : sequence) {
    all += p->data;
  }
  std::vector<bytes> segments;
  switch (delivery) {
    case 0:
      segments.push_back(all);
      break;
    case 1:
      for (const piece *p : sequence) {
        segments.push_back(p->data);
      }
      break;
    default:
      for (char c : all) {
        segments.push_back(bytes(1, c));
      }
      break;
  }
  if (segments.empty() || how == ALONE) {
    segments.push_back("");
  }
  bytes so_far;
  for (size_t i = 0; i < segments.size(); i++) {
    bool fin = i + 1 == segments.size() && how != NEVER;
    so_far += segments[i];
    e.feed(0, segments[i], fin);
    compare(e.streams[0], ref::request_stream(r, so_far, fin), name(r));
    if (e.streams[0].failed) {
      // The error has to be the one of the first rejected frame: what comes
      // after it doesn't matter.
      compare(e.streams[0], ref::request_stream(r, all, how != NEVER), name(r));
      break;
    }
  }
  mc::state(mc::hasher().add(static_cast<uint64_t>(r)).add(all).add(how));
  mc::outcome(mc::hasher().add(static_cast<uint64_t>(r)).add(hash(e.streams[0])));
}

// Every sequence. Once a frame is rejected, one more of any kind follows at
// most.
void
sequences(int depth, const std::vector<piece> &frames)
{
  role r = mc::choose(2, "role") == 0 ? role::client : role::server;
  std::vector<const piece *> sequence;
  bytes all;
  bool rejected = false;
  for (int i = 0; i < depth; i++) {
    int c = mc::choose(static_cast<int>(frames.size()) + 1, "frame");
    if (c == 0) {
      break;
    }
    sequence.push_back(&frames[static_cast<size_t>(c - 1)]);
    all += sequence.back()->data;
    if (rejected) {
      break;
    }
    ref::expectation e = ref::request_stream(r, all, false);
    rejected = !e.open;
  }
  ending how = static_cast<ending>(mc::choose(3, "end of stream: never, joined, alone"));
  int delivery = mc::choose(3, "segments: one, per frame, per byte");
  if (mc::logging()) {
    for (const piece *p : sequence) {
      mc::log("%s", p->name);
    }
  }
  run(r, sequence, how, delivery);
}

void
all_frames()
{
  sequences(mc::thorough() ? 7 : 5, alphabet());
}

// Every frame type there is in one and two bytes of type, at every place.
void
every_type()
{
  role r = mc::choose(2, "role") == 0 ? role::client : role::server;
  int where = mc::choose(6, "where");
  uint64_t type = static_cast<uint64_t>(mc::choose(mc::thorough() ? 16384 : 1024, "type"));
  int size = mc::choose(5, "payload size");
  ending how = static_cast<ending>(mc::choose(3, "end of stream: never, joined, alone"));
  int delivery = mc::choose(3, "segments: one, per frame, per byte");
  piece get{ "HEADERS", headers({ { ":method", "GET" } }) };
  piece body{ "DATA", data("xyz") };
  piece tested{ "tested", frame(type, bytes(static_cast<size_t>(size), '\x01')) };
  std::vector<const piece *> s;
  switch (where) {
    case 0:
      s = { &tested };
      break;
    case 1:
      s = { &tested, &get };
      break;
    case 2:
      s = { &get, &tested };
      break;
    case 3:
      s = { &get, &tested, &body };
      break;
    case 4:
      s = { &get, &body, &tested };
      break;
    default:
      s = { &get, &body, &tested, &body };
      break;
  }
  mc::log("type %lu, %d bytes of payload at place %d", type, size, where);
  run(r, s, how, delivery);
}

// Types that look like others when they are truncated or mixed up.
void
far_types()
{
  static const std::vector<uint64_t> types = [] {
    std::vector<uint64_t> t;
    for (uint64_t base : { 64ULL, 256ULL, 16384ULL, 65536ULL, 1ULL << 30, 1ULL << 31, 1ULL << 32,
                           1ULL << 33, 1ULL << 40, 1ULL << 56, 1ULL << 61 }) {
      for (uint64_t low = 0; low < 16; low++) {
        t.push_back(base + low);
      }
      t.push_back(base - 1);
    }
    t.push_back(ref::VARINT_MAX);
    return t;
  }();
  role r = mc::choose(2, "role") == 0 ? role::client : role::server;
  int where = mc::choose(4, "where");
  uint64_t type = mc::pick(types, "type");
  int size = mc::choose(3, "payload size");
  ending how = static_cast<ending>(mc::choose(3, "end of stream"));
  int delivery = mc::choose(3, "segments");
  piece get{ "HEADERS", headers({ { ":method", "GET" } }) };
  piece body{ "DATA", data("xyz") };
  piece tested{ "tested", frame(type, bytes(static_cast<size_t>(size), '\x01')) };
  std::vector<const piece *> s;
  switch (where) {
    case 0:
      s = { &tested, &get, &body };
      break;
    case 1:
      s = { &get, &tested, &body };
      break;
    case 2:
      s = { &get, &body, &tested };
      break;
    default:
      s = { &get, &body, &tested, &body };
      break;
  }
  mc::log("type %lu", type);
  run(r, s, how, delivery);
}

// Every frame type written with longer varints than needed.
void
long_forms()
{
  static const std::vector<uint64_t> types = { 0, 1, 2, 3, 4, 5, 7, 13, 14, 6, 0x21 };
  role r = mc::choose(2, "role") == 0 ? role::client : role::server;
  uint64_t type = mc::pick(types, "type");
  static const std::vector<int> sizes = { 1, 2, 4, 8 };
  int a = mc::pick(sizes, "size of type"), b = mc::pick(sizes, "size of length");
  int before = mc::choose(3, "before: nothing, HEADERS, HEADERS and DATA");
  ending how = static_cast<ending>(mc::choose(3, "end of stream"));
  int delivery = mc::choose(3, "segments");
  bytes payload;
  switch (type) {
    case ref::HEADERS:
      payload = bytes("\0\0\xd1", 3);
      break;
    case ref::PRIORITY:
      payload = bytes("\x00\x01\x02\x03", 4);
      break;
    case ref::SETTINGS:
      payload = "";
      break;
    default:
      payload = bytes("\x01", 1);
      break;
  }
  piece get{ "HEADERS", headers({ { ":method", "GET" } }) };
  piece body{ "DATA", data("xyz") };
  piece tested{ "tested", ref::varint_sized(type, a) + ref::varint_sized(payload.size(), b) +
                            payload };
  std::vector<const piece *> s;
  if (before > 0) {
    s.push_back(&get);
  }
  if (before > 1) {
    s.push_back(&body);
  }
  s.push_back(&tested);
  if (type != ref::HEADERS || before == 0) {
    s.push_back(&body);
  }
  run(r, s, how, delivery);
}

}

int
main(int argc, char **argv)
{
  return mc::run(
    argc, argv,
    { { "frame-sequences",
        "all sequences of up to 5 (thorough 7) of 14 frames (every frame type, unknown types, "
        "empty frames) that are allowed up to a first rejected frame and one after it; both "
        "roles; end of stream missing, joined or alone; in one segment, per frame or per byte",
        all_frames, 4 },
      { "every-frame-type",
        "all frame types below 1024 (thorough 16384) with payloads of 0 to 4 bytes at six places "
        "of a message",
        every_type, 4 },
      { "far-frame-types", "frame types that differ from known ones in high bits only", far_types, 3 },
      { "long-forms", "every frame type with its type and length in every varint size", long_forms,
        3 } });
}

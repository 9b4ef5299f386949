// C09: a message is reported complete only if it really is.
#include "corpus.hpp"

using namespace conn;
using corpus::stream;

namespace {

const std::vector<stream> &
messages()
{
  static const std::vector<stream> all = [] {
    std::vector<stream> r = corpus::messages();
    bytes get = headers({ { ":method", "GET" } });
    std::vector<ref::field> kinds = { { ":method", "GET" },
                                      { ":path", "/a" },
                                      { "x-y", "z" },
                                      { "accept-ranges", "" },
                                      { "n", "" },
                                      { "", "v" },
                                      { "vary", "origin" } };
    r.push_back({ "every kind of header", headers(kinds) + data(body(30)) });
    r.push_back({ "body sizes", get + data("") + data("a") + data(body(20)) + data(body(21)) +
                                  data(body(63)) + data(body(64)) + data("") });
    r.push_back({ "unknown everywhere", frame(0x21, "") + frame(0x22, "ab") + get +
                                          frame(0x21, "c") + data("x") + frame(0x23, "") +
                                          data("yz") + frame(0x21, body(70)) });
    r.push_back({ "unknown everywhere with trailers",
                  frame(0x22, "ab") + get + frame(0x21, "c") + data("x") + frame(0x23, "") +
                    headers({ { "t", "v" }, { "u", "w" } }) });
    r.push_back({ "long header block", headers({ { "name", bytes(300, '\x01') } }) + data("x") });
    r.push_back({ "two byte sizes", headers({ { ":path", bytes(90, 'e') } }) + data(body(80)) +
                                      frame(0x4000, body(66)) + data(body(64)) });
    return r;
  }();
  return all;
}

enum ending { NEVER, JOINED, ALONE, LATER };

void
check(role r, const char *what, const bytes &s, ending how, int delivery)
{
  endpoint e(r);
  const observed &o = e.streams[0];
  std::vector<bytes> segments;
  if (delivery == 0) {
    segments.push_back(s);
  } else {
    size_t size = delivery == 1 ? 1 : static_cast<size_t>(delivery);
    for (size_t i = 0; i < s.size(); i += size) {
      segments.push_back(s.substr(i, size));
    }
  }
  if (segments.empty()) {
    segments.push_back("");
  }
  bytes so_far;
  for (size_t i = 0; i < segments.size(); i++) {
    bool last = i + 1 == segments.size();
    so_far += segments[i];
    e.feed(0, segments[i], last && how == JOINED, how != LATER || last);
    if (how != LATER || last) {
      compare(o, ref::request_stream(r, so_far, last && how == JOINED), what);
    }
  }
  if (how == ALONE || how == LATER) {
    e.feed(0, "", true, true);
    compare(o, ref::request_stream(r, s, true), what);
  }
  bool finished = o.finished, failed = o.failed;
  // Nothing more comes of it: taking events again reports nothing new.
  if (how != NEVER) {
    e.feed(0, "", true, true);
    MC_CHECK(o.finished == finished && (failed || o.finished), "after-the-end",
             "%s: after an end of stream that was refused: %s", what, text(o).c_str());
  }
  mc::outcome(mc::hasher().add(static_cast<uint64_t>(r)).add(hash(o)));
  mc::state(mc::hasher().add(static_cast<uint64_t>(r)).add(s).add(how).add(static_cast<uint64_t>(delivery)));
}

void
truncate(const std::vector<stream> &list)
{
  role r = mc::choose(2, "role") == 0 ? role::client : role::server;
  const stream &s = mc::pick(list, "message");
  size_t n = static_cast<size_t>(mc::choose(static_cast<int>(s.data.size()) + 1, "length"));
  ending how = static_cast<ending>(mc::choose(4, "end of stream: never, joined, alone, later"));
  static const std::vector<int> deliveries = { 0, 1, 2, 3, 7 };
  int delivery = mc::pick(deliveries, "segments");
  mc::log("%s (%s), first %zu of %zu bytes", s.name, name(r), n, s.data.size());
  check(r, s.name, s.data.substr(0, n), how, delivery);
}

void
truncations()
{
  truncate(messages());
}

// All messages made of these parts.
void
composed()
{
  role r = mc::choose(2, "role") == 0 ? role::client : role::server;
  static const std::vector<bytes> before = { "", frame(0x21, ""), frame(0x21, "ab") };
  static const std::vector<bytes> head = { headers({ { ":method", "GET" } }),
                                           headers({ { ":status", "200" }, { "a", "b" } }),
                                           corpus::block(corpus::literal_raw({ "n", "vw" })),
                                           ref::varint_sized(1, 2) + ref::varint_sized(3, 2) +
                                             bytes("\0\0\xd1", 3) };
  static const std::vector<bytes> parts = { data(""),
                                            data("x"),
                                            data("yz"),
                                            ref::varint_sized(0, 2) + ref::varint_sized(1, 4) + "w",
                                            frame(0x21, ""),
                                            frame(0x0f, "u") };
  static const std::vector<bytes> after = { "", headers({ { "t", "v" } }),
                                            headers({ { "t", "v" }, { "t", "w" } }) };
  bytes s = mc::pick(before, "before") + mc::pick(head, "headers");
  for (int i = 0; i < (mc::thorough() ? 4 : 2); i++) {
    int c = mc::choose(static_cast<int>(parts.size()) + 1, "part");
    if (c == 0) {
      break;
    }
    s += parts[static_cast<size_t>(c - 1)];
  }
  s += mc::pick(after, "after");
  size_t n = static_cast<size_t>(mc::choose(static_cast<int>(s.size()) + 1, "length"));
  ending how = static_cast<ending>(mc::choose(4, "end of stream: never, joined, alone, later"));
  int delivery = mc::choose(2, "segments: one, per byte");
  check(r, "composed message", s.substr(0, n), how, delivery);
}

// Sizes that take more bytes: truncations around every boundary.
void
large()
{
  role r = mc::choose(2, "role") == 0 ? role::client : role::server;
  static const std::vector<size_t> sizes = { 63, 64, 65, 127, 128, 1200, 16383, 16384, 65536 };
  size_t size = sizes[static_cast<size_t>(mc::choose(mc::thorough() ? 9 : 8, "size"))];
  bytes get = headers({ { ":method", "GET" } });
  bytes a, b;
  switch (mc::choose(5, "what is large")) {
    case 0:
      a = get + data(body(size));
      b = data("xy");
      break;
    case 1:
      a = headers({ { "n", bytes(size, '\x01') } });
      b = data("xy");
      break;
    case 2:
      a = headers({ { bytes(size, 'n'), "v" } });
      b = data("xy");
      break;
    case 3:
      a = get + data("x") + frame(0x21, body(size));
      b = data("xy");
      break;
    default:
      a = get + data("x") + frame(ref::HEADERS, body(size));
      b = "";
      break;
  }
  bytes s = a + b;
  static const std::vector<int> around = { -65, -2, -1, 0, 1, 2, 3, 4 };
  size_t n;
  switch (mc::choose(3, "cut near")) {
    case 0:
      n = static_cast<size_t>(1 + mc::choose(20, "bytes"));
      break;
    case 1:
      n = a.size() / 2;
      break;
    default:
      n = a.size() + static_cast<size_t>(mc::pick(around, "bytes"));
      break;
  }
  n = std::min(n, s.size());
  ending how = static_cast<ending>(mc::choose(4, "end of stream: never, joined, alone, later"));
  static const std::vector<int> deliveries = { 0, 1200, 16384 };
  int delivery = mc::pick(deliveries, "segments");
  mc::log("first %zu of %zu bytes", n, s.size());
  check(r, "large message", s.substr(0, n), how, delivery);
}

// Declared sizes far beyond what arrives.
void
huge()
{
  role r = mc::choose(2, "role") == 0 ? role::client : role::server;
  static const std::vector<uint64_t> lengths = [] {
    std::vector<uint64_t> v{ 5, 64, 16384, 1ULL << 30, ref::VARINT_MAX };
    // The low bits are what arrives.
    for (int shift : { 8, 16, 24, 31, 32, 40, 48, 56, 61 }) {
      for (uint64_t n = 0; n < 5; n++) {
        v.push_back((1ULL << shift) + n);
      }
    }
    return v;
  }();
  uint64_t length = mc::pick(lengths, "length");
  static const std::vector<uint64_t> types = { 0, 1, 0x21 };
  uint64_t type = mc::pick(types, "type");
  int before = mc::choose(3, "before: nothing, HEADERS, HEADERS and DATA");
  int sent = mc::choose(5, "bytes of it");
  bytes s;
  if (before > 0) {
    s += headers({ { ":method", "GET" } });
  }
  if (before > 1) {
    s += data("x");
  }
  s += ref::varint(type) + ref::varint(length) +
       bytes("\0\0\xd1\xd2", 4).substr(0, static_cast<size_t>(sent));
  ending how = static_cast<ending>(mc::choose(4, "end of stream: never, joined, alone, later"));
  int delivery = mc::choose(2, "segments: one, per byte");
  check(r, "huge frame", s, how, delivery);
}

}

int
main(int argc, char **argv)
{
  return mc::run(
    argc, argv,
    { { "truncations",
        "every truncation of every message of the corpus, end of stream missing, joined, alone or "
        "alone after events were taken only once, in segments of 1, 2, 3, 7 or all bytes",
        truncations, 3 },
      { "composed-messages",
        "every truncation of every message of a header section in four forms, up to 2 (thorough 4) "
        "of six body or unknown frames, and trailers",
        composed, 4 },
      { "large", "truncations around the boundaries of large frames of every kind", large, 4 },
      { "huge-lengths", "frames that declare up to 2^62-1 bytes and never arrive", huge, 4 } });
}

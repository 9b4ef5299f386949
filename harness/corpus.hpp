// Streams that the connection checks deliver in every way.
#pragma once

#include "conn.hpp"

namespace corpus {

using namespace conn;

struct stream {
  const char *name;
  bytes data;
  bool control = false;
};

inline bytes
block(const bytes &lines)
{
  return frame(ref::HEADERS, bytes(2, '\0') + lines);
}

inline bytes
literal_raw(const ref::field &f)
{
  return ref::literal_form(f.first, 3, false, 0x20) + ref::literal_form(f.second, 7, false);
}

// Complete messages.
inline std::vector<stream>
messages()
{
  using ref::varint_sized;
  std::vector<stream> r;
  bytes get = headers({ { ":method", "GET" } });
  bytes two = headers({ { ":method", "GET" }, { "a", "b" } });
  r.push_back({ "headers", get });
  r.push_back({ "headers, body", get + data("x") });
  r.push_back({ "empty body", get + data("") });
  r.push_back({ "two empty DATA frames around one", get + data("") + data("yz") + data("") });
  r.push_back({ "two headers", two });
  r.push_back({ "two headers, body", two + data("pq") });
  r.push_back({ "two body frames", get + data("ab") + data("c") });
  r.push_back({ "unknown first", frame(0x21, "") + get + data("x") });
  r.push_back({ "unknown between", get + frame(0x0f, "zz") + data("x") });
  r.push_back({ "unknown last", get + data("x") + frame(0x21, "u") });
  r.push_back({ "unknown after headers", get + frame(0x40, "") });
  r.push_back({ "only unknown between DATA frames", get + data("x") + frame(6, "") + data("y") });
  r.push_back({ "trailers", get + data("x") + headers({ { "t", "v" } }) });
  r.push_back({ "trailers without body", get + headers({ { "t", "v" } }) });
  r.push_back({ "unknown then trailers", get + frame(8, "") + headers({ { "t", "" } }) });
  r.push_back({ "trailers, then unknown",
                get + data("x") + headers({ { "t", "v" } }) + frame(0x21, "u") + frame(0x40, "") });
  r.push_back({ "plain literal", block(literal_raw({ "n", "v" })) + data("x") });
  r.push_back({ "empty literals", block(literal_raw({ "", "" })) });
  r.push_back({ "huffman", block(ref::literal_form("nnn", 3, true, 0x20) +
                                 ref::literal_form("000", 7, true)) });
  r.push_back({ "name reference", headers({ { ":path", "/x" } }) + data("x") });
  r.push_back({ "longer sizes than needed", varint_sized(1, 2) + varint_sized(3, 4) +
                                              bytes("\0\0\xd1", 3) + varint_sized(0, 4) +
                                              varint_sized(1, 2) + "x" });
  r.push_back({ "other prefix", frame(ref::HEADERS, bytes("\x02\x81\x00\xd1", 4)) });
  r.push_back({ "long value", headers({ { ":path", bytes(70, 'q') } }) + data(body(64)) });
  r.push_back({ "long plain value",
                block(literal_raw({ "n", bytes(130, '\x01') })) + data(body(21)) });
  r.push_back({ "long body", get + data(body(70)) + data(body(41, 1)) });
  r.push_back({ "long unknown", frame(0x3fff, body(65)) + get + data(body(20)) });
  return r;
}

// Streams that are refused somewhere.
inline std::vector<stream>
invalid()
{
  using ref::varint;
  std::vector<stream> r;
  bytes get = headers({ { ":method", "GET" } });
  r.push_back({ "DATA first", data("x") + get });
  r.push_back({ "DATA of no bytes first", data("") });
  r.push_back({ "SETTINGS first", frame(4, "") + get });
  r.push_back({ "GOAWAY after headers", get + frame(7, varint(4)) });
  r.push_back({ "MAX_PUSH_ID", get + data("x") + frame(13, varint(4)) });
  r.push_back({ "CANCEL_PUSH", frame(3, varint(300)) });
  r.push_back({ "CANCEL_PUSH too long", get + frame(3, varint(3) + "x") });
  r.push_back({ "CANCEL_PUSH too short", get + varint(3) + varint(1) + varint(300) });
  r.push_back({ "PUSH_PROMISE", get + frame(5, varint(1) + bytes("\0\0\xd1", 3)) });
  r.push_back({ "DUPLICATE_PUSH", get + frame(14, varint(1)) });
  r.push_back({ "PRIORITY first", frame(2, bytes("\0\1\2\3", 4)) + get });
  r.push_back({ "PRIORITY after headers", get + frame(2, bytes("\0\1\2\3", 4)) });
  r.push_back({ "PRIORITY too long", get + frame(2, bytes("\0\1\2\3\4", 5)) });
  r.push_back({ "HEADERS of length zero", frame(1, "") + data("x") });
  r.push_back({ "HEADERS of length one", frame(1, bytes("\0", 1)) + data("x") });
  r.push_back({ "HEADERS without lines", frame(1, bytes("\0\0", 2)) + data("xyz") });
  r.push_back({ "unknown, then DATA", frame(0x21, "") + data("x") });
  r.push_back({ "index out of range", block("\xff\x24") + data("x") });
  r.push_back({ "huge index", block("\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f") });
  r.push_back({ "second line out of range", block("\xd1\xff\x24") });
  r.push_back({ "dynamic table", block("\xd1\x80") });
  r.push_back({ "dynamic name", block("\x41\x01x") });
  r.push_back({ "post-base", block("\x10") });
  r.push_back({ "uppercase name", block(literal_raw({ "A", "v" })) });
  r.push_back({ "uppercase second name", block("\xd1" + literal_raw({ "aB", "v" })) });
  r.push_back({ "bad huffman padding", block("\x51\x82\x07\x10") });
  r.push_back({ "huffman end of string", block("\x51\x84\xff\xff\xff\xff") });
  r.push_back({ "line crosses the end", varint(1) + varint(4) + bytes("\0\0\x51\x03", 4) +
                                          varint(0) + varint(3) + "xyz" });
  r.push_back({ "second line crosses the end", varint(1) + varint(4) +
                                                 bytes("\0\0\xd1\x51", 4) + bytes("\0\1x", 3) });
  // Lengths of which only the low bits fit what follows.
  r.push_back({ "DATA of 2^32 + 2", get + varint(0) + varint((1ULL << 32) + 2) + "xy" + data("z") });
  r.push_back({ "DATA of 2^56 + 1", get + varint(0) + varint((1ULL << 56) + 1) + "x" + data("z") });
  r.push_back({ "HEADERS of 2^32 + 3", varint(1) + varint((1ULL << 32) + 3) + bytes("\0\0\xd1", 3) + data("x") });
  r.push_back({ "trailers of 2^40 + 3", get + varint(1) + varint((1ULL << 40) + 3) + bytes("\0\0\xd1", 3) });
  r.push_back({ "unknown of 2^48 + 1", get + varint(0x21) + varint((1ULL << 48) + 1) + "u" + data("x") });
  r.push_back({ "SETTINGS of the wrong size", get + varint(4) + varint(3) + varint(6) + varint(0) +
                                                varint(7) + varint(1) });
  return r;
}

inline std::vector<stream>
controls()
{
  using ref::setting;
  using ref::varint;
  std::vector<stream> r;
  auto add = [&](const char *name, const bytes &s) { r.push_back({ name, s, true }); };
  bytes none = frame(4, "");
  bytes all = frame(4, setting(6, 20) + setting(1, 0) + setting(7, 3) + setting(9, 70));
  bytes zero(1, '\0');
  add("only the type", zero);
  add("type in four bytes", ref::varint_sized(0, 4) + none);
  add("other type", bytes("\x01", 1) + none);
  add("type in more bytes", "\x40\x21" + none);
  add("empty SETTINGS", zero + none);
  add("SETTINGS", zero + all);
  add("big settings", zero + frame(4, setting(6, 1ULL << 40) + setting(1, 16384)));
  add("unknown setting", zero + frame(4, setting(0x21, 5) + setting(7, 64)));
  add("unknown frame first", zero + frame(0x21, "u") + all);
  add("unknown frame last", zero + all + frame(0x21, "u"));
  add("DATA first", zero + data("x") + none);
  add("GOAWAY first", zero + frame(7, varint(4)) + none);
  add("PRIORITY first", zero + frame(2, bytes("\0\1\2\3", 4)));
  add("SETTINGS twice", zero + none + none);
  add("HEADERS", zero + none + headers({ { ":method", "GET" } }));
  add("DATA", zero + none + data("x"));
  add("CANCEL_PUSH", zero + none + frame(3, varint(64)));
  add("GOAWAY", zero + none + frame(7, varint(4)));
  add("MAX_PUSH_ID", zero + none + frame(13, varint(4)));
  add("PRIORITY", zero + none + frame(2, bytes("\0\1\2\3", 4)));
  add("PUSH_PROMISE", zero + none + frame(5, varint(1) + bytes("\0\0\xd1", 3)));
  add("DUPLICATE_PUSH", zero + none + frame(14, varint(1)));
  add("GOAWAY too long", zero + none + frame(7, varint(4) + "x"));
  add("setting without value", zero + frame(4, varint(6)));
  add("setting longer than the frame", zero + varint(4) + varint(2) + varint(6) + varint(64) + none);
  add("SETTINGS of 2^32 + 2", zero + varint(4) + varint((1ULL << 32) + 2) + setting(6, 1) + frame(7, varint(4)));
  add("unknown of 2^48 + 1", zero + none + varint(0x21) + varint((1ULL << 48) + 1) + "u" + frame(7, varint(4)));
  add("frame longer than its settings", zero + varint(4) + varint(3) + setting(6, 1) + zero + none);
  return r;
}

}

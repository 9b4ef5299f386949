// C11: frames are encoded exactly as specified and decode back to themselves.
#include "frames.hpp"
#include "util.hpp"

using namespace util;
using bnl::http3::error;
using bnl::http3::frame;

static const std::vector<uint64_t> B = {
  0,           1,           63,           64,
  16383,       16384,       1073741823,   1073741824,
  ref::VARINT_MAX,          ref::VARINT_MAX + 1,
  uint64_t(1) << 63,        UINT64_MAX
};

static void
check(const ref::frame &f)
{
  frame subject = frames::make(f);
  MC_CHECK(frames::read(subject) == f, "construct",
           "%s does not hold the fields it was made from", frames::text(f).c_str());
  bytes expected;
  bool fits = ref::encode(f, &expected);
  mc::log("%s -> %s", frames::text(f).c_str(), fits ? hx(expected).c_str() : "overflow");

  auto size = frame::encoded_size(subject);
  uint8_t dest[160];
  for (uint8_t &d : dest) {
    d = 0xc3;
  }
  auto direct = frame::encode(dest + 4, subject);
  auto fresh = frame::encode(subject);
  mc::step(3);
  mc::state(mc::hasher().add(frames::text(f)));
  mc::outcome(mc::hasher().add(expected));

  if (!fits) {
    MC_CHECK(!size && size.error() == error::varint_overflow, "size-overflow",
             "encoded_size of %s is not varint_overflow", frames::text(f).c_str());
    MC_CHECK(!direct && direct.error() == error::varint_overflow,
             "encode-overflow", "encode(dest) of %s is not varint_overflow",
             frames::text(f).c_str());
    MC_CHECK(!fresh && fresh.error() == error::varint_overflow,
             "encode-overflow", "encode of %s is not varint_overflow",
             frames::text(f).c_str());
    return;
  }
  MC_CHECK(size && size.value() == expected.size(), "size",
           "encoded_size of %s is not %zu", frames::text(f).c_str(),
           expected.size());
  MC_CHECK(direct && direct.value() == expected.size(), "encode-size",
           "encode(dest) of %s does not return %zu", frames::text(f).c_str(),
           expected.size());
  bytes got(reinterpret_cast<char *>(dest + 4), expected.size());
  MC_CHECK(got == expected, "encode-bytes", "encode(dest) of %s wrote %s, not %s",
           frames::text(f).c_str(), hx(got).c_str(), hx(expected).c_str());
  for (size_t i = 0; i < sizeof(dest); i++) {
    MC_CHECK((i >= 4 && i < 4 + expected.size()) || dest[i] == 0xc3,
             "encode-overrun", "encode(dest) of %s wrote outside",
             frames::text(f).c_str());
  }
  MC_CHECK(fresh && str(fresh.value()) == expected, "encode-bytes",
           "encode of %s gave the wrong bytes", frames::text(f).c_str());

  buffer in = buf(expected + "\x01\x02");
  auto back = frame::decode(in);
  mc::step();
  MC_CHECK(back.has_value(), "round-trip", "%s does not decode (error %llu)",
           frames::text(f).c_str(), (unsigned long long) back.error());
  MC_CHECK(back.value() == subject && !(back.value() != subject) &&
             frames::read(back.value()) == f,
           "round-trip", "%s decodes to %s", frames::text(f).c_str(),
           frames::text(frames::read(back.value())).c_str());
  MC_CHECK(str(in) == "\x01\x02", "round-trip-consumed",
           "decoding %s consumed the wrong bytes", frames::text(f).c_str());
}

static void
simple()
{
  static const std::vector<uint64_t> types = {
    ref::DATA, ref::HEADERS, ref::CANCEL_PUSH, ref::GOAWAY, ref::MAX_PUSH_ID,
    ref::DUPLICATE_PUSH
  };
  static std::vector<uint64_t> values;
  if (values.empty()) {
    values = B;
    for (uint64_t v = 0; v < 300; v++) {
      values.push_back(v);
    }
    for (int bit : { 14, 30, 62, 63 }) {
      for (uint64_t d = 0; d < 20; d++) {
        values.push_back((uint64_t(1) << bit) - 10 + d);
      }
    }
  }
  ref::frame f;
  f.type = mc::pick(types, "type");
  f.id = mc::pick(values, "value");
  check(f);
}

static void
push_promise()
{
  static std::vector<uint64_t> sizes;
  if (sizes.empty()) {
    sizes = B;
    for (uint64_t d = 1; d <= 18; d++) {
      sizes.push_back(ref::VARINT_MAX - d);
      sizes.push_back(ref::VARINT_MAX + 1 + d);
      sizes.push_back(UINT64_MAX - d);
      sizes.push_back(64 - d);
      sizes.push_back(16384 - d);
      sizes.push_back(1073741824 - d);
    }
  }
  ref::frame f;
  f.type = ref::PUSH_PROMISE;
  f.id = mc::pick(B, "push id");
  f.size = mc::pick(sizes, "block size");
  check(f);
}

static void
priority()
{
  ref::frame f;
  f.type = ref::PRIORITY;
  f.element = mc::choose(4, "element type");
  f.dependency = mc::choose(4, "dependency type");
  f.element_id = mc::pick(B, "element id");
  f.dependency_id = mc::pick(B, "dependency id");
  int weights = f.element_id == f.dependency_id || mc::thorough() ? 256 : 5;
  int w = mc::choose(weights, "weight");
  f.weight = static_cast<uint8_t>(weights == 256 ? w : w == 0   ? 0
                                                   : w == 1 ? 1
                                                   : w == 2 ? 127
                                                   : w == 3 ? 128
                                                            : 255);
  check(f);
}

static void
settings()
{
  ref::frame f;
  f.type = ref::SETTINGS;
  f.max_header_list_size = mc::pick(B, "max header list size");
  f.num_placeholders = mc::pick(B, "placeholders");
  f.table_capacity = mc::pick(B, "table capacity");
  f.blocked_streams = mc::pick(B, "blocked streams");
  check(f);
}

// Equality tells apart any two frames that differ in a single respect.
static void
equality()
{
  static std::vector<ref::frame> all;
  if (all.empty()) {
    for (uint64_t type : { 0, 1, 2, 3, 4, 5, 7, 13, 14 }) {
      ref::frame f;
      f.type = type;
      all.push_back(f);
      if (type != ref::PRIORITY && type != ref::SETTINGS) {
        f.id = 9;
        all.push_back(f);
      }
      f = ref::frame();
      f.type = type;
      auto with = [&](auto change) {
        ref::frame g = f;
        change(g);
        all.push_back(g);
      };
      if (type == ref::PUSH_PROMISE) {
        with([](ref::frame &g) { g.size = 9; });
      }
      if (type == ref::PRIORITY) {
        with([](ref::frame &g) { g.element = 2; });
        with([](ref::frame &g) { g.dependency = 2; });
        with([](ref::frame &g) { g.element_id = 9; });
        with([](ref::frame &g) { g.dependency_id = 9; });
        with([](ref::frame &g) { g.weight = 9; });
      }
      if (type == ref::SETTINGS) {
        with([](ref::frame &g) { g.max_header_list_size = 9; });
        with([](ref::frame &g) { g.num_placeholders = 9; });
        with([](ref::frame &g) { g.table_capacity = 9; });
        with([](ref::frame &g) { g.blocked_streams = 9; });
      }
    }
  }
  const ref::frame &a = mc::pick(all, "left");
  const ref::frame &b = mc::pick(all, "right");
  frame x = frames::make(a);
  frame y = frames::make(b);
  frame copy(x);
  mc::step(3);
  bool same = a == b;
  MC_CHECK((x == y) == same && (x != y) == !same && (copy == y) == same,
           "equality", "%s == %s is wrong", frames::text(a).c_str(),
           frames::text(b).c_str());
  mc::state(mc::hasher().add(frames::text(a)).add(frames::text(b)));
  mc::outcome(mc::hasher().add(same));
}

int
main(int argc, char **argv)
{
  return mc::run(argc, argv,
                 {
                   { "simple", "6 frame types x 392 field values", simple, 2 },
                   { "push-promise", "12 ids x 120 block sizes around every boundary", push_promise, 2 },
                   { "priority", "4x4 types x 12x12 ids x 5 (256 when the ids agree; thorough: always) weights", priority, 2 },
                   { "settings", "12 boundary values for each of the four settings", settings, 2 },
                   { "equality", "all pairs of frames differing in type or one field", equality, 1 },
                 });
}

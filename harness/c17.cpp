// C17: decoders are resumable and independent of where their input is stored.
#include "frames.hpp"
#include "util.hpp"

#include <ref/qpack.hpp>

#include <bnl/http3/codec/body.hpp>
#include <bnl/http3/codec/frame.hpp>
#include <bnl/http3/codec/headers.hpp>
#include <bnl/http3/codec/qpack.hpp>
#include <bnl/http3/codec/qpack/huffman.hpp>
#include <bnl/http3/codec/qpack/literal.hpp>
#include <bnl/http3/codec/qpack/prefix_int.hpp>
#include <bnl/http3/codec/varint.hpp>

#include <memory>

using namespace util;
using bnl::http3::error;
namespace http3 = bnl::http3;
namespace qpack = bnl::http3::qpack;

// What a decoder reports: values, in order, and the error that ended it.
struct trace {
  std::vector<bytes> values;
  bytes body; // Joined, as pieces depend on how bytes arrive.
  bool failed = false;
  error failure = error::no_error;
  bytes flags;
  bytes rest;

  bool operator==(const trace &o) const
  {
    return values == o.values && body == o.body && failed == o.failed &&
           failure == o.failure &&
           // Where a refused input is left is of no use to anyone.
           ((failed && failure != error::incomplete) ||
            (flags == o.flags && rest == o.rest));
  }

  std::string text() const
  {
    std::string s;
    for (const bytes &v : values) {
      s += v + " ";
    }
    if (!body.empty()) {
      s += "body " + hx(body) + " ";
    }
    return s + (failed ? "error " : "end ") +
           std::to_string(static_cast<unsigned long long>(failure)) + " " + flags +
           " rest " + hx(rest);
  }
};

enum kind { VARINT, FRAME, PEEK, PREFIX, LITERAL, HUFFMAN, QPACK, HEADERS, BODY };

static const char *const NAMES[] = { "varint",  "frame",   "peek",
                                     "prefix",  "literal", "huffman",
                                     "qpack",   "headers", "body" };

// One decoder with its state; step() reports false when it cannot go on now.
struct decoder {
  kind what;
  int parameter;
  qpack::decoder qpack_;
  http3::headers::decoder headers_;
  http3::body::decoder body_;

  template<class R, class F>
  bool add(trace *t, R &&r, F f)
  {
    mc::step();
    if (!r) {
      t->failure = r.error();
      t->failed = true;
      return false;
    }
    f(r);
    return true;
  }

  // Returns whether another step makes sense.
  template<class S>
  bool stateless(S &s, trace *t)
  {
    switch (what) {
      case VARINT:
        return add(t, http3::varint::decode(s),
                   [&](auto &r) { t->values.push_back(std::to_string(r.value())); });
      case FRAME:
        return add(t, http3::frame::decode(s), [&](auto &r) {
          t->values.push_back(frames::text(frames::read(r.value())));
        });
      case PEEK:
        add(t, http3::frame::peek(s), [&](auto &r) {
          t->values.push_back(std::to_string(static_cast<uint64_t>(r.value())));
        });
        return false;
      case PREFIX:
        return add(t, qpack::prefix_int::decode(s, static_cast<uint8_t>(parameter)),
                   [&](auto &r) { t->values.push_back(std::to_string(r.value())); });
      case LITERAL:
        return add(t, qpack::literal::decode(s, static_cast<uint8_t>(parameter)),
                   [&](auto &r) { t->values.push_back(bytes(r.value())); });
      case HUFFMAN:
        add(t, qpack::huffman::decode(s, static_cast<size_t>(parameter)),
            [&](auto &r) { t->values.push_back(bytes(r.value())); });
        return false;
      default:
        return false;
    }
  }

  template<class S>
  bool stateful(S &s, trace *t)
  {
    auto field = [&](auto &r) {
      auto n = r.value().name();
      auto v = r.value().value();
      t->values.push_back(bytes(n.data(), n.size()) + ": " + bytes(v.data(), v.size()));
    };
    switch (what) {
      case QPACK: {
        bool more = add(t, qpack_.decode(s), field);
        t->flags = std::to_string(qpack_.count());
        return more;
      }
      case HEADERS: {
        bool more = add(t, headers_.decode(s), field);
        t->flags = headers_.finished() ? "finished" : headers_.started() ? "started" : "";
        return more && !headers_.finished();
      }
      case BODY: {
        bool more = add(t, body_.decode(s), [&](auto &r) { t->body += str(r.value()); });
        t->flags = body_.in_progress() ? "in progress" : "";
        return more;
      }
      default:
        return false;
    }
  }

  bool stateful() const { return what >= QPACK; }

  template<class S>
  void run(S &s, trace *t)
  {
    t->failed = false;
    t->failure = error::no_error;
    int limit = 1000;
    while (step(s, t)) {
      if (--limit == 0) {
        mc::fail("endless", "%s keeps returning values", NAMES[what]);
      }
    }
    t->rest = content(s);
  }

private:
  bool step(buffer &s, trace *t) { return stateful() ? stateful(s, t) : stateless(s, t); }
  bool step(buffers &s, trace *t) { return stateful() ? stateful(s, t) : stateless(s, t); }
  bool step(buffer::lookahead &s, trace *t) { return stateless(s, t); }
  bool step(buffers::lookahead &s, trace *t) { return stateless(s, t); }
};

static bool
again(const trace &t)
{
  return t.failed && t.failure == error::incomplete;
}

struct input {
  kind what;
  int parameter;
  bytes in;
};

static buffer
store(const bytes &s, int style, size_t piece)
{
  bool on_heap = style == 1 || (style == 2 && piece % 2 == 1);
  return on_heap ? heap(s) : buf(s);
}

// Checks one way of cutting one input.
static void
check(const input &i, const std::vector<bytes> &pieces, int style)
{
  trace expected;
  {
    decoder d{ i.what, i.parameter, {}, {}, {} };
    buffer b = buf(i.in);
    d.run(b, &expected);
  }
  auto same = [&](const trace &t, const char *how) {
    if (!(t == expected)) {
      std::string cuts;
      for (const bytes &p : pieces) {
        cuts += (cuts.empty() ? "" : "|") + mc::hex(p, 40);
      }
      mc::fail(how, "%s(%d) of %s (%s): %s, but from one buffer: %s", NAMES[i.what],
               i.parameter, cuts.c_str(), how, t.text().c_str(), expected.text().c_str());
    }
  };

  { // All of it, in a list.
    decoder d{ i.what, i.parameter, {}, {}, {} };
    buffers b;
    for (size_t p = 0; p < pieces.size(); p++) {
      b.push(store(pieces[p], style, p));
    }
    trace t;
    d.run(b, &t);
    same(t, "list");
  }
  if (i.what < QPACK) {
    decoder d{ i.what, i.parameter, {}, {}, {} };
    buffer b = store(i.in, style, 1);
    buffer::lookahead l(b);
    trace t;
    d.run(l, &t);
    same(t, "buffer-lookahead");
    MC_CHECK(str(b) == i.in, "lookahead-consumes", "a lookahead changed its buffer");

    buffers q;
    for (size_t p = 0; p < pieces.size(); p++) {
      q.push(store(pieces[p], style, p));
    }
    buffers::lookahead ql(q);
    trace qt;
    d.run(ql, &qt);
    same(qt, "list-lookahead");
    MC_CHECK(content(q) == i.in, "lookahead-consumes", "a lookahead changed its list");
  }
  { // Arriving piece by piece, in a list.
    decoder d{ i.what, i.parameter, {}, {}, {} };
    buffers b;
    trace t;
    bool over = false;
    for (size_t p = 0; p < pieces.size(); p++) {
      b.push(store(pieces[p], style, p));
      if (!over) {
        d.run(b, &t);
        over = !again(t);
        if (again(t)) {
          // Asking again without more bytes changes nothing.
          trace once_more = t;
          d.run(b, &once_more);
          MC_CHECK(once_more == t, "asked-twice", "%s(%d) of %s: %s, then %s", NAMES[i.what],
                   i.parameter, mc::hex(i.in, 40).c_str(), t.text().c_str(),
                   once_more.text().c_str());
        }
      }
    }
    t.rest = content(b);
    same(t, "resumed-list");
  }
  { // Arriving piece by piece, in a buffer that is replaced by a larger one.
    decoder d{ i.what, i.parameter, {}, {}, {} };
    buffer b;
    trace t;
    bool over = false;
    for (size_t p = 0; p < pieces.size(); p++) {
      b = buffer::concat(b, store(pieces[p], style, p));
      if (!over) {
        d.run(b, &t);
        over = !again(t);
      }
    }
    t.rest = str(b);
    same(t, "resumed-buffer");
  }
  if (i.what < QPACK) { // A view of a list that grows.
    decoder d{ i.what, i.parameter, {}, {}, {} };
    buffers b;
    buffers::lookahead l(b);
    trace t;
    bool over = false;
    for (size_t p = 0; p < pieces.size(); p++) {
      b.push(store(pieces[p], style, p));
      if (!over) {
        d.run(l, &t);
        over = !again(t);
      }
    }
    t.rest = content(l);
    same(t, "resumed-lookahead");
  }
  if (i.what >= QPACK && pieces.size() > 1) {
    // A decoder that is moved while it waits.
    decoder d{ i.what, i.parameter, {}, {}, {} };
    buffers b;
    trace t;
    bool over = false;
    for (size_t p = 0; p < pieces.size(); p++) {
      b.push(store(pieces[p], style, p));
      if (!over) {
        decoder moved{ i.what, i.parameter, std::move(d.qpack_), std::move(d.headers_),
                       std::move(d.body_) };
        moved.run(b, &t);
        over = !again(t);
        d.qpack_ = std::move(moved.qpack_);
        d.headers_ = std::move(moved.headers_);
        d.body_ = std::move(moved.body_);
      }
    }
    t.rest = content(b);
    same(t, "moved-decoder");
  }
  mc::outcome(mc::hasher().add(expected.text()));
}

static bytes
data_frame(const bytes &payload)
{
  return ref::varint(0) + ref::varint(payload.size()) + payload;
}

static bytes
headers_frame(const bytes &block)
{
  return ref::varint(1) + ref::varint(block.size()) + block;
}

static bytes
Z(const char *s, size_t n)
{
  return bytes(s, n);
}

static const std::vector<input> &
inputs()
{
  static std::vector<input> all;
  if (!all.empty()) {
    return all;
  }
  auto add = [](kind what, int parameter, const bytes &in) {
    all.push_back({ what, parameter, in });
  };

  // Varints of all sizes, one after the other.
  for (int size : { 1, 2, 4, 8 }) {
    add(VARINT, 0, ref::varint_sized(37, size) + ref::varint_sized(19, 2));
  }
  add(VARINT, 0, ref::varint(ref::VARINT_MAX) + ref::varint(5) + ref::varint(16384));
  add(VARINT, 0, Z("\xc0\x01\x02\x03\x04", 5)); // Truncated.

  // Frames.
  std::vector<bytes> fs = {
    data_frame(""),
    ref::varint(0) + ref::varint(70000),
    headers_frame(""),
    Z("\x02\x04\x9f\x05\x06\x11", 6),
    Z("\x02\x0b\x20\x80\x00\x4e\x20\x80\x00\x4e\x21\xff", 12),
    Z("\x03\x01\x09", 3),
    Z("\x04\x00", 2),
    Z("\x04\x08\x06\x40\x64\x01\x00\x07\x40\x41", 10),
    Z("\x05\x05\x41\x2c", 4),
    Z("\x07\x04\x80\x01\x00\x00", 6),
    Z("\x0d\x01\x3f", 3),
    Z("\x0e\x02\x40\x40", 4),
    // Invalid: lengths too small and too large.
    Z("\x03\x02\x09\x00\x00", 5),
    Z("\x04\x05\x06\x40\x64\x01\x40\x01\x00", 9),
    Z("\x0d\x01\x40\x40", 4),
    Z("\x05\x01\x41\x2c", 4),
  };
  for (const bytes &f : fs) {
    add(FRAME, 0, f);
    add(FRAME, 0, Z("\x21\x02\x00\x00", 4) + f + Z("\x07\x01\x04", 3));
    add(PEEK, 0, f);
    add(PEEK, 0, Z("\x21\x02\x05\x00", 4) + f);
  }
  add(FRAME, 0, Z("\x40\x41\x00\x21\x03\x01\x01\x01\x0d\x40\x01\x07\x21", 13));
  add(FRAME, 0, Z("\x21\x08\x00\x01\x02", 5)); // Never complete.
  add(PEEK, 0, Z("\x21\x08\x00\x01\x02", 5));
  add(PEEK, 0, Z("\x40\x41\x00\x21\x03\x01\x01\x01\x0d", 9));

  // Prefixed integers.
  for (int prefix = 1; prefix <= 8; prefix++) {
    add(PREFIX, prefix, ref::prefix_int(3, prefix) + ref::prefix_int(1000000, prefix));
    add(PREFIX, prefix, ref::prefix_int(UINT64_MAX, prefix) + ref::prefix_int(254, prefix));
  }
  add(PREFIX, 5, Z("\x1f\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\x00", 12)); // Overflow.
  add(PREFIX, 5, Z("\x1f\x80\x80\x80\x80\x00\x05", 7)); // Not minimal.
  add(PREFIX, 7, Z("\xff\xff\xff", 3));

  // Literals.
  for (int prefix : { 3, 7 }) {
    for (const bytes &s : { bytes(""), bytes("a"), bytes("www.example.com"), Z("\x00\xff", 2) }) {
      add(LITERAL, prefix, ref::literal_form(s, prefix, false) + ref::literal_form("b", prefix, true));
      add(LITERAL, prefix, ref::literal_form(s, prefix, true) + ref::literal_form("", prefix, false));
    }
    uint8_t form = static_cast<uint8_t>(1 << prefix);
    add(LITERAL, prefix, ref::prefix_int(2, prefix, form) + Z("\xff\xff\x41", 3)); // Padding.
    add(LITERAL, prefix, ref::prefix_int(5, prefix, form) + Z("\xff\xff\xff\xff\xff\x00", 6)); // EOS.
    add(LITERAL, prefix, ref::prefix_int(9, prefix) + "short");
    add(LITERAL, prefix, ref::prefix_int(9, prefix, form) + "short");
  }

  // Huffman.
  for (const bytes &s : { bytes(""), bytes("0"), bytes("no-cache"), Z("\x00\x01\xfe", 3) }) {
    bytes h = ref::huffman(s);
    add(HUFFMAN, static_cast<int>(h.size()), h + "x");
    add(HUFFMAN, static_cast<int>(h.size()) + 1, h);
    add(HUFFMAN, static_cast<int>(h.size()), h);
  }
  add(HUFFMAN, 1, Z("\x00\x00", 2));
  add(HUFFMAN, 4, Z("\xff\xff\xff\xff\xff", 5));

  // Header blocks: all forms, then invalid ones.
  bytes two(2, '\0');
  std::vector<bytes> blocks = {
    two + ref::indexed(17),
    two + ref::indexed(98) + ref::indexed(1),
    two + ref::name_reference(1, "/index.html") + ref::indexed(25),
    two + ref::name_reference(95, "") + ref::name_reference(5, "a=b"),
    two + ref::literal_name({ "x-a", "1" }) + ref::indexed(0),
    two + ref::literal_name({ "custom-name-of-a-field", "v" }),
    Z("\x05\x81", 2) + ref::indexed(23) + ref::literal_name({ "", "" }) + ref::indexed(30),
    // Invalid.
    two + ref::indexed(25) + Z("\x80", 1) + ref::indexed(25),
    two + ref::indexed(99),
    two + ref::indexed(25) + Z("\x45\x01x", 3),
    two + Z("\x10", 1) + ref::indexed(25),
    two + ref::literal_name({ "Upper", "v" }) + ref::indexed(25),
    two + ref::indexed(25) + Z("\x2f\x81\xff\x01", 4),
    two + Z("\x5f\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f\x01", 12) + "a",
  };
  for (const bytes &b : blocks) {
    add(QPACK, 0, b);
    add(HEADERS, 0, headers_frame(b));
    add(HEADERS, 0, Z("\x21\x01\x01", 3) + headers_frame(b) + data_frame("x"));
    add(HEADERS, 0, ref::varint(1) + ref::varint_sized(b.size(), 4) + b);
    // Declared too long and too short.
    add(HEADERS, 0, ref::varint(1) + ref::varint(b.size() + 1) + b);
    add(HEADERS, 0, ref::varint(1) + ref::varint(b.size() - 1) + b + data_frame("xyz"));
    add(HEADERS, 0, ref::varint(1) + ref::varint(b.size() - 1) + b.substr(0, b.size() - 1));
    add(HEADERS, 0, ref::varint(1) + ref::varint(b.size()) + b.substr(0, b.size() - 1));
  }
  for (size_t n : { size_t(0), size_t(1), size_t(2) }) {
    add(HEADERS, 0, ref::varint(1) + ref::varint(n) + two + ref::indexed(17));
    add(HEADERS, 0, ref::varint(1) + ref::varint(n) + two.substr(0, n));
    add(HEADERS, 0, ref::varint(1) + ref::varint(n) + two.substr(0, n) + data_frame("q"));
  }
  add(HEADERS, 0, data_frame("abc"));
  add(HEADERS, 0, Z("\x21\x00\x04\x00", 4));
  // A line that crosses the end of its frame into bytes that are invalid.
  add(HEADERS, 0, Z("\x01\x03\x00\x00\x51", 5) + Z("\x82\xff\xff\x00", 4));
  add(HEADERS, 0, Z("\x01\x03\x00\x00\xff", 5) + bytes(10, '\xff') + Z("\x7f", 1));
  add(HEADERS, 0, Z("\x01\x04\x00\x00\x21\x41", 6) + Z("\x00\x00", 2));
  add(HEADERS, 0, Z("\x01\x06\x00\x00\x2d\xff\xff\xff", 8) + Z("\xff\xff\x00\x00", 4));
  add(HEADERS, 0, Z("\x01\x04\x00\x00\xd9\x51", 6) + Z("\x81\x00", 2));

  // Bodies.
  add(BODY, 0, data_frame("abcde"));
  add(BODY, 0, data_frame("") + data_frame("a") + data_frame(""));
  add(BODY, 0, data_frame("abc") + Z("\x21\x02\x00\x01", 4) + data_frame("defg"));
  add(BODY, 0, Z("\x21\x00\x22\x00", 4) + data_frame("0123456789"));
  add(BODY, 0, data_frame("abcdefghijklmnopqrstuvwxyz") + data_frame("0"));
  add(BODY, 0, data_frame("abc") + headers_frame("xy"));
  add(BODY, 0, data_frame("abc") + Z("\x21\x01\x00", 3) + Z("\x04\x00", 2));
  add(BODY, 0, Z("\x00\x08", 2) + "abc");
  add(BODY, 0, ref::varint_sized(0, 2) + ref::varint_sized(3, 8) + "abc" + data_frame("d"));
  add(BODY, 0, Z("\x21\x09\x00", 3));
  return all;
}

static void
run(size_t cuts, size_t limit)
{
  const input &i = mc::pick(inputs(), "input");
  if (i.in.size() > limit) {
    return;
  }
  std::vector<bytes> pieces;
  size_t at = 0;
  for (size_t c = 0; c < cuts; c++) {
    size_t n = static_cast<size_t>(
      mc::choose(static_cast<int>(i.in.size() - at) + 1, "piece"));
    pieces.push_back(i.in.substr(at, n));
    at += n;
  }
  pieces.push_back(i.in.substr(at));
  int style = cuts == 1 ? mc::choose(3, "storage") : static_cast<int>((pieces[0].size() + cuts) % 3);
  if (mc::thorough() && cuts > 1) {
    style = mc::choose(3, "storage");
  }
  mc::log("%s(%d) of %s", NAMES[i.what], i.parameter, mc::hex(i.in, 80).c_str());
  for (const bytes &p : pieces) {
    mc::log("  piece %s", mc::hex(p, 80).c_str());
  }
  mc::hasher h;
  h.add(static_cast<uint64_t>(i.what)).add(static_cast<uint64_t>(i.parameter));
  for (const bytes &p : pieces) {
    h.add(p);
  }
  mc::state(h);
  check(i, pieces, style);
}

static void
whole()
{
  run(1, SIZE_MAX);
}

static void
two_cuts()
{
  run(2, SIZE_MAX);
}

static void
three_cuts()
{
  run(3, mc::thorough() ? 40 : 24);
}

static void
bytewise()
{
  const input &i = mc::pick(inputs(), "input");
  int empties = mc::choose(2, "with empty pieces");
  int style = mc::choose(3, "storage");
  std::vector<bytes> pieces;
  for (char c : i.in) {
    pieces.push_back(bytes(1, c));
    if (empties == 1) {
      pieces.push_back("");
    }
  }
  pieces.push_back("");
  mc::log("%s(%d) of %s byte by byte", NAMES[i.what], i.parameter, mc::hex(i.in, 80).c_str());
  mc::state(mc::hasher().add(i.in).add(i.what).add(static_cast<uint64_t>(i.parameter * 6 + empties * 3 + style)));
  check(i, pieces, style);
}

// All segmentations (every subset of cut positions).
static void
every_cut()
{
  const input &i = mc::pick(inputs(), "input");
  size_t limit = mc::thorough() ? 18 : 13;
  if (i.in.size() > limit) {
    return;
  }
  std::vector<bytes> pieces;
  bytes piece;
  for (size_t c = 0; c < i.in.size(); c++) {
    piece += i.in[c];
    if (c + 1 == i.in.size() || mc::choose(2, "cut") == 1) {
      pieces.push_back(piece);
      piece.clear();
    }
  }
  if (pieces.empty()) {
    pieces.push_back("");
  }
  mc::log("%s(%d)", NAMES[i.what], i.parameter);
  mc::hasher h;
  h.add(static_cast<uint64_t>(i.what)).add(static_cast<uint64_t>(i.parameter));
  for (const bytes &p : pieces) {
    mc::log("  piece %s", mc::hex(p, 80).c_str());
    h.add(p);
  }
  mc::state(h);
  check(i, pieces, static_cast<int>(pieces.size() % 3));
}

int
main(int argc, char **argv)
{
  std::string n = std::to_string(inputs().size()) + " inputs of 9 decoders, ";
  return mc::run(argc, argv,
                 {
                   { "one-cut", n + "every single cut, 3 storage forms, 7 ways of delivery", whole, 3 },
                   { "bytewise", n + "byte by byte, with and without empty pieces, 3 storage forms", bytewise, 2 },
                   { "every-cut", n + "up to 13 (thorough: 18) bytes: every segmentation", every_cut, 4 },
                   { "two-cuts", n + "every pair of cuts, including empty pieces", two_cuts, 2 },
                   { "three-cuts", n + "up to 24 (thorough: 40) bytes: every triple of cuts, including empty pieces",
                     three_cuts, 2 },
                 });
}

// C22: errors converted to std::error_code stay distinct, keep their text and
// the library they came from, and test as failure except for no_error.
#include <explore.hpp>

#include <bnl/base/system_error.hpp>

#include <os/result.hpp>

#include <climits>
#include <set>
#include <string>
#include <vector>

namespace h3 = bnl::http3;
namespace quic = bnl::quic;

namespace {

using code = std::error_code;

// How a value travels from its enumeration to a std::error_code.
enum way { explicitly, implicitly, through_result, thrown, ways };

template<class E>
bnl::base::result<int, code>
failing(E e)
{
  return e;
}

template<class E>
code
convert(E e, int w)
{
  switch (w) {
    case explicitly:
      return make_error_code(e);
    case implicitly: {
      code c = e;
      return c;
    }
    case through_result: {
      bnl::base::result<int, code> r = failing(e);
      return r.error();
    }
    default:
      try {
        throw std::system_error(e, "thrown");
      } catch (const std::system_error &s) {
        return s.code();
      }
  }
}

struct item {
  const char *origin;
  const char *name;
  uint64_t value;
  int kind; // 0 http3, 1 quic, 2 client
  std::string text;

  code make(int w) const
  {
    switch (kind) {
      case 0:
        return convert(static_cast<h3::error>(value), w);
      case 1:
        return convert(static_cast<quic::error>(value), w);
      default:
        return convert(static_cast<::error>(value), w);
    }
  }

  bool equals(const code &c) const
  {
    switch (kind) {
      case 0:
        return c == static_cast<h3::error>(value);
      case 1:
        return c == static_cast<quic::error>(value);
      default:
        return c == static_cast<::error>(value);
    }
  }

  bool success() const { return kind != 2 && value == 0; }
};

std::string
spaced(std::string s)
{
  for (char &c : s) {
    if (c == '_') {
      c = ' ';
    }
  }
  return s;
}

std::vector<item>
make_items()
{
  std::vector<item> all;
#define H3(x)                                                                  \
  all.push_back({ "http3", #x, static_cast<uint64_t>(h3::error::x), 0,         \
                  spaced(#x) })
  H3(no_error);
  H3(internal);
  H3(wrong_stream);
  H3(closed_critical_stream);
  H3(missing_settings);
  H3(unexpected_frame);
  H3(malformed_frame);
  H3(qpack_decompression_failed);
  H3(incomplete);
  H3(idle);
  H3(delegate);
  H3(not_implemented);
  H3(varint_overflow);
  H3(malformed_header);
  H3(stream_closed);
  H3(invalid_handle);
#define QUIC(x)                                                                \
  all.push_back({ "quic", #x, static_cast<uint64_t>(quic::error::x), 1,        \
                  spaced(#x) })
  QUIC(no_error);
  QUIC(internal);
  QUIC(incomplete);
  QUIC(idle);
  QUIC(delegate);
  QUIC(finished);
  QUIC(not_implemented);
  QUIC(handshake);
  QUIC(crypto);
  QUIC(ngtcp2);
  QUIC(path_validation);
  QUIC(stream_not_found);
  QUIC(stream_id_blocked);
  QUIC(stream_data_blocked);
#define CLIENT(x)                                                              \
  all.push_back({ "client", #x, static_cast<uint64_t>(::error::x), 2,          \
                  spaced(#x) })
  CLIENT(timeout);
  CLIENT(resolve);
  CLIENT(invalid_argument);
  CLIENT(idle);
  CLIENT(finished);
  return all;
}

const std::vector<item> items = make_items();

const std::error_category &
category(int kind)
{
  switch (kind) {
    case 0:
      return h3::error_category();
    case 1:
      return quic::error_category();
    default:
      return ::error_category();
  }
}

// Every error, every way of converting it.
void
one()
{
  const item &i = mc::pick(items, "error");
  int w = mc::choose(ways, "way");
  code c = i.make(w);
  mc::step();
  mc::log("%s::%s -> %s:%d \"%s\"", i.origin, i.name, c.category().name(),
          c.value(), c.message().c_str());
  mc::outcome(mc::hasher().add(i.kind).add(uint64_t(c.value())));

  MC_CHECK(static_cast<bool>(c) == !i.success(), "success",
           "%s::%s tests as %s", i.origin, i.name,
           c ? "failure" : "success");
  MC_CHECK(c.message() == i.text, "text", "%s::%s is described as \"%s\"",
           i.origin, i.name, c.message().c_str());
  MC_CHECK(c.category() == category(i.kind), "category",
           "%s::%s has category %s", i.origin, i.name, c.category().name());
  MC_CHECK(i.equals(c), "equal", "%s::%s does not equal what it was made from",
           i.origin, i.name);
  MC_CHECK(c == i.make(explicitly), "equal",
           "%s::%s converts to different codes", i.origin, i.name);

  // Conversion to a condition and back keeps it too.
  std::error_condition condition = c.default_error_condition();
  MC_CHECK(static_cast<bool>(condition) == !i.success(), "success",
           "the condition of %s::%s tests wrong", i.origin, i.name);
  MC_CHECK(c == condition, "equal", "%s::%s does not match its condition",
           i.origin, i.name);
}

// Every ordered pair of errors.
void
two()
{
  size_t a = mc::choose(items.size(), "a");
  size_t b = mc::choose(items.size(), "b");
  int w = mc::choose(ways, "way");
  const item &x = items[a];
  const item &y = items[b];
  code cx = x.make(explicitly);
  code cy = y.make(w);
  mc::step(2);
  mc::outcome(mc::hasher().add(a).add(b));

  MC_CHECK((cx == cy) == (a == b), "distinct", "%s::%s and %s::%s are %s",
           x.origin, x.name, y.origin, y.name, cx == cy ? "equal" : "different");
  MC_CHECK(x.equals(cy) == (a == b), "distinct",
           "the code of %s::%s %s %s::%s", y.origin, y.name,
           x.equals(cy) ? "equals" : "does not equal", x.origin, x.name);
  if (x.kind == y.kind && a != b) {
    MC_CHECK(cx.value() != cy.value(), "distinct",
             "%s::%s and %s::%s have the same value", x.origin, x.name,
             y.origin, y.name);
    MC_CHECK(cx.message() != cy.message(), "text",
             "%s::%s and %s::%s have the same text", x.origin, x.name,
             y.origin, y.name);
  }
  if (x.kind != y.kind) {
    MC_CHECK(std::string(cx.category().name()) != cy.category().name(),
             "category", "%s and %s errors are both from %s", x.origin,
             y.origin, cx.category().name());
  }
  // A code assigned another one becomes that one.
  code c = cx;
  c = cy;
  MC_CHECK(c == cy && c.message() == y.text, "assign",
           "%s::%s assigned over %s::%s", y.origin, y.name, x.origin, x.name);
  c.clear();
  MC_CHECK(!c, "assign", "cleared code is a failure");
}

// The library also answers for numbers that are no error of its own.
void
others()
{
  int kind = mc::choose(3, "library");
  int block = mc::choose(64, "block");
  int bases[] = { 0, INT_MIN, INT_MAX - 70000, 1 << 30 };
  std::set<int> own;
  for (const item &i : items) {
    if (i.kind == kind) {
      own.insert(i.make(explicitly).value());
    }
  }
  for (int base : bases) {
    for (int i = 0; i < 1024; i++) {
      int n = base + block * 1024 + i;
      code c(n, category(kind));
      std::string m = c.message();
      mc::step();
      MC_CHECK(!m.empty(), "text", "no text for %d", n);
      if (own.count(n) == 0) {
        for (const item &e : items) {
          MC_CHECK(e.kind != kind || !e.equals(c), "distinct",
                   "%d equals %s::%s", n, e.origin, e.name);
        }
      }
    }
  }
  mc::outcome(mc::hasher().add(kind).add(block));
}

}

int
main(int argc, char **argv)
{
  return mc::run(
    argc, argv,
    { { "one", "all 35 errors x 4 ways of converting", one, 2 },
      { "two", "all ordered pairs of the 35 errors x 4 ways of converting",
        two, 2 },
      { "others",
        "every code in 4 blocks of 65536 (from 0, 2^30, INT_MIN, below INT_MAX)"
        " x 3 categories",
        others, 2 } });
}

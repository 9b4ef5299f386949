// C20: buffers own their bytes exclusively and never leak or alias.
#include <bnl/base/string_view.hpp>
#include "util.hpp"

#include <memory>

using namespace util;
using bnl::base::buffer_view;

static constexpr int SLOTS = 3;

// Made beforehand, as allocations are counted.
static const std::vector<std::vector<int>> ORDERS = { { 0, 1, 2 }, { 2, 1, 0 }, { 1, 2, 0 } };
static const std::vector<size_t> NEW_SIZES = { 0, 20, 21, 50 };
static const std::vector<size_t> FIRST_DEEP = { 64 };
static const std::vector<size_t> FIRST = { 1, 19, 20, 21, 22, 41, 45, 64 };
static const std::vector<size_t> BLOCK_SIZES = { 1, 19, 20, 21, 22, 40, 41, 42, 43, 60, 63, 64, 65, 85 };
static const std::vector<size_t> LARGE_SIZES = { 0,   2,   8,    16,    23,    24,    25,    127,   128, 255, 256, 4095, 16384, 65535, 65536, 100000 };
static const std::vector<size_t> MANY = { 1, 2, 3, 15, 16, 17, 126, 127, 128, 129, 254, 255, 256, 257, 300, 1023, 1024, 4096, 32766, 32767, 32768, 65534, 65535, 65536, 65537 };
static const std::vector<bytes> CONTENTS = { "", "a", "b", "ab", "ba", bytes(21, 'x'), bytes(22, 'x'), bytes(20, 'x') + "y", bytes("\x00", 1), bytes("a\x00", 2) };

struct world {
  // On the heap, in dirty memory, so that sanitizers see every access.
  std::vector<std::unique_ptr<buffer>> slot;
  bytes model[SLOTS];
  uint8_t stamp = 1;
  uint64_t blocks;

  world()
  {
    slot.resize(SLOTS);
    blocks = mc::memory::live_blocks();
    for (auto &s : slot) {
      s.reset(new buffer());
    }
  }

  bytes fresh(size_t size)
  {
    bytes b;
    for (size_t i = 0; i < size; i++) {
      b += static_cast<char>(stamp * 16 + (i * 5 + stamp) % 13);
    }
    stamp++;
    return b;
  }

  void check(const char *what)
  {
    for (int i = 0; i < SLOTS; i++) {
      if (slot[static_cast<size_t>(i)] == nullptr) {
        continue;
      }
      const buffer &b = *slot[static_cast<size_t>(i)];
      MC_CHECK(b.size() == model[i].size() && b.empty() == model[i].empty(), "size",
               "after %s buffer %d has %zu bytes, not %zu", what, i, b.size(), model[i].size());
      MC_CHECK(str(b) == model[i], "content", "after %s buffer %d is %s, not %s", what, i,
               hx(str(b)).c_str(), hx(model[i]).c_str());
      MC_CHECK(static_cast<size_t>(b.end() - b.begin()) == b.size() && b.begin() == b.data(),
               "range", "after %s the range of buffer %d is wrong", what, i);
    }
  }

  void finish()
  {
    // Destroyed in every order, the others stay.
    for (int i : mc::pick(ORDERS, "order of destruction")) {
      slot[static_cast<size_t>(i)].reset();
      bytes().swap(model[i]);
      mc::step();
      check("destruction");
    }
    slot.clear();
    slot.resize(SLOTS);
    for (auto &s : slot) {
      s.reset(new buffer());
    }
    uint64_t now = mc::memory::live_blocks();
    MC_CHECK(now == blocks, "leak", "%lld blocks are left when all buffers are gone",
             (long long) now - (long long) blocks);
  }
};

// blocks is measured before the three buffers exist; account for them.
static void
settle(world *w)
{
  w->blocks = mc::memory::live_blocks();
}

struct op {
  int kind, a, b;
  size_t n;
};

enum { CONSTRUCT, MOVE_ASSIGN, MOVE_CONSTRUCT, SLICE, SLICE_OVER, CONSUME, WRITE, CONCAT, RESET, SWAP };

static void
apply(world &w, const op &o)
{
  auto s = [&](int i) -> buffer & { return *w.slot[static_cast<size_t>(i)]; };
  mc::step();
  switch (o.kind) {
    case CONSTRUCT: {
      bytes data = w.fresh(o.n);
      mc::log("buffer %d = new buffer of %zu bytes (form %d)", o.a, o.n, o.b);
      switch (o.b) {
        case 0:
          s(o.a) = buffer(reinterpret_cast<const uint8_t *>(data.data()), data.size());
          break;
        case 1:
          s(o.a) = buffer(data.data(), data.size());
          break;
        case 2:
          s(o.a) = buffer(buffer_view(reinterpret_cast<const uint8_t *>(data.data()), data.size()));
          break;
        default: {
          buffer b(data.size());
          for (size_t i = 0; i < data.size(); i++) {
            b[i] = static_cast<uint8_t>(data[i]);
          }
          s(o.a) = std::move(b);
          break;
        }
      }
      w.model[o.a] = data;
      break;
    }
    case MOVE_ASSIGN:
      mc::log("buffer %d = move(buffer %d)", o.a, o.b);
      s(o.a) = std::move(s(o.b));
      if (o.a != o.b) {
        w.model[o.a] = w.model[o.b];
        w.model[o.b].clear();
      }
      break;
    case MOVE_CONSTRUCT: {
      mc::log("buffer %d = new buffer(move(buffer %d))", o.a, o.b);
      std::unique_ptr<buffer> b(new buffer(std::move(s(o.b))));
      bytes m = w.model[o.b];
      w.model[o.b].clear();
      w.slot[static_cast<size_t>(o.a)] = std::move(b);
      w.model[o.a] = m;
      if (o.a == o.b) {
        break;
      }
      break;
    }
    case SLICE:
    case SLICE_OVER: {
      mc::log("buffer %d = buffer %d.slice(%zu)", o.a, o.b, o.n);
      bytes taken = w.model[o.b].substr(0, o.n);
      buffer r = s(o.b).slice(o.n);
      MC_CHECK(str(r) == taken, "slice", "slice(%zu) gave %s, not %s", o.n, hx(str(r)).c_str(),
               hx(taken).c_str());
      w.model[o.b].erase(0, o.n);
      s(o.a) = std::move(r);
      w.model[o.a] = taken;
      break;
    }
    case CONSUME:
      mc::log("buffer %d.consume(%zu)", o.a, o.n);
      s(o.a).consume(o.n);
      w.model[o.a].erase(0, o.n);
      break;
    case WRITE: {
      bytes data = w.fresh(w.model[o.a].size());
      mc::log("write all of buffer %d", o.a);
      uint8_t *p = s(o.a).data();
      for (size_t i = 0; i < data.size(); i++) {
        if (i % 2 == 0) {
          p[i] = static_cast<uint8_t>(data[i]);
        } else {
          s(o.a)[i] = static_cast<uint8_t>(data[i]);
        }
      }
      w.model[o.a] = data;
      break;
    }
    case CONCAT: {
      int c = static_cast<int>(o.n);
      mc::log("buffer %d = concat(buffer %d, buffer %d)", c, o.a, o.b);
      s(c) = buffer::concat(s(o.a), s(o.b));
      w.model[c] = w.model[o.a] + w.model[o.b];
      break;
    }
    case RESET:
      mc::log("buffer %d is destroyed", o.a);
      w.slot[static_cast<size_t>(o.a)].reset();
      w.slot[static_cast<size_t>(o.a)].reset(new buffer());
      w.model[o.a].clear();
      break;
    case SWAP:
      mc::log("swap(buffer %d, buffer %d)", o.a, o.b);
      std::swap(s(o.a), s(o.b));
      std::swap(w.model[o.a], w.model[o.b]);
      break;
  }
}

// What can be done next; operations on empty buffers only where they differ.
static std::vector<op>
operations(const world &w, bool small)
{
  std::vector<op> all;
  int constructed = 0;
  for (int i = 0; i < SLOTS; i++) {
    const bytes &m = w.model[i];
    // Buffers without content are alike: construct in the first one only.
    if (!m.empty() || constructed++ == 0) {
      for (size_t n : NEW_SIZES) {
        if (!small || n == 20 || n == 50) {
          all.push_back({ CONSTRUCT, i, static_cast<int>((n + static_cast<size_t>(i)) % 4), n });
        }
      }
    }
    if (m.empty()) {
      continue;
    }
    all.push_back({ MOVE_ASSIGN, i, i, 0 });
    all.push_back({ WRITE, i, 0, 0 });
    all.push_back({ RESET, i, 0, 0 });
    std::vector<size_t> NEW_SIZES = { 1, 20, 21, m.size() };
    for (size_t k = 0; k < NEW_SIZES.size(); k++) {
      size_t n = NEW_SIZES[k];
      if (n > m.size() || (k < 3 && n == m.size())) {
        continue;
      }
      all.push_back({ CONSUME, i, 0, n });
    }
    NEW_SIZES.push_back(0);
    int into_empty = 0;
    for (int j = 0; j < SLOTS; j++) {
      if (j == i) {
        continue;
      }
      if (w.model[j].empty() && into_empty++ > 0) {
        continue;
      }
      all.push_back({ MOVE_ASSIGN, j, i, 0 });
      all.push_back({ MOVE_CONSTRUCT, j, i, 0 });
      if (j > i) {
        all.push_back({ SWAP, i, j, 0 });
      }
      for (size_t k = 0; k < NEW_SIZES.size(); k++) {
        size_t n = NEW_SIZES[k];
        if (n > m.size() || (k < 3 && n == m.size()) || (small && (n == 1 || n == 0))) {
          continue;
        }
        all.push_back({ SLICE, j, i, n });
      }
      if (!small) {
        all.push_back({ CONCAT, i, j, static_cast<size_t>(i) });
      }
      all.push_back({ CONCAT, i, j, static_cast<size_t>(3 - i - j) });
    }
    // A slice that replaces the buffer it is taken from.
    if (m.size() > 21) {
      all.push_back({ SLICE_OVER, i, i, 21 });
    }
  }
  return all;
}

static void
explore(int depth, bool small)
{
  world w;
  settle(&w);
  if (small) {
    apply(w, { CONSTRUCT, 0, 0, mc::pick(FIRST_DEEP, "size") });
  } else {
    size_t n = mc::pick(FIRST, "size");
    apply(w, { CONSTRUCT, 0, static_cast<int>(n % 4), n });
  }
  w.check("construction");
  for (int d = 0; d < depth; d++) {
    std::vector<op> ops = operations(w, small);
    int k = mc::choose(static_cast<int>(ops.size()) + 1, "operation");
    if (k == 0) {
      break;
    }
    apply(w, ops[static_cast<size_t>(k - 1)]);
    w.check("the operation");
    mc::state(mc::hasher().add(w.model[0]).add(w.model[1]).add(w.model[2]));
  }
  mc::outcome(mc::hasher().add(w.model[0]).add(w.model[1]).add(w.model[2]));
  w.finish();
}

static void
operations_all()
{
  explore(mc::thorough() ? 4 : 3, false);
}

static void
operations_deep()
{
  explore(mc::thorough() ? 5 : 4, true);
}

// A block cut into slices at every pair of positions, then written and
// destroyed in every order.
static void
slices()
{
  size_t n = mc::pick(BLOCK_SIZES, "size");
  size_t a = static_cast<size_t>(mc::choose(static_cast<int>(n) + 1, "first"));
  size_t b = static_cast<size_t>(mc::choose(static_cast<int>(n - a) + 1, "second"));
  world w;
  settle(&w);
  apply(w, { CONSTRUCT, 0, static_cast<int>(n % 4), n });
  apply(w, { SLICE, 1, 0, a });
  apply(w, { SLICE, 2, 0, b });
  w.check("slicing");
  int writer = mc::choose(4, "writer");
  if (writer < 3) {
    apply(w, { WRITE, writer, 0, 0 });
    w.check("writing");
  }
  int order = mc::choose(2, "move");
  if (order == 1) {
    apply(w, { SWAP, 0, 2, 0 });
    apply(w, { MOVE_CONSTRUCT, 1, 1, 0 });
    w.model[1] = str(*w.slot[1]);
  }
  mc::state(mc::hasher().add(n).add(a).add(b).add(static_cast<uint64_t>(writer * 2 + order)));
  mc::outcome(mc::hasher().add(w.model[0]).add(w.model[1]).add(w.model[2]));
  w.finish();
}

// Sizes of every class, including large ones.
static void
large()
{
  size_t n = mc::pick(LARGE_SIZES, "size");
  size_t m = mc::pick(LARGE_SIZES, "size");
  world w;
  settle(&w);
  apply(w, { CONSTRUCT, 0, static_cast<int>(n % 4), n });
  apply(w, { CONSTRUCT, 1, static_cast<int>(m % 4), m });
  w.check("construction");
  apply(w, { CONCAT, 0, 1, 2 });
  w.check("concat");
  size_t part = mc::choose(2, "part") == 0 ? w.model[2].size() / 2 : w.model[2].size();
  apply(w, { SLICE, 0, 2, part });
  w.check("slice");
  apply(w, { WRITE, 2, 0, 0 });
  w.check("write");
  apply(w, { CONSUME, 0, 0, w.model[0].size() / 3 });
  w.check("consume");
  mc::state(mc::hasher().add(n).add(m).add(part));
  mc::outcome(mc::hasher().add(w.model[0]).add(w.model[1]));
  w.finish();
}

// Many buffers that share one block, gone in every order: counting them must
// not wrap around.
static void
many()
{
  size_t n = mc::pick(MANY, "slices");
  bool big = n > 5000;
  size_t size = mc::choose(big ? 1 : 2, "size of a slice") == 0 ? 21 : 32;
  size_t rest = mc::choose(2, "rest") == 0 ? 0 : 25;
  int order = mc::choose(4, "order of destruction");
  int parent = mc::choose(3, "parent is destroyed");
  bool moved = mc::choose(big ? 1 : 2, "slices are moved") == 1;

  uint64_t blocks = mc::memory::live_blocks();
  {
    auto at = [](size_t i) { return static_cast<uint8_t>(i * 7 + i / 251); };
    std::unique_ptr<buffer> whole(new buffer(n * size + rest));
    for (size_t i = 0; i < n * size + rest; i++) {
      (*whole)[i] = at(i);
    }
    std::vector<buffer> part;
    part.reserve(n);
    for (size_t i = 0; i < n; i++) {
      part.push_back(whole->slice(size));
    }
    mc::step(n + 1);
    if (moved) {
      std::vector<buffer> other;
      other.reserve(n);
      for (buffer &b : part) {
        other.push_back(std::move(b));
      }
      part.swap(other);
    }
    auto check = [&](const buffer &b, size_t start, size_t length) {
      MC_CHECK(b.size() == length, "size", "of %zu slices, the one at byte %zu has %zu bytes, not %zu",
               n, start, b.size(), length);
      for (size_t i = 0; i < length; i++) {
        MC_CHECK(b[i] == at(start + i), "content", "of %zu slices, the one at byte %zu has changed", n, start);
      }
    };
    std::vector<bool> alive(n, true);
    auto check_all = [&]() {
      for (size_t i = 0; i < n; i++) {
        if (alive[i]) {
          check(part[i], i * size, size);
        }
      }
      if (whole != nullptr) {
        check(*whole, n * size, rest);
      }
      mc::step();
    };
    check_all();
    for (size_t k = 0; k < n; k++) {
      if (k == (parent == 0 ? 0 : parent == 1 ? n / 2 : n)) {
        whole.reset();
        check_all();
      }
      size_t i = order == 0 ? k
                 : order == 1 ? n - 1 - k
                 : order == 2 ? (k % 2 == 0 ? k / 2 : n - 1 - k / 2)
                              : (k < n / 2 ? 2 * k + 1 : 2 * (k - n / 2));
      if (i >= n || !alive[i]) {
        i = 0;
        while (!alive[i]) {
          i++;
        }
      }
      part[i] = buffer();
      alive[i] = false;
      if (k < 2 || k + 3 > n || k % (n / 3 + 1) == 0) {
        check_all();
      }
    }
    if (whole != nullptr) {
      check_all();
    }
    mc::state(mc::hasher().add(n).add(size).add(rest).add(static_cast<uint64_t>(order * 8 + parent * 2 + moved)));
    mc::outcome(n);
  }
  uint64_t now = mc::memory::live_blocks();
  MC_CHECK(now == blocks, "leak", "%lld blocks are left when all %zu slices are gone",
           (long long) now - (long long) blocks, n);
}

// Comparisons and views.
static void
views()
{
  const bytes &s = mc::pick(CONTENTS, "left");
  const bytes &t = mc::pick(CONTENTS, "right");
  buffer b = mc::choose(2, "storage") == 0 ? buf(s) : heap(s);
  buffer c = mc::choose(2, "storage") == 0 ? buf(t) : heap(t);
  mc::log("compare %s with %s", hx(s).c_str(), hx(t).c_str());
  mc::step();
  bool equal = buffer_view(b) == buffer_view(c);
  MC_CHECK(equal == (s == t), "equal", "%s and %s compare %s", hx(s).c_str(), hx(t).c_str(),
           equal ? "equal" : "different");
  MC_CHECK((buffer_view(b) != buffer_view(c)) == (s != t), "equal", "!= of %s and %s is wrong",
           hx(s).c_str(), hx(t).c_str());
  buffer_view v(b);
  MC_CHECK(v.size() == s.size() && v.empty() == s.empty() && content(v) == s, "view",
           "a view of %s is different", hx(s).c_str());
  if (!s.empty()) {
    MC_CHECK(*v == static_cast<uint8_t>(s[0]) && *b == static_cast<uint8_t>(s[0]), "view",
             "the first byte of %s is wrong", hx(s).c_str());
  }
  MC_CHECK(v.begin() == v.data() && v.end() == v.data() + s.size() && b.begin() == b.data() &&
             b.end() == b.data() + s.size(),
           "view", "the bounds of a view of %s are wrong", hx(s).c_str());
  bytes walked;
  for (uint8_t byte : v) {
    walked.push_back(static_cast<char>(byte));
  }
  MC_CHECK(walked == s, "view", "walking a view of %s gives %s", hx(s).c_str(), hx(walked).c_str());
  bnl::base::string_view text(reinterpret_cast<const char *>(v.data()), v.size());
  MC_CHECK(bytes(text.begin(), text.end()) == s, "view", "walking a string view of %s is wrong", hx(s).c_str());
  for (size_t i = 0; i < s.size(); i++) {
    MC_CHECK(v[i] == static_cast<uint8_t>(s[i]) && b[i] == static_cast<uint8_t>(s[i]) && text[i] == s[i], "view",
             "byte %zu of %s is wrong", i, hx(s).c_str());
  }
  if (!s.empty()) {
    MC_CHECK(*text == s[0], "view", "the first character of %s is wrong", hx(s).c_str());
  }
  bnl::base::string_view other(reinterpret_cast<const char *>(c.data()), c.size());
  MC_CHECK((text == other) == (s == t) && (text != other) == (s != t), "equal", "%s and %s compare wrong as strings",
           hx(s).c_str(), hx(t).c_str());
  bnl::base::buffer_view_mut m(b.data(), b.size());
  MC_CHECK(buffer_view(m) == buffer_view(b) && m.size() == s.size() && m.empty() == s.empty() &&
             m.begin() == b.data() && m.end() == b.data() + s.size() && content(buffer_view(m)) == s,
           "view", "a mutable view of %s differs", hx(s).c_str());
  for (uint8_t &byte : m) {
    byte = static_cast<uint8_t>(byte + 1);
  }
  for (size_t i = 0; i < s.size(); i++) {
    MC_CHECK(b[i] == static_cast<uint8_t>(s[i] + 1), "view", "writing byte %zu of %s through a view is lost", i,
             hx(s).c_str());
  }
  mc::state(mc::hasher().add(s).add(t));
  mc::outcome(equal);
}

int
main(int argc, char **argv)
{
  return mc::run(
    argc, argv,
    {
      { "operations",
        "8 sizes (and 4 constructors), then every sequence of up to 3 (thorough: 4) operations on 3 buffers, "
        "destroyed in 3 orders",
        operations_all, 3 },
      { "operations-deep",
        "a block of 64 bytes, then every sequence of up to 4 (thorough: 5) operations of a smaller set",
        operations_deep, 3 },
      { "slices", "14 block sizes x every pair of slice sizes x writer x moves x order of destruction", slices, 3 },
      { "large", "16 x 16 sizes up to 100000 bytes, concatenated, sliced and written", large, 2 },
      { "many",
        "25 numbers of slices of one block, up to 65537, (x 2 sizes x moved or not, up to 4096 slices) x 4 orders of destruction "
        "x when the rest goes",
        many, 2 },
      { "views", "10 x 10 contents, 2 x 2 storage forms, compared through views", views, 2 },
    });
}

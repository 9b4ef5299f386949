// C21: a list of buffers behaves as one byte queue.
#include "util.hpp"

#include <algorithm>
#include <deque>
#include <memory>

using namespace util;

struct model {
  std::deque<bytes> pieces; // As pushed and not yet consumed.

  bytes all() const
  {
    bytes s;
    for (const bytes &p : pieces) {
      s += p;
    }
    return s;
  }

  void consume(size_t n)
  {
    while (n > 0) {
      size_t k = std::min(n, pieces.front().size());
      pieces.front().erase(0, k);
      n -= k;
      if (pieces.front().empty()) {
        pieces.pop_front();
      }
    }
  }

  bytes first() const
  {
    for (const bytes &p : pieces) {
      if (!p.empty()) {
        return p;
      }
    }
    return "";
  }
};

static void
check(const buffers &b, const model &m, const char *what)
{
  bytes all = m.all();
  MC_CHECK(b.size() == all.size(), "size", "after %s the list has %zu bytes, not %zu", what,
           b.size(), all.size());
  MC_CHECK(b.empty() == all.empty(), "empty", "after %s empty() is %d", what, b.empty());
  MC_CHECK(content(b) == all, "content", "after %s the list is %s, not %s", what,
           hx(content(b)).c_str(), hx(all).c_str());
  if (!all.empty()) {
    MC_CHECK(*b == static_cast<uint8_t>(all[0]), "first", "after %s the first byte is wrong", what);
  }
}

static bytes
fresh(size_t n, int stamp)
{
  bytes s;
  for (size_t i = 0; i < n; i++) {
    s += static_cast<char>(stamp * 23 + static_cast<int>(i * 3 % 17) + 1);
  }
  return s;
}

static void
check_view(const buffers::lookahead &l, const bytes &rest, size_t consumed, const char *what)
{
  MC_CHECK(l.size() == rest.size() && l.empty() == rest.empty(), "lookahead-size",
           "after %s the view has %zu bytes, not %zu", what, l.size(), rest.size());
  MC_CHECK(content(l) == rest, "lookahead-content", "after %s the view is %s, not %s", what,
           hx(content(l)).c_str(), hx(rest).c_str());
  MC_CHECK(l.consumed() == consumed, "lookahead-consumed", "after %s consumed() is %zu, not %zu",
           what, l.consumed(), consumed);
  if (!rest.empty()) {
    MC_CHECK(*l == static_cast<uint8_t>(rest[0]), "lookahead-first",
             "after %s the first byte of the view is wrong", what);
  }
}

static std::vector<size_t>
amounts(size_t total, const model &m, bool few)
{
  // Around the borders of the pieces.
  std::vector<size_t> out;
  auto add = [&](size_t n) {
    if (n <= total && std::find(out.begin(), out.end(), n) == out.end()) {
      out.push_back(n);
    }
  };
  size_t at = 0;
  add(0);
  for (const bytes &p : m.pieces) {
    at += p.size();
    add(at);
    if (!few) {
      add(at + 1);
      if (at > 0) {
        add(at - 1);
      }
    } else if (at > 0) {
      add(at - 1);
    }
  }
  return out;
}

static void
explore(const std::vector<size_t> &sizes, int depth, bool few)
{
  buffers b;
  model m;
  std::vector<std::pair<std::unique_ptr<buffer>, bytes>> held; // Slices, to see aliasing.
  int stamp = 1;
  for (int d = 0; d < depth; d++) {
    bytes all = m.all();
    std::vector<size_t> ns = amounts(all.size(), m, few);
    int pushes = static_cast<int>(sizes.size());
    int n = static_cast<int>(ns.size());
    int can_pop = all.empty() ? 0 : 1;
    int op = mc::choose(1 + pushes + 2 * n + can_pop + 1, "operation");
    mc::step();
    if (op == 0) {
      break;
    }
    op--;
    if (op < pushes) {
      size_t size = sizes[static_cast<size_t>(op)];
      bytes data = fresh(size, stamp++);
      mc::log("push %zu bytes", size);
      b.push(stamp % 2 == 0 ? buf(data) : heap(data));
      m.pieces.push_back(data);
      MC_CHECK(str(b.back()) == data, "back", "back() is not what was pushed");
      check(b, m, "push");
    } else if (op < pushes + n) {
      size_t k = ns[static_cast<size_t>(op - pushes)];
      mc::log("slice %zu", k);
      buffer r = b.slice(k);
      MC_CHECK(str(r) == all.substr(0, k), "slice", "slice(%zu) of %s gave %s", k, hx(all).c_str(),
               hx(str(r)).c_str());
      m.consume(k);
      check(b, m, "slice");
      held.emplace_back(std::unique_ptr<buffer>(new buffer(std::move(r))), all.substr(0, k));
    } else if (op < pushes + 2 * n) {
      size_t k = ns[static_cast<size_t>(op - pushes - n)];
      mc::log("consume %zu", k);
      b.consume(k);
      m.consume(k);
      check(b, m, "consume");
    } else if (op < pushes + 2 * n + can_pop) {
      buffer r = b.pop();
      bytes got = str(r);
      mc::log("pop: %zu bytes", got.size());
      if (got.empty()) {
        MC_CHECK(m.pieces.front().empty(), "pop", "pop gave nothing");
        m.pieces.pop_front();
      } else {
        MC_CHECK(got == m.first(), "pop", "pop gave %s, not %s", hx(got).c_str(),
                 hx(m.first()).c_str());
        m.consume(got.size());
      }
      check(b, m, "pop");
      held.emplace_back(std::unique_ptr<buffer>(new buffer(std::move(r))), got);
    } else {
      mc::log("move");
      buffers moved(std::move(b));
      b = std::move(moved);
      check(b, m, "move");
    }
    for (auto &h : held) {
      MC_CHECK(str(*h.first) == h.second, "aliasing", "a slice changed to %s from %s",
               hx(str(*h.first)).c_str(), hx(h.second).c_str());
    }
    // Writing to what was taken must not be visible in the list.
    if (!held.empty() && !held.back().second.empty()) {
      auto &h = held.back();
      for (size_t i = 0; i < h.second.size(); i++) {
        h.second[i] = static_cast<char>(0xee);
        (*h.first)[i] = 0xee;
      }
      check(b, m, "writing to what was taken");
    }
    mc::hasher h;
    for (const bytes &p : m.pieces) {
      h.add(p.size());
    }
    mc::state(h);
  }
  // A view of what is there, at every position.
  bytes all = m.all();
  {
    buffers::lookahead l(b);
    for (size_t i = 0;; i++) {
      check_view(l, all.substr(i), i, "stepping");
      if (i >= 6 || i >= all.size()) {
        break;
      }
      l.consume(1);
    }
  }
  check(b, m, "looking ahead");
  mc::outcome(mc::hasher().add(all));
}

static void
operations()
{
  explore({ 0, 1, 2, 21 }, mc::thorough() ? 8 : 6, true);
}

static void
operations_sizes()
{
  explore({ 0, 3, 20, 21, 45 }, mc::thorough() ? 6 : 5, false);
}

// Every list of up to 5 pieces, sliced and consumed at every position.
static void
positions()
{
  static const std::vector<size_t> sizes = { 0, 1, 2, 20, 22 };
  int n = mc::choose(6, "pieces");
  buffers b;
  model m;
  for (int i = 0; i < n; i++) {
    bytes p = fresh(mc::pick(sizes, "size"), i);
    m.pieces.push_back(p);
    b.push(i % 2 == 0 ? buf(p) : heap(p));
  }
  bytes all = m.all();
  size_t k = static_cast<size_t>(mc::choose(static_cast<int>(std::min<size_t>(all.size(), 70)) + 1, "position"));
  bool slice = mc::choose(2, "slice or consume") == 0;
  mc::log("%d pieces, %zu bytes, %s %zu", n, all.size(), slice ? "slice" : "consume", k);
  mc::step();
  if (slice) {
    buffer r = b.slice(k);
    MC_CHECK(str(r) == all.substr(0, k), "slice", "slice(%zu) of %s gave %s", k, hx(all).c_str(),
             hx(str(r)).c_str());
  } else {
    b.consume(k);
  }
  m.consume(k);
  check(b, m, "it");
  // And the rest at once.
  buffer rest = b.slice(all.size() - k);
  MC_CHECK(str(rest) == all.substr(k), "slice", "slicing the rest of %s after %zu gave %s",
           hx(all).c_str(), k, hx(str(rest)).c_str());
  MC_CHECK(b.empty() && b.size() == 0, "empty", "not empty after slicing everything");
  mc::hasher h;
  h.add(k).add(slice);
  for (const bytes &p : m.pieces) {
    h.add(p.size());
  }
  mc::state(h);
  mc::outcome(mc::hasher().add(all));
}

// Sequences of operations on views: consume, copy, go on with the copy, and
// pushing to the list meanwhile.
template<class Sequence, class View, class Push>
static void
views(Sequence &source, bytes all, Push push, int depth)
{
  struct item {
    std::unique_ptr<View> view;
    size_t start, at;
  };
  std::vector<item> items;
  items.push_back({ std::unique_ptr<View>(new View(source)), 0, 0 });
  for (int d = 0; d < depth; d++) {
    int who = mc::choose(static_cast<int>(items.size()), "view");
    item &i = items[static_cast<size_t>(who)];
    size_t left = all.size() - i.at;
    std::vector<size_t> ns = { 1, 2, left };
    int op = mc::choose(6, "operation");
    mc::step();
    if (op == 0) {
      break;
    }
    if (op <= 3) {
      size_t n = ns[static_cast<size_t>(op - 1)];
      if (n > left || (op == 3 && n < 3)) {
        break;
      }
      mc::log("consume %zu through view %d", n, who);
      i.view->consume(n);
      i.at += n;
    } else if (op == 4) {
      if (items.size() > 2) {
        break;
      }
      mc::log("copy view %d", who);
      size_t at = i.at;
      std::unique_ptr<View> copy(new View(*i.view));
      items.push_back({ std::move(copy), at, at });
    } else {
      bytes more = push();
      mc::log("append %zu bytes", more.size());
      if (more.empty()) {
        break;
      }
      all += more;
    }
    MC_CHECK(content(source) == all, "lookahead-changes", "the source changed to %s",
             hx(content(source)).c_str());
    mc::hasher h;
    for (item &j : items) {
      bytes rest = all.substr(j.at);
      MC_CHECK(j.view->size() == rest.size() && j.view->empty() == rest.empty() &&
                 content(*j.view) == rest,
               "lookahead-content", "a view at %zu of %s shows %s", j.at, hx(all).c_str(),
               hx(content(*j.view)).c_str());
      MC_CHECK(j.view->consumed() == j.at - j.start, "lookahead-consumed",
               "consumed() is %zu, not %zu", j.view->consumed(), j.at - j.start);
      if (!rest.empty()) {
        MC_CHECK(**j.view == static_cast<uint8_t>(rest[0]), "lookahead-first",
                 "the first byte of a view at %zu is wrong", j.at);
      }
      h.add(j.at).add(j.start);
    }
    mc::state(h.add(all.size()));
  }
  mc::outcome(mc::hasher().add(all).add(items.size()));
}

static void
view_list()
{
  static const std::vector<std::vector<size_t>> shapes = {
    {}, { 0 }, { 5 }, { 1, 1, 1 }, { 0, 2, 0, 3, 0 }, { 21, 2 }, { 3, 0, 0, 25 }
  };
  const std::vector<size_t> &shape = mc::pick(shapes, "shape");
  buffers b;
  bytes all;
  int stamp = 0;
  for (size_t n : shape) {
    bytes p = fresh(n, stamp++);
    b.push(buf(p));
    all += p;
  }
  int pushed = 0;
  views<buffers, buffers::lookahead>(
    b, all,
    [&]() -> bytes {
      if (++pushed > 2) {
        return "";
      }
      if (pushed == 2) {
        b.push(buffer());
      }
      bytes p = fresh(2, stamp++);
      b.push(buf(p));
      return p;
    },
    mc::thorough() ? 7 : 5);
}

static void
view_buffer()
{
  static const std::vector<size_t> sizes = { 0, 1, 2, 5, 20, 21, 30 };
  size_t n = mc::pick(sizes, "size");
  bytes all = fresh(n, 1);
  buffer b = mc::choose(2, "storage") == 0 ? buf(all) : heap(all);
  views<buffer, buffer::lookahead>(b, all, []() { return bytes(); }, mc::thorough() ? 7 : 6);
}

// Long lists: sizes and numbers of pieces that don't fit 8 or 16 bits.
static void
large()
{
  static const std::vector<size_t> totals = { 254,   255,   256,   257,    258,   511, 4096, 65534,
                                              65535, 65536, 65537, 65558, 131072, 200001 };
  static const std::vector<size_t> piece_sizes = { 1, 7, 21, 1000, 0 };
  size_t n = mc::pick(totals, "bytes");
  size_t size = mc::pick(piece_sizes, "size of the pieces");
  auto at = [](size_t i) { return static_cast<uint8_t>(i * 7 + i / 251 + i / 65535); };
  std::vector<size_t> borders = { 1, 20, 21, 255, 256, 257, 300, 65535, 65536, 65537, n / 2, n - 1, n };
  size_t k = mc::pick(borders, "bytes taken");
  int op = mc::choose(4, "operation");
  if (k > n || (n > 66000 && size < 20)) {
    return;
  }
  if (size == 0) {
    size = n;
  }

  uint64_t blocks = mc::memory::live_blocks();
  {
    buffers b;
    for (size_t i = 0; i < n; i += size) {
      size_t left = std::min(size, n - i);
      buffer piece(left);
      for (size_t j = 0; j < left; j++) {
        piece[j] = at(i + j);
      }
      b.push(std::move(piece));
    }
    mc::step(n / size);

    // Positions are looked up at the borders, as each look-up walks the list.
    auto check = [&](const auto &list, size_t start, const char *what) {
      MC_CHECK(list.size() == n - start && list.empty() == (n == start), "size",
               "%s has %zu bytes (empty: %d), not %zu", what, list.size(), list.empty(), n - start);
      for (size_t i : { size_t(0), size_t(1), size_t(127), size_t(128), size_t(254), size_t(255), size_t(256),
                        size_t(257), size_t(32767), size_t(32768), size_t(65534), size_t(65535), size_t(65536),
                        size_t(65537), size_t(131071), n - start - 1 }) {
        if (i < n - start) {
          MC_CHECK(list[i] == at(start + i), "content", "byte %zu of %s is %u, not %u", i, what, list[i],
                   at(start + i));
        }
      }
      if (start < n) {
        MC_CHECK(*list == at(start), "first", "the first byte of %s is wrong", what);
      }
    };
    check(b, 0, "the list");
    mc::log("%zu bytes in pieces of %zu, %zu taken (operation %d)", n, size, k, op);
    if (op == 0) {
      buffer taken = b.slice(k);
      MC_CHECK(taken.size() == k, "size", "a slice of %zu bytes has %zu", k, taken.size());
      for (size_t i = 0; i < k; i++) {
        MC_CHECK(taken[i] == at(i), "content", "byte %zu of a slice of %zu bytes is wrong", i, k);
      }
      check(b, k, "the rest after slicing");
    } else if (op == 1) {
      b.consume(k);
      check(b, k, "the rest after consuming");
      buffer taken = b.slice(b.size());
      for (size_t i = 0; i < taken.size(); i++) {
        MC_CHECK(taken[i] == at(k + i), "content", "byte %zu of the rest is wrong", i);
      }
    } else if (op == 2) {
      buffers::lookahead view(b);
      check(view, 0, "a view");
      view.consume(k);
      MC_CHECK(view.consumed() == k, "lookahead-consumed", "consumed() is %zu, not %zu", view.consumed(), k);
      check(view, k, "a view that has advanced");
      buffers::lookahead copy(view);
      MC_CHECK(copy.consumed() == 0, "lookahead-consumed", "consumed() of a copy is %zu", copy.consumed());
      check(copy, k, "the copy of a view");
      size_t half = (n - k) / 2;
      copy.consume(half);
      MC_CHECK(copy.consumed() == half, "lookahead-consumed", "consumed() is %zu, not %zu", copy.consumed(), half);
      check(copy, k + half, "an advanced copy of a view");
      check(view, k, "a view whose copy has advanced");
      check(b, 0, "the list under views");
    } else {
      buffer whole = b.slice(n);
      buffer::lookahead view(whole);
      view.consume(k);
      MC_CHECK(view.consumed() == k, "lookahead-consumed", "consumed() is %zu, not %zu", view.consumed(), k);
      check(view, k, "a view of a buffer");
      buffer::lookahead copy(view);
      size_t half = (n - k) / 2;
      copy.consume(half);
      MC_CHECK(copy.consumed() == half, "lookahead-consumed", "consumed() is %zu, not %zu", copy.consumed(), half);
      check(copy, k + half, "an advanced copy of a view of a buffer");
      whole.consume(k);
      check(whole, k, "a buffer");
    }
    mc::step(3);
    mc::state(mc::hasher().add(n).add(size).add(k).add(static_cast<uint64_t>(op)));
    mc::outcome(mc::hasher().add(n - k));
  }
  uint64_t now = mc::memory::live_blocks();
  MC_CHECK(now == blocks, "leak", "%lld blocks are left", (long long) now - (long long) blocks);
}

// Pieces of different, also large, sizes in one list.
static void
uneven()
{
  static const std::vector<size_t> few = { 0, 1, 21, 255, 4097, 65535, 65537, 70001, 131073 };
  bytes all;
  std::vector<size_t> borders = { 0 };
  {
    buffers b;
    for (int i = 0; i < 3; i++) {
      size_t n = mc::pick(few, "size");
      bytes piece = fresh(n, i);
      for (size_t j = 0; j < n; j += 251) {
        piece[j] = static_cast<char>(j / 251 + static_cast<size_t>(i));
      }
      all += piece;
      borders.push_back(all.size());
      b.push(buf(piece));
    }
    static const std::vector<int> around = { -1, 0, 1, 4096 };
    size_t first = borders[static_cast<size_t>(mc::choose(4, "border"))] +
                   static_cast<size_t>(mc::pick(around, "around"));
    int op = mc::choose(2, "first: slice, consume");
    if (first > all.size()) {
      return;
    }
    mc::log("%zu of %zu bytes", first, all.size());
    auto same = [&](const buffer &taken, size_t from, size_t n, const char *what) {
      mc::step();
      MC_CHECK(taken.size() == n, "size", "%s has %zu bytes, not %zu", what, taken.size(), n);
      MC_CHECK(n == 0 || memcmp(taken.data(), all.data() + from, n) == 0, "content",
               "%s of %zu bytes is wrong", what, n);
    };
    if (op == 0) {
      same(b.slice(first), 0, first, "the first slice");
    } else {
      b.consume(first);
    }
    size_t rest = all.size() - first;
    MC_CHECK(b.size() == rest, "size", "%zu bytes are left, not %zu", b.size(), rest);
    size_t second = rest - rest / 3;
    same(b.slice(second), first, second, "the second slice");
    same(b.slice(rest - second), first + second, rest - second, "the last slice");
    MC_CHECK(b.empty() && b.size() == 0, "empty", "%zu bytes are left", b.size());
    mc::state(mc::hasher().add(borders[1]).add(borders[2]).add(borders[3]).add(first).add(static_cast<uint64_t>(op)));
    mc::outcome(mc::hasher().add(rest));
  }
}

int
main(int argc, char **argv)
{
  return mc::run(
    argc, argv,
    {
      { "operations",
        "every sequence of up to 6 (thorough: 8) of: push 4 sizes, slice and consume at the borders, pop, move",
        operations, 3 },
      { "operations-sizes",
        "every sequence of up to 5 (thorough: 6) of: push 5 sizes, slice and consume around the borders, pop, move",
        operations_sizes, 3 },
      { "positions", "every list of up to 5 pieces of 5 sizes, sliced or consumed at every position up to 70",
        positions, 3 },
      { "views-of-lists",
        "7 lists, every sequence of up to 5 (thorough: 7) of: consume, copy a view, append to the list",
        view_list, 3 },
      { "views-of-buffers", "7 sizes, every sequence of up to 6 (thorough: 7) of: consume, copy a view",
        view_buffer, 3 },
      { "large",
        "14 lengths up to 200001 bytes in pieces of 5 sizes (up to 200001 pieces), sliced, consumed or looked at "
        "at 13 positions",
        large, 2 },
      { "uneven", "3 pieces of 9 sizes up to 131073 bytes, sliced or consumed around every border, then emptied",
        uneven, 2 },
    });
}

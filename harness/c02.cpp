// C02: what a receiver reports does not depend on how bytes were segmented.
#include "corpus.hpp"

using namespace conn;
using corpus::stream;

namespace {

// When the end of the stream arrives.
enum ending { NEVER, JOINED, ALONE };

const std::vector<stream> &
streams()
{
  static const std::vector<stream> all = [] {
    std::vector<stream> r = corpus::messages();
    for (auto more : { corpus::invalid(), corpus::controls() }) {
      r.insert(r.end(), more.begin(), more.end());
    }
    // Messages that stop before they are complete.
    static const std::vector<stream> whole = corpus::messages();
    for (const stream &s : whole) {
      if (s.data.size() < 12) {
        r.push_back({ "without the last byte", s.data.substr(0, s.data.size() - 1) });
      }
    }
    return r;
  }();
  return all;
}

// What is reported if everything arrives at once.
const observed &
at_once(role r, const stream &s, bool fin)
{
  static std::map<std::tuple<role, const stream *, bool>, observed> cache;
  auto key = std::make_tuple(r, &s, fin);
  auto found = cache.find(key);
  if (found == cache.end()) {
    endpoint e(r);
    uint64_t id = s.control ? control_id(r) : 0;
    e.feed(id, s.data, fin);
    found = cache.emplace(key, e.streams[id]).first;
  }
  return found->second;
}

// `mask` as in util::cut, but with a vector of positions; `empties` are
// followed by an empty segment.
void
deliver(role r, const stream &s, ending how, const std::vector<size_t> &cuts,
        const std::vector<bool> &empties, int drain_every, int style)
{
  uint64_t id = s.control ? control_id(r) : 0;
  endpoint e(r);
  std::vector<std::pair<bytes, bool>> segments;
  size_t start = 0;
  for (size_t i = 0; i <= cuts.size(); i++) {
    size_t end = i == cuts.size() ? s.data.size() : cuts[i];
    bool last = i == cuts.size();
    bool empty_after = i < empties.size() && empties[i];
    segments.push_back({ s.data.substr(start, end - start), last && how == JOINED });
    if (empty_after && !(last && how == JOINED)) {
      segments.push_back({ "", false });
    }
    start = end;
  }
  if (how == ALONE) {
    segments.push_back({ "", true });
  }

  bytes so_far;
  bool ended = false;
  for (size_t i = 0; i < segments.size(); i++) {
    bool last = i + 1 == segments.size();
    bool take = last || (drain_every != 0 && i % static_cast<size_t>(drain_every) == 0);
    const auto &segment = segments[i];
    so_far += segment.first;
    ended = ended || segment.second;
    if (mc::logging()) {
      mc::log("deliver %s%s%s", hx(segment.first).c_str(), segment.second ? " fin" : "",
              take ? ", take events" : "");
    }
    e.feed(id, segment.first, segment.second, take, style);
    if (take) {
      ref::expectation expectation = expected(r, s.control, so_far, ended);
      compare(e.streams[id], expectation, s.name);
      mc::state(mc::hasher().add(static_cast<uint64_t>(r)).add(so_far).add(ended).add(hash(e.streams[id])));
    }
    if (e.streams[id].failed && e.streams[id].error == ref::CLOSED_CRITICAL_STREAM) {
      return;
    }
    if (e.streams[id].failed && take) {
      break;
    }
  }
  const observed &o = e.streams[id];
  const observed &whole = at_once(r, s, how != NEVER);
  if (s.control && how != NEVER) {
    return; // Refused at once, whatever it carries.
  }
  MC_CHECK(o == whole, "segmentation", "%s (%s): in segments: %s; at once: %s", s.name, name(r),
           text(o).c_str(), text(whole).c_str());
  mc::outcome(mc::hasher().add(s.data).add(hash(o)));
}

struct setup {
  role r;
  const stream *s;
  ending how;
};

std::vector<const stream *>
of_size(size_t from, size_t to)
{
  std::vector<const stream *> r;
  for (const stream &s : streams()) {
    if (s.data.size() >= from && s.data.size() <= to) {
      r.push_back(&s);
    }
  }
  return r;
}

setup
choose_setup(const std::vector<const stream *> &from)
{
  setup x;
  x.s = mc::pick(from, "stream");
  x.r = mc::choose(2, "role") == 0 ? role::client : role::server;
  x.how = static_cast<ending>(mc::choose(3, "end"));
  mc::log("%s (%s): %s, end of stream %s", x.s->name, name(x.r), hx(x.s->data).c_str(),
          x.how == NEVER ? "missing" : x.how == JOINED ? "with the last segment" : "alone");
  return x;
}

// All cuts of short streams.
size_t LIMIT = 12;

void
every_cut()
{
  static const auto list = of_size(1, LIMIT);
  setup x = choose_setup(list);
  int drain = mc::choose(3, "take events: at the end, always, every second time");
  std::vector<size_t> cuts;
  for (size_t i = 1; i < x.s->data.size(); i++) {
    if (mc::choose(2, "cut") == 1) {
      cuts.push_back(i);
    }
  }
  deliver(x.r, *x.s, x.how, cuts, {}, drain, drain == 2 ? 1 : 0);
}

// Only some of the events are taken before the next segment arrives.
void
some_events()
{
  static const auto list = of_size(2, mc::thorough() ? 10 : 7);
  setup x = choose_setup(list);
  uint64_t id = x.s->control ? control_id(x.r) : 0;
  endpoint e(x.r);
  size_t n = x.s->data.size();
  for (size_t start = 0; start < n;) {
    size_t end = start + 1 + static_cast<size_t>(mc::choose(static_cast<int>(n - start), "size"));
    bool fin = end == n && x.how == JOINED;
    bool last = end == n && x.how != ALONE;
    uint64_t take = last ? UINT64_MAX : static_cast<uint64_t>(mc::choose(mc::thorough() ? 4 : 3, "events to take"));
    mc::log("deliver %s%s, take %ld events", hx(x.s->data.substr(start, end - start)).c_str(),
            fin ? " fin" : "", static_cast<long>(take));
    e.feed_some(id, x.s->data.substr(start, end - start), fin, take);
    start = end;
  }
  if (x.how == ALONE) {
    e.feed(id, "", true);
  }
  if (x.s->control && x.how != NEVER) {
    return; // Refused at once, whatever it carries.
  }
  const observed &o = e.streams[id];
  const observed &whole = at_once(x.r, *x.s, x.how != NEVER);
  MC_CHECK(o == whole, "some-events", "%s (%s): taking some events in between: %s; at once: %s",
           x.s->name, name(x.r), text(o).c_str(), text(whole).c_str());
  mc::state(mc::hasher().add(x.s->data).add(hash(o)));
  mc::outcome(mc::hasher().add(x.s->data).add(hash(o)));
}

// All cuts with empty segments in any of them.
void
every_cut_empty()
{
  static const auto list = of_size(1, mc::thorough() ? 11 : 7);
  setup x = choose_setup(list);
  int drain = mc::choose(2, "take events: at the end, always");
  std::vector<size_t> cuts;
  std::vector<bool> empties;
  bool first = mc::choose(2, "empty first") == 1;
  if (first) {
    cuts.push_back(0);
    empties.push_back(false);
  }
  for (size_t i = 1; i <= x.s->data.size(); i++) {
    int c = i == x.s->data.size() ? 1 + mc::choose(2, "empty last")
                                  : mc::choose(3, "join, cut, cut and empty");
    if (c != 0) {
      if (i < x.s->data.size()) {
        cuts.push_back(i);
      }
      empties.push_back(c == 2);
    }
  }
  deliver(x.r, *x.s, x.how, cuts, empties, drain, 0);
}

// Long streams: up to a number of cuts at any position, from both ends of
// inline storage.
void
few_cuts()
{
  static const auto list = of_size(LIMIT + 1, 100000);
  setup x = choose_setup(list);
  int drain = mc::choose(2, "take events: at the end, always");
  int style = mc::choose(2, "storage");
  std::vector<size_t> cuts;
  size_t n = x.s->data.size();
  int most = n <= 24 ? 4 : n <= 60 ? 3 : 2;
  if (mc::thorough()) {
    most += n <= 150 ? 1 : 0;
  }
  size_t from = 0;
  for (int i = 0; i < most && from + 1 < n; i++) {
    // Position of the next cut, or none.
    int c = mc::choose(static_cast<int>(n - from), "next cut");
    if (c == 0) {
      break;
    }
    from += static_cast<size_t>(c);
    cuts.push_back(from);
  }
  deliver(x.r, *x.s, x.how, cuts, {}, drain, style);
}

// Equal segments of every size.
void
equal_segments()
{
  static const auto list = of_size(LIMIT + 1, 100000);
  setup x = choose_setup(list);
  int drain = mc::choose(4, "take events");
  int style = mc::choose(2, "storage");
  size_t size = 1 + static_cast<size_t>(mc::choose(32, "size"));
  size_t offset = static_cast<size_t>(mc::choose(static_cast<int>(size), "offset"));
  std::vector<size_t> cuts;
  for (size_t i = offset == 0 ? size : offset; i < x.s->data.size(); i += size) {
    cuts.push_back(i);
  }
  deliver(x.r, *x.s, x.how, cuts, {}, drain, style);
}

// Streams that cross the sizes where lengths take more bytes: cuts near every
// structural boundary and at the end of typical packets.
void
large()
{
  static const std::vector<stream> list = [] {
    std::vector<stream> r;
    bytes get = headers({ { ":method", "GET" } });
    for (size_t n : { 63, 64, 65, 1200, 16383, 16384, 70000, 1100000 }) {
      r.push_back({ "large body", get + data(body(n)) + data(body(3, 1)) });
    }
    for (size_t n : { 58, 59, 60, 61, 62, 124, 125, 126, 127, 128, 4000, 16375, 16376, 16380 }) {
      r.push_back({ "large header", corpus::block(corpus::literal_raw({ "n", bytes(n, '\x02') })) +
                                      data("xy") });
    }
    for (size_t n : { 20, 21, 130, 1000, 17000 }) {
      r.push_back({ "large huffman value", headers({ { "name", bytes(n, 'e') } }) + data("xy") });
    }
    for (size_t n : { 200, 1000, 1100, 5000, 17000 }) {
      // Refused only once all of its value is there.
      r.push_back({ "large bad header",
                    corpus::block(corpus::literal_raw({ "n", "v" }) + "\x21n" +
                                  ref::prefix_int(n, 7, 0x80) + bytes(n, '\xff') +
                                  corpus::literal_raw({ "n", bytes(40, 'v') })) +
                      data("xy") });
    }
    for (size_t n : { 200, 1000, 4090, 5000, 17000 }) {
      // A value that is longer than its block.
      bytes line = "\x21n" + ref::prefix_int(n + 1, 7) + bytes(n, 'v');
      r.push_back({ "large crossing line", corpus::block(corpus::literal_raw({ "n", "v" }) + line) + data("xy") });
      r.push_back({ "crossing line, large rest", corpus::block("\x21n" + ref::prefix_int(1 << 20, 7) + bytes(n, 'v')) });
    }
    for (size_t n : { 63, 64, 16383, 16384, 1100000 }) {
      r.push_back({ "large unknown frame", get + frame(0x21, body(n)) + data("xy") });
      r.push_back({ "large trailers", get + data("x") + frame(ref::HEADERS, body(n)) });
    }
    return r;
  }();
  setup x;
  x.s = &mc::pick(list, "stream");
  x.r = mc::choose(2, "role") == 0 ? role::client : role::server;
  x.how = static_cast<ending>(mc::choose(3, "end"));
  int drain = mc::choose(2, "take events: at the end, always");
  int kind = mc::choose(3, "cuts: two near the ends, packets, first bytes");
  size_t n = x.s->data.size();
  std::vector<size_t> cuts;
  if (kind == 0) {
    size_t a = static_cast<size_t>(mc::choose(n > 1000000 ? 2 : 16, "from the start"));
    size_t b = static_cast<size_t>(mc::choose(n > 1000000 ? 2 : 9, "from the end"));
    if (a > 0) {
      cuts.push_back(a);
    }
    if (b > 0 && n - b > a) {
      cuts.push_back(n - b);
    }
  } else if (kind == 1) {
    static const std::vector<size_t> sizes = { 19, 20, 21, 63, 64, 100, 1199, 1200, 16384 };
    size_t size = mc::pick(sizes, "packet");
    if (n / size > 200) {
      size = n > 1000000 ? n / 20 : 1200;
    }
    for (size_t i = size; i < n; i += size) {
      cuts.push_back(i);
    }
  } else {
    for (size_t i = 1; i < 14 && i < n; i++) {
      cuts.push_back(i);
    }
  }
  mc::log("%s of %zu bytes (%s), %zu cuts", x.s->name, n, name(x.r), cuts.size());
  deliver(x.r, *x.s, x.how, cuts, {}, drain, 0);
}

}

int
main(int argc, char **argv)
{
  for (int i = 1; i + 1 < argc; i++) {
    if (std::string(argv[i]) == "--tier" && std::string(argv[i + 1]) == "thorough") {
      LIMIT = 15;
    }
  }
  return mc::run(
    argc, argv,
    { { "every-cut",
        "all 2^(n-1) ways to cut each stream of the corpus of up to 12 (thorough 15) bytes, both "
        "roles, end of stream missing, joined or alone, events taken never, always or every second "
        "time before the end",
        every_cut, 4 },
      { "every-cut-with-empty-segments",
        "the same with any number of empty segments in between, for up to 7 (11) bytes",
        every_cut_empty, 4 },
      { "some-events",
        "all ways to cut streams of up to 7 (10) bytes, taking 0 to 2 (3) events after each segment",
        some_events, 4 },
      { "few-cuts",
        "all placements of up to 2-4 (thorough 3-5) cuts in longer streams, both storages", few_cuts, 4 },
      { "equal-segments", "segments of every size from 1 to 32 at every offset", equal_segments, 4 },
      { "large",
        "headers, bodies, unknown frames and trailers around the sizes where lengths take more "
        "bytes: two cuts near the ends, packets, and the first bytes one by one",
        large, 4 } });
}

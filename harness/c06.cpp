// C06: streams do not interfere with each other.
#include "corpus.hpp"

#include <functional>

using namespace conn;

namespace {

// One step of what happens to a stream.
struct step {
  enum kind { RECV, HEADER, START, BODY, FIN, FLUSH, TAKE } what;
  bytes data;
  bool fin = false;
};

struct script {
  const char *name;
  enum where { REQUEST, CONTROL, UNI, FOREIGN } stream;
  std::vector<step> steps;
};

const std::vector<script> &
scripts(role r)
{
  static const bytes get = headers({ { ":method", "GET" }, { "a", "b" } });
  static const bytes settings = frame(ref::SETTINGS, ref::setting(6, 77));
  using S = step;
  auto recv = [](const bytes &s, bool fin = false) { return S{ S::RECV, s, fin }; };
  static const std::vector<script> both = {
    { "message", script::REQUEST,
      { recv(get), recv(data("body")), recv("", true) } },
    { "message at once", script::REQUEST, { recv(get + data("once"), true) } },
    { "split message", script::REQUEST,
      { recv(get.substr(0, 4)), recv(get.substr(4) + data("xyz").substr(0, 3)),
        recv(data("xyz").substr(3), true) } },
    { "no headers", script::REQUEST, { recv(data("x")), recv(get) } },
    { "wrong frame", script::REQUEST, { recv(get), recv(settings), recv("", true) } },
    { "truncated", script::REQUEST, { recv(get + data("abc").substr(0, 3)), recv("", true) } },
    { "idle", script::REQUEST, { recv(""), recv(bytes("\x01", 1)) } },
    { "bad headers", script::REQUEST, { recv(corpus::block("\xd1\xff\x24")), recv(get, true) } },
    { "answered early", script::REQUEST,
      { recv(get), S{ S::HEADER, "early" }, S{ S::START }, S{ S::FIN } , recv(data("late"), true) } },
    { "answer", script::REQUEST,
      { recv(get, true), S{ S::HEADER, "v" }, S{ S::START }, S{ S::BODY, "answer" }, S{ S::FIN } } },
    { "completed, then more", script::REQUEST,
      { S{ S::RECV, get, true }, S{ S::HEADER, "done" }, S{ S::START }, S{ S::FIN },
        S{ S::FLUSH }, recv(get) } },
    { "completed, then an end", script::REQUEST,
      { S{ S::RECV, get, true }, S{ S::HEADER, "done" }, S{ S::START }, S{ S::FIN },
        S{ S::FLUSH }, recv("", true) } },
    { "control", script::CONTROL, { recv(bytes(1, '\0')), recv(settings), recv(frame(0x21, "u")) } },
    { "refused control", script::CONTROL,
      { recv(bytes(1, '\0') + settings), recv(settings), recv(data("x")) } },
    { "ended control", script::CONTROL, { recv(bytes(1, '\0')), recv("", true) } },
    { "other unidirectional", script::UNI, { recv(get), recv(data("x")), recv("z", true) } },
    { "foreign", script::FOREIGN, { recv(get), recv(data("x"), true) } },
  };
  (void)r;
  return both;
}

// Scripts whose events are taken one by one.
const std::vector<script> &
slow_scripts()
{
  static const bytes get = headers({ { ":method", "GET" }, { "a", "b" } });
  static const bytes settings = frame(ref::SETTINGS, ref::setting(6, 77));
  using S = step;
  auto recv = [](const bytes &s, bool fin = false) { return S{ S::RECV, s, fin }; };
  auto take = S{ S::TAKE };
  static const std::vector<script> list = {
    { "slow message", script::REQUEST,
      { recv(get + data("body") + data("more"), true), take, take, take, take } },
    { "slow pieces", script::REQUEST,
      { recv(get), take, recv(data("body")), take, recv(data("more"), true), take } },
    { "slow end", script::REQUEST, { recv(get + data("b")), take, take, take, recv("", true), take } },
    { "slow error", script::REQUEST, { recv(get + settings, true), take, take, take } },
    { "slow truncation", script::REQUEST,
      { recv(get + data("abc").substr(0, 4)), take, take, recv("", true), take } },
    { "slow answer", script::REQUEST,
      { recv(get, true), take, S{ S::HEADER, "v" }, S{ S::START }, S{ S::FIN }, S{ S::FLUSH }, take } },
    { "slow control", script::CONTROL,
      { recv(bytes(1, '\0') + settings + frame(0x21, "u")), take, take } },
    { "slow control error", script::CONTROL,
      { recv(bytes(1, '\0') + settings + settings), take, take } },
  };
  return list;
}

// What a script leads to.
struct result {
  observed seen;
  std::string emitted; // Bytes and end of stream.
  std::string calls;   // Results of the application's calls.
};

class machine {
public:
  machine(role r, bool late, bool flush_always)
    : role_(r)
    , e_(r, r == role::client ? 3 : 0, false)
    , late_(late)
    , flush_always_(flush_always)
  {
    if (r == role::client) {
      // Fresh requests whose handles are kept.
      e_.client.reset(new h3::client::connection());
      for (int i = 0; i < 3; i++) {
        auto h = e_.client->request();
        MC_CHECK(h && h.value().header({ ":method", "GET" }) && h.value().start(), "setup",
                 "a request could not be made");
        handles_.emplace(h.value().id(), std::move(h).value());
      }
      flush();
      results_.clear();
    }
  }

  // On the connection and the stream of slot i.
  void run(const script &s, const step &t, int slot)
  {
    uint64_t id = stream(s, slot);
    result &r = results_[id];
    switch (t.what) {
      case step::RECV:
        receive(id, t, &r);
        break;
      case step::HEADER:
        if (e_.server) {
          auto h = e_.server->response(id);
          if (!h) {
            r.calls += "response " + std::to_string(static_cast<uint64_t>(h.error())) + ";";
            break;
          }
          handles_.erase(id);
          handles_.emplace(id, std::move(h).value());
        }
        call(id, &r, [&](handle &h) { return h.header({ "x", t.data.c_str() }); });
        break;
      case step::START:
        call(id, &r, [](handle &h) { return h.start(); });
        break;
      case step::BODY:
        call(id, &r, [&](handle &h) { return h.body(buf(t.data)); });
        break;
      case step::FIN:
        call(id, &r, [](handle &h) { return h.fin(); });
        break;
      case step::FLUSH:
        flush();
        break;
      case step::TAKE: {
        // One event, of the ones that weren't taken so far.
        auto found = generators_.find(id);
        if (found != generators_.end()) {
          found->second(id, &e_.streams[id], 1);
        }
        break;
      }
    }
    if (flush_always_) {
      flush();
    }
  }

  void finish()
  {
    for (auto &entry : generators_) {
      entry.second(entry.first, &e_.streams[entry.first], UINT64_MAX);
    }
    flush();
    for (auto &entry : results_) {
      entry.second.seen = e_.streams[entry.first];
    }
    // A completed stream takes no more responses.
    if (e_.server) {
      for (auto &entry : results_) {
        auto h = e_.server->response(entry.first);
        if (!h) {
          entry.second.calls +=
            "finally " + std::to_string(static_cast<uint64_t>(h.error())) + ";";
        } else {
          entry.second.calls += "finally ok;";
        }
      }
    }
  }

  uint64_t stream(const script &s, int slot) const
  {
    switch (s.stream) {
      case script::REQUEST:
        return static_cast<uint64_t>(slot) * 4;
      case script::CONTROL:
        return control_id(role_);
      case script::UNI:
        return role_ == role::client ? 7 + 4 * static_cast<uint64_t>(slot)
                                     : 6 + 4 * static_cast<uint64_t>(slot);
      default:
        // A bidirectional stream that isn't a request.
        return role_ == role::client ? 100 + 4 * static_cast<uint64_t>(slot)
                                     : 1 + 4 * static_cast<uint64_t>(slot);
    }
  }

  std::map<uint64_t, result> &results() { return results_; }

private:
  using handle = h3::request::handle;

  template<class F>
  void call(uint64_t id, result *r, F f)
  {
    auto found = handles_.find(id);
    if (found == handles_.end()) {
      r->calls += "no handle;";
      return;
    }
    auto outcome = f(found->second);
    r->calls += outcome ? "ok;" : std::to_string(static_cast<uint64_t>(outcome.error())) + ";";
  }

  using taker = std::function<void(uint64_t, observed *, uint64_t)>;

  template<class C>
  void receive(C &c, uint64_t id, const step &t, result *r)
  {
    received_[id] += t.data.size();
    observed &o = e_.streams[id];
    auto g = c.recv(quic::event(quic::data{ id, t.fin, buf(t.data) }));
    if (!g) {
      r->calls += "recv " + std::to_string(static_cast<uint64_t>(g.error())) + ";";
      if (!o.failed && !ended_[id]) {
        o.failed = true;
        o.error = static_cast<uint64_t>(g.error());
      }
      return;
    }
    ended_[id] = ended_[id] || t.fin;
    using G = typename std::decay<decltype(g.value())>::type;
    auto kept = std::make_shared<G>(std::move(g).value());
    size_t received = received_[id];
    auto f = [kept, received](uint64_t i, observed *seen, uint64_t most) {
      drain(*kept, i, received, seen, most);
    };
    if (late_) {
      generators_[id] = f;
    } else {
      f(id, &o, UINT64_MAX);
    }
  }

  void receive(uint64_t id, const step &t, result *r)
  {
    mc::step();
    if (e_.client) {
      receive(*e_.client, id, t, r);
    } else {
      receive(*e_.server, id, t, r);
    }
  }

  void flush()
  {
    for (int i = 0; i < 1000; i++) {
      if (e_.client) {
        if (!emit(e_.client->send())) {
          return;
        }
      } else if (!emit(e_.server->send())) {
        return;
      }
    }
    mc::fail("send-forever", "send() never reports idle");
  }

  template<class R>
  bool emit(R r)
  {
    if (!r) {
      MC_CHECK(static_cast<uint64_t>(r.error()) == ref::IDLE, "send",
               "send() failed with %lu", static_cast<uint64_t>(r.error()));
      return false;
    }
    quic::event &event = r.value();
    result &to = results_[event.data.id];
    to.emitted += mc::hex(str(event.data.buffer), 1000);
    if (event.data.fin) {
      to.emitted += " fin";
    }
    return true;
  }

  role role_;
  endpoint e_;
  bool late_, flush_always_;
  std::map<uint64_t, handle> handles_;
  std::map<uint64_t, taker> generators_;
  std::map<uint64_t, size_t> received_;
  std::map<uint64_t, bool> ended_;
  std::map<uint64_t, result> results_;
};

std::string
text(const result &r)
{
  return conn::text(r.seen) + "; emitted " + r.emitted + "; calls " + r.calls;
}

// The same script when nothing else happens on the connection.
const result &
alone(role r, const script &s, int slot, bool late, bool flush_always)
{
  static std::map<std::tuple<role, const script *, int, bool, bool>, result> cache;
  auto key = std::make_tuple(r, &s, slot, late, flush_always);
  auto found = cache.find(key);
  if (found == cache.end()) {
    machine m(r, late, flush_always);
    bytes all;
    bool fin = false;
    for (const step &t : s.steps) {
      m.run(s, t, slot);
      if (t.what == step::RECV && !fin) {
        all += t.data;
        fin = t.fin;
      }
    }
    m.finish();
    const result &got = m.results()[m.stream(s, slot)];
    // It has to be right by itself, too.
    if (s.stream == script::REQUEST) {
      compare(got.seen, ref::request_stream(r, all, fin), s.name);
    } else if (s.stream == script::CONTROL) {
      compare(got.seen, expected(r, true, all, fin), s.name);
    } else if (s.stream == script::UNI) {
      MC_CHECK(!got.seen.failed && got.seen.headers.empty() && got.seen.body.empty(), "uni",
               "another unidirectional stream was interpreted: %s", text(got).c_str());
    } else {
      MC_CHECK(got.seen.failed && got.seen.headers.empty() && got.seen.body.empty(), "foreign",
               "bytes for a stream the peer can't have opened were accepted: %s",
               text(got).c_str());
    }
    if (std::string(s.name) == "completed, then more" && r == role::server) {
      MC_CHECK(got.calls.find("recv ") != std::string::npos &&
                 got.calls.find("finally ok") == std::string::npos,
               "completed", "receiving on a completed stream made a message: %s",
               text(got).c_str());
    }
    found = cache.emplace(key, got).first;
  }
  return found->second;
}

void
interleave(int streams, size_t longest, bool slow = false)
{
  role r = mc::choose(2, "role") == 0 ? role::client : role::server;
  std::vector<const script *> list;
  for (const script &s : slow ? slow_scripts() : scripts(r)) {
    if (s.steps.size() <= longest) {
      list.push_back(&s);
    }
  }
  // Scripts in non-decreasing order: every set once; a control stream at most
  // once.
  std::vector<const script *> chosen;
  size_t from = 0;
  for (int i = 0; i < streams; i++) {
    size_t c = from + static_cast<size_t>(
                        mc::choose(static_cast<int>(list.size() - from), "script"));
    if (i > 0 && list[c]->stream == script::CONTROL && chosen.back()->stream == script::CONTROL) {
      return;
    }
    chosen.push_back(list[c]);
    from = c;
  }
  bool reversed = mc::choose(2, "order of ids") == 1;
  int mode = mc::choose(slow ? 2 : 3,
                        "events at once and flush at the end, events late, flush always");
  bool late = slow || mode == 1, flush_always = slow ? mode == 1 : mode == 2;

  for (int i = 0; i < streams; i++) {
    alone(r, *chosen[static_cast<size_t>(i)], reversed ? streams - 1 - i : i, late, flush_always);
  }
  machine m(r, late, flush_always);
  std::vector<size_t> at(static_cast<size_t>(streams), 0);
  while (true) {
    std::vector<int> ready;
    for (int i = 0; i < streams; i++) {
      if (at[static_cast<size_t>(i)] < chosen[static_cast<size_t>(i)]->steps.size()) {
        ready.push_back(i);
      }
    }
    if (ready.empty()) {
      break;
    }
    int i = ready.size() == 1 ? ready[0] : mc::pick(ready, "stream");
    size_t k = at[static_cast<size_t>(i)]++;
    const script &s = *chosen[static_cast<size_t>(i)];
    int slot = reversed ? streams - 1 - i : i;
    mc::log("stream %lu (%s), step %zu", m.stream(s, slot), s.name, k + 1);
    m.run(s, s.steps[k], slot);
  }
  m.finish();
  mc::hasher h;
  for (int i = 0; i < streams; i++) {
    const script &s = *chosen[static_cast<size_t>(i)];
    int slot = reversed ? streams - 1 - i : i;
    const result &got = m.results()[m.stream(s, slot)];
    const result &want = alone(r, s, slot, late, flush_always);
    MC_CHECK(got.seen == want.seen && got.emitted == want.emitted && got.calls == want.calls,
             "interference", "%s, stream %lu (%s): %s; alone: %s", name(r), m.stream(s, slot),
             s.name, text(got).c_str(), text(want).c_str());
    h.add(hash(got.seen)).add(got.emitted).add(got.calls);
  }
  mc::outcome(h);
  mc::state(h.add(static_cast<uint64_t>(mode)));
}

void
pairs()
{
  interleave(2, 6);
}

void
one_by_one()
{
  interleave(2, 6 + (mc::thorough() ? 1 : 0), true);
}

void
one_by_one_triples()
{
  interleave(3, mc::thorough() ? 5 : 4, true);
}

void
triples()
{
  interleave(3, mc::thorough() ? 4 : 3);
}

// Which stream ids are whose: bytes on any id lead to a message exactly if the
// peer can have opened a request with it.
void
ids()
{
  static const std::vector<uint64_t> list = [] {
    std::vector<uint64_t> r;
    for (uint64_t i = 0; i < 64; i++) {
      r.push_back(i);
    }
    for (uint64_t i = 1000; i < 1008; i++) {
      r.push_back(i);
    }
    for (int b : { 31, 32, 33, 40, 61, 62 }) {
      for (int d = -4; d < 4; d++) {
        r.push_back((1ULL << b) + static_cast<uint64_t>(d));
      }
    }
    return r;
  }();
  role r = mc::choose(2, "role") == 0 ? role::client : role::server;
  int requests = r == role::client ? mc::choose(4, "requests") : 0;
  uint64_t id = mc::pick(list, "id");
  if (id > ref::VARINT_MAX) {
    return;
  }
  bool after_another = mc::choose(2, "after another stream") == 1;
  bool fin = mc::choose(2, "fin") == 1;
  endpoint e(r, requests);
  bytes message = headers({ { "a", "b" } }) + data("xyz");
  if (after_another && (r == role::server || requests > 0)) {
    if (id == 0) {
      return;
    }
    e.feed(0, message, true);
  }
  uint64_t control = control_id(r);
  if (id == control) {
    return;
  }
  e.feed(id, message, fin);
  const observed &o = e.streams[id];
  bool request = r == role::client ? id % 4 == 0 && id < 4 * static_cast<uint64_t>(requests)
                                   : id % 4 == 0;
  bool ignored = (id & 2U) != 0;
  if (request) {
    compare(o, ref::request_stream(r, message, fin), "request stream");
  } else if (!ignored) {
    MC_CHECK(o.failed && o.headers.empty(), "foreign-id",
             "%s: bytes on stream %lu, which can't be a request: %s", name(r), id,
             conn::text(o).c_str());
  } else {
    MC_CHECK(o.headers.empty() && o.body.empty() && !o.finished && o.settings.empty(), "uni-id",
             "%s: unidirectional stream %lu is not a request: %s", name(r), id,
             conn::text(o).c_str());
    bool of_peer = ((id & 1U) != 0) == (r == role::client);
    MC_CHECK(!(of_peer && o.failed), "uni-ignored",
             "%s: unidirectional stream %lu of the peer is not ignored: %s", name(r), id,
             conn::text(o).c_str());
  }
  if (e.server) {
    auto h = e.server->response(id);
    MC_CHECK(static_cast<bool>(h) == request, "response-id", "a response to stream %lu is %s", id,
             h ? "possible" : "not possible");
  }
  mc::state(mc::hasher().add(static_cast<uint64_t>(r)).add(id).add(static_cast<uint64_t>(requests)));
  mc::outcome(hash(o));
}

// Many streams that complete in every order; earlier ones stay completed.
void
completions()
{
  const int n = mc::thorough() ? 5 : 4;
  endpoint e(role::server);
  std::vector<int> state(static_cast<size_t>(n), 0); // 1: requested, 2: responded.
  bytes message = headers({ { "a", "b" } });
  std::vector<int> order;
  for (int k = 0; k < n; k++) {
    std::vector<int> left;
    for (int i = 0; i < n; i++) {
      if (state[static_cast<size_t>(i)] == 0) {
        left.push_back(i);
      }
    }
    int i = mc::pick(left, "stream");
    uint64_t id = static_cast<uint64_t>(i) * 4;
    int how = mc::choose(3, "request and response, response not ended, request not ended");
    e.feed(id, message, how != 2);
    auto h = e.server->response(id);
    MC_CHECK(h, "response", "no response to stream %lu", id);
    MC_CHECK(h.value().header({ "s", "t" }) && h.value().start(), "response",
             "no response to stream %lu", id);
    if (how != 1) {
      MC_CHECK(h.value().fin(), "response", "the response to stream %lu can't end", id);
    }
    e.flush();
    state[static_cast<size_t>(i)] = how == 0 ? 2 : how == 1 ? 3 : 4;
    // What came before is what it was.
    for (int j = 0; j < n; j++) {
      uint64_t other = static_cast<uint64_t>(j) * 4;
      int s = state[static_cast<size_t>(j)];
      auto again = e.server->response(other);
      MC_CHECK(static_cast<bool>(again) == (s == 3), "completed-again",
               "stream %lu in state %d: a response is %s", other, s,
               again ? "possible" : "not possible");
      if (s == 2) {
        // Anything received there is refused and makes no message.
        auto g = e.server->recv(quic::event(quic::data{ other, false, buf(message) }));
        bool accepted = static_cast<bool>(g) && g.value().next();
        MC_CHECK(!accepted, "completed-receive", "stream %lu is completed, but made a message",
                 other);
        MC_CHECK(!e.server->response(other), "completed-response",
                 "stream %lu is completed, but a response is possible", other);
      }
    }
  }
  mc::hasher h;
  for (int s : state) {
    h.add(static_cast<uint64_t>(s));
  }
  mc::state(h);
}

// Many streams complete, in different orders, while some don't.
void
many_completions()
{
  static const std::vector<uint64_t> sizes{ 5,   8,   9,   16,  17,  32,  33,  63,  64,  65, 100,
                                            101, 127, 128, 129, 200, 255, 256, 257, 300, 520 };
  uint64_t n = mc::pick(sizes, "streams");
  int open = mc::choose(6, "left open: none, first, second, last, every second, every tenth");
  int order = mc::choose(4, "order: up, down, odd then even, from the middle");
  auto stays = [&](uint64_t i) {
    switch (open) {
      case 0:
        return false;
      case 1:
        return i == 0;
      case 2:
        return i == 1;
      case 3:
        return i == n - 1;
      case 4:
        return i % 2 == 0;
      default:
        return i % 10 == 3;
    }
  };
  std::vector<uint64_t> list;
  for (uint64_t i = 0; i < n; i++) {
    list.push_back(order == 0   ? i
                   : order == 1 ? n - 1 - i
                                : (i % 2 == 0 ? n / 2 + i / 2 : n / 2 - 1 - i / 2));
  }
  if (order == 2) {
    list.clear();
    for (uint64_t i = 1; i < n; i += 2) {
      list.push_back(i);
    }
    for (uint64_t i = 0; i < n; i += 2) {
      list.push_back(i);
    }
  }
  endpoint e(role::server);
  bytes message = headers({ { "a", "b" } });
  std::vector<bool> done(n, false);
  auto complete = [&](uint64_t i) {
    uint64_t id = i * 4;
    auto h = e.server->response(id);
    MC_CHECK(h && h.value().header({ "s", "t" }) && h.value().start() && h.value().fin(),
             "response", "no response to stream %lu of %lu is possible", id, n);
    e.flush();
    done[i] = true;
  };
  // Everything arrives; some of it is answered.
  for (uint64_t i : list) {
    if (i >= n) {
      continue;
    }
    e.feed(i * 4, message, !stays(i));
    MC_CHECK(!e.streams[i * 4].failed, "error", "stream %lu of %lu: %s", i * 4, n,
             text(e.streams[i * 4]).c_str());
    if (!stays(i)) {
      complete(i);
    }
  }
  auto check = [&] {
    for (uint64_t i = 0; i < n; i++) {
      uint64_t id = i * 4;
      MC_CHECK(static_cast<bool>(e.server->response(id)) == !done[i], "completed-again",
               "stream %lu, %s: a response is %spossible", id, done[i] ? "completed" : "open",
               done[i] ? "" : "not ");
      if (done[i]) {
        // Whatever arrives: nothing, an end, a message, a message with its end.
        for (int what = 0; what < 4; what++) {
          auto g = e.server->recv(
            quic::event(quic::data{ id, what % 2 == 1, buf(what < 2 ? bytes() : message) }));
          bool accepted = static_cast<bool>(g) && g.value().next();
          MC_CHECK(!accepted, "completed-receive", "stream %lu is completed, but made a message", id);
          MC_CHECK(!e.server->response(id), "completed-response",
                   "stream %lu is completed, but a response is possible", id);
        }
      }
    }
  };
  check();
  for (uint64_t i = 0; i < n; i++) {
    if (stays(i)) {
      e.feed(i * 4, data("late"), true);
      complete(i);
    }
  }
  check();
  for (uint64_t i = 0; i < n; i++) {
    const observed &o = e.streams[i * 4];
    MC_CHECK(o.finished && !o.failed && o.headers.size() == 1 &&
               o.body == (stays(i) ? "late" : ""),
             "message", "stream %lu: %s", i * 4, text(o).c_str());
  }
  mc::state(mc::hasher().add(n).add(static_cast<uint64_t>(open)).add(static_cast<uint64_t>(order)));
}

}

int
main(int argc, char **argv)
{
  return mc::run(
    argc, argv,
    { { "pairs",
        "all interleavings of all pairs of 17 stream scripts of up to 6 steps (messages, answers, "
        "rejected, truncated, idle and completed streams, control and other unidirectional "
        "streams), both roles, events taken at once or late, everything sent at the end or always, "
        "compared with each script alone",
        pairs, 4 },
      { "triples", "the same for triples of scripts of up to 3 (thorough 4) steps", triples, 4 },
      { "event-by-event",
        "all interleavings of all pairs of 8 scripts whose events are taken one by one", one_by_one,
        4 },
      { "event-by-event-triples", "the same for triples of up to 4 (thorough 5) steps",
        one_by_one_triples, 4 },
      { "stream-ids", "bytes on stream ids below 64 and around powers of two", ids, 3 },
      { "completions", "4 (thorough 5) streams that complete, or not, in every order", completions,
        3 },
      { "many-completions",
        "21 numbers of streams from 5 to 520 that complete in 4 orders, 6 sets of streams stay open "
        "for longer",
        many_completions, 3 } });
}

// C07: message handles are safe for their whole lifetime.
#include "conn.hpp"

using namespace conn;

namespace {

using handle = h3::request::handle;

constexpr uint64_t INVALID_HANDLE = static_cast<uint64_t>(h3::error::invalid_handle);

struct stream {
  bool alive = true;
  std::vector<ref::field> headers;
  bool started = false, ended = false;
  bytes body;
  int slot = -1; // Which handle is valid.
  bytes emitted;
  bool fin = false;       // The end was emitted.
  bool peer_done = false; // The peer's message was reported as finished.
  int calls = 0;
};

using streams = std::map<uint64_t, stream>;

template<class C>
struct side;

template<>
struct side<h3::client::connection> {
  static constexpr role is = role::client;
};

template<>
struct side<h3::server::connection> {
  static constexpr role is = role::server;
};

template<class C>
class world {
public:
  static constexpr bool client = side<C>::is == role::client;

  world(size_t connections, size_t slots)
    : conns_(connections)
    , model_(connections)
    , slots_(slots)
    , next_(connections, 0)
  {
    for (size_t c = 0; c < connections; c++) {
      conns_[c].reset(new C());
      if (!client) {
        receive(c, 0, conn::headers({ { ":method", "GET" } }), false);
        receive(c, 4, conn::headers({ { ":method", "GET" } }), true);
        model_[c][0];
        model_[c][4].peer_done = true;
      }
    }
  }

  // ------------------------------------------------------------ queries ---

  bool exists(size_t slot) const { return slots_[slot] != nullptr; }
  bool live(size_t c) const { return conns_[c] != nullptr; }

  // -1 if all are taken.
  int empty_slot() const
  {
    for (size_t i = 0; i < slots_.size(); i++) {
      if (!exists(i)) {
        return static_cast<int>(i);
      }
    }
    return -1;
  }

  const streams &of(size_t c) const { return model_[c]; }

  // The stream a slot's handle is valid for.
  stream *target(size_t slot)
  {
    for (size_t c = 0; c < conns_.size(); c++) {
      for (auto &entry : model_[c]) {
        if (entry.second.alive && entry.second.slot == static_cast<int>(slot)) {
          return &entry.second;
        }
      }
    }
    return nullptr;
  }

  // --------------------------------------------------------- operations ---

  void request(size_t c, size_t slot)
  {
    mc::step();
    uint64_t id = next_[c];
    next_[c] += 4;
    mc::log("handle %zu = request() on connection %zu: stream %lu", slot, c, id);
    auto r = request_(*conns_[c]);
    MC_CHECK(r, "refused", "a request could not be made");
    put(c, id, slot, std::move(r).value());
  }

  void response(size_t c, uint64_t id, size_t slot)
  {
    mc::step();
    const stream &s = model_[c].at(id);
    mc::log("handle %zu = response(%lu) on connection %zu", slot, id, c);
    auto r = response_(*conns_[c], id);
    if (!s.alive || s.fin) {
      MC_CHECK(!r, "response-after-end", "another response to stream %lu is possible", id);
      return;
    }
    MC_CHECK(r, "refused", "no response to stream %lu is possible", id);
    put(c, id, slot, std::move(r).value());
  }

  // A handle to nothing.
  void nothing(size_t slot)
  {
    mc::log("handle %zu is made empty", slot);
    slots_[slot].reset(new handle());
  }

  void move_construct(size_t from, size_t to)
  {
    mc::step();
    mc::log("handle %zu is constructed from %zu", to, from);
    slots_[to].reset(new handle(std::move(*slots_[from])));
    moved(from, to);
  }

  void move_assign(size_t from, size_t to)
  {
    mc::step();
    mc::log("handle %zu is assigned from %zu", to, from);
    handle &source = *slots_[from];
    *slots_[to] = std::move(source);
    if (from != to) {
      stream *before = target(to);
      if (before != nullptr) {
        before->slot = -1;
      }
      moved(from, to);
    }
  }

  void destroy(size_t slot)
  {
    mc::step();
    mc::log("handle %zu is destroyed", slot);
    stream *s = target(slot);
    if (s != nullptr) {
      s->slot = -1;
    }
    slots_[slot].reset();
  }

  void move_connection(size_t c)
  {
    mc::step();
    mc::log("connection %zu is moved", c);
    std::unique_ptr<C> other(new C(std::move(*conns_[c])));
    conns_[c] = std::move(other);
  }

  void assign_connection(size_t from, size_t to)
  {
    mc::step();
    mc::log("connection %zu is assigned from %zu, which is destroyed", to, from);
    *conns_[to] = std::move(*conns_[from]);
    conns_[from].reset();
    model_[to] = std::move(model_[from]);
    model_[from].clear();
    next_[to] = next_[from];
  }

  void destroy_connection(size_t c)
  {
    mc::step();
    mc::log("connection %zu is destroyed", c);
    conns_[c].reset();
    model_[c].clear();
  }

  // The peer's message is complete.
  bool can_complete(size_t c, uint64_t id) const
  {
    const stream &s = model_[c].at(id);
    return s.alive && !s.peer_done && (!client || !s.emitted.empty());
  }

  void complete(size_t c, uint64_t id)
  {
    mc::log("the peer's message on stream %lu of connection %zu is completed", id, c);
    receive(c, id, client ? conn::headers({ { ":status", "200" } }) : bytes(), true);
    stream &s = model_[c].at(id);
    s.peer_done = true;
    gone(&s);
  }

  bool send(size_t c)
  {
    mc::step();
    auto r = conns_[c]->send();
    if (!r) {
      MC_CHECK(static_cast<uint64_t>(r.error()) == ref::IDLE, "send", "send() failed with %lu",
               static_cast<uint64_t>(r.error()));
      return false;
    }
    quic::event &e = r.value();
    uint64_t id = e.data.id;
    mc::log("connection %zu sends on %lu: %s%s", c, id, hx(str(e.data.buffer)).c_str(),
            e.data.fin ? " fin" : "");
    if (id == (client ? 2 : 3)) {
      return true;
    }
    auto match = model_[c].find(id);
    MC_CHECK(match != model_[c].end() && match->second.alive, "sent-nothing-queued",
             "data was sent on stream %lu, which is not there", id);
    stream &s = match->second;
    MC_CHECK(!s.fin, "sent-after-end", "data was sent on stream %lu after its end", id);
    s.emitted += str(e.data.buffer);
    s.fin = e.data.fin;
    gone(&s);
    return true;
  }

  void flush(size_t c)
  {
    int n = 0;
    while (send(c)) {
      MC_CHECK(n++ < 200, "send-forever", "send() never reports idle");
    }
  }

  // --------------------------------------------------------------- calls ---

  void header(size_t slot, const ref::field &f)
  {
    mc::log("handle %zu: header %s", slot, f.first.c_str());
    stream *s = target(slot);
    bool fits = s != nullptr && !s->started && !ref::has_uppercase(f.first);
    called("header", slot, fits, slots_[slot]->header({ f.first.c_str(), f.second.c_str() }));
    if (fits) {
      s->headers.push_back(f);
    }
  }

  void start(size_t slot)
  {
    mc::log("handle %zu: start", slot);
    stream *s = target(slot);
    bool fits = s != nullptr && !s->started && !s->headers.empty();
    called("start", slot, fits, slots_[slot]->start());
    if (fits) {
      s->started = true;
    }
  }

  void body(size_t slot, const bytes &b)
  {
    mc::log("handle %zu: body of %zu bytes", slot, b.size());
    stream *s = target(slot);
    bool fits = s != nullptr && !s->ended;
    called("body", slot, fits, slots_[slot]->body(buf(b)));
    if (fits) {
      s->body += b;
    }
  }

  void fin(size_t slot)
  {
    mc::log("handle %zu: end", slot);
    stream *s = target(slot);
    bool fits = s != nullptr && !s->ended;
    called("fin", slot, fits, slots_[slot]->fin());
    if (fits) {
      s->ended = true;
    }
  }

  // The next call of a usual message; all of them if the handle isn't valid.
  void advance(size_t slot)
  {
    stream *s = target(slot);
    if (s == nullptr) {
      every(slot);
      return;
    }
    switch (s->calls++ % 4) {
      case 0:
        header(slot, { "a", "b" });
        break;
      case 1:
        start(slot);
        break;
      case 2:
        body(slot, conn::body(25));
        break;
      case 3:
        fin(slot);
        break;
    }
  }

  void every(size_t slot)
  {
    header(slot, { "x", "late" });
    body(slot, "late");
    start(slot);
    fin(slot);
  }

  // -------------------------------------------------------------- checks ---

  // What was emitted is (so far) what was queued.
  void check(size_t c)
  {
    flush(c);
    for (auto &entry : model_[c]) {
      stream &s = entry.second;
      ref::expectation e = ref::request_stream(client ? role::server : role::client, s.emitted,
                                               s.fin);
      if (!s.started) {
        MC_CHECK(s.emitted.empty() && !s.fin, "emitted-before-start",
                 "stream %lu: emitted %s before it was started", entry.first,
                 hx(s.emitted).c_str());
        continue;
      }
      MC_CHECK(e.headers == s.headers && e.section_ended, "headers-lost",
               "stream %lu: headers %s were queued, %s were emitted", entry.first,
               text(s.headers).c_str(), text(e.headers).c_str());
      MC_CHECK(e.body == s.body, "body-lost",
               "stream %lu: %zu body bytes were queued, %zu were emitted (%s)", entry.first,
               s.body.size(), e.body.size(), hx(e.body).c_str());
      MC_CHECK(s.fin == s.ended, s.fin ? "ended-wrongly" : "end-lost",
               "stream %lu: the end was %squeued, and %semitted", entry.first,
               s.ended ? "" : "not ", s.fin ? "" : "not ");
    }
  }

  void finish()
  {
    for (size_t c = 0; c < conns_.size(); c++) {
      if (live(c)) {
        check(c);
      }
    }
    {
      handle empty;
      MC_CHECK(empty.id() >> 62 != 0, "empty-id", "an empty handle has id %lu", empty.id());
    }
    // Whatever is called on any of the handles.
    for (size_t i = 0; i < slots_.size(); i++) {
      if (exists(i)) {
        stream *s = target(i);
        if (s != nullptr) {
          MC_CHECK(slots_[i]->id() == id_of(s), "id", "handle %zu has id %lu, not %lu", i,
                   slots_[i]->id(), id_of(s));
        }
        every(i);
      }
    }
    for (size_t c = 0; c < conns_.size(); c++) {
      if (live(c)) {
        check(c);
        if (!client) {
          MC_CHECK(!response_(*conns_[c], 8) && !response_(*conns_[c], 3), "response-to-nothing",
                   "a response to a stream that isn't there is possible");
        }
      }
    }
    mc::outcome(state());
    // Handles may outlive connections.
    for (size_t c = 0; c < conns_.size(); c++) {
      if (live(c)) {
        destroy_connection(c);
      }
    }
    for (size_t i = 0; i < slots_.size(); i++) {
      if (exists(i)) {
        every(i);
        slots_[i].reset();
      }
    }
  }

  uint64_t state()
  {
    mc::hasher h;
    for (size_t c = 0; c < conns_.size(); c++) {
      h.add(live(c));
      for (const auto &entry : model_[c]) {
        const stream &s = entry.second;
        h.add(entry.first).add(s.alive).add(s.headers.size()).add(s.started).add(s.ended);
        h.add(s.body).add(static_cast<uint64_t>(s.slot + 1)).add(s.emitted).add(s.fin);
        h.add(s.peer_done);
      }
    }
    for (size_t i = 0; i < slots_.size(); i++) {
      h.add(exists(i));
    }
    return h;
  }

private:
  static auto request_(h3::client::connection &c) { return c.request(); }
  static bnl::http3::result<handle> request_(h3::server::connection &)
  {
    return h3::error::internal;
  }
  static auto response_(h3::server::connection &c, uint64_t id) { return c.response(id); }
  static bnl::http3::result<handle> response_(h3::client::connection &, uint64_t)
  {
    return h3::error::internal;
  }

  uint64_t id_of(const stream *s) const
  {
    for (const streams &all : model_) {
      for (const auto &entry : all) {
        if (&entry.second == s) {
          return entry.first;
        }
      }
    }
    return UINT64_MAX;
  }

  // A handle that was just returned goes to a slot, free or not.
  void put(size_t c, uint64_t id, size_t slot, handle h)
  {
    MC_CHECK(h.id() == id, "id", "the handle has id %lu, not %lu", h.id(), id);
    if (exists(slot)) {
      stream *before = target(slot);
      if (before != nullptr) {
        before->slot = -1;
      }
      *slots_[slot] = std::move(h);
    } else {
      slots_[slot].reset(new handle(std::move(h)));
    }
    // No request has an id this large.
    MC_CHECK(h.id() >> 62 != 0, "moved-id", "the handle that was moved from has id %lu", h.id());
    model_[c][id].slot = static_cast<int>(slot);
  }

  void moved(size_t from, size_t to)
  {
    stream *s = target(from);
    if (s != nullptr) {
      s->slot = static_cast<int>(to);
      MC_CHECK(slots_[to]->id() == id_of(s), "id", "handle %zu has id %lu, not %lu", to,
               slots_[to]->id(), id_of(s));
    }
  }

  // Both messages of a stream are done.
  void gone(stream *s)
  {
    if (s->fin && s->peer_done) {
      s->alive = false;
    }
  }

  template<class R>
  void called(const char *what, size_t slot, bool fits, R r)
  {
    mc::step();
    if (fits) {
      MC_CHECK(r, "refused", "%s on handle %zu failed with %lu", what, slot,
               static_cast<uint64_t>(r.error()));
      return;
    }
    stream *s = target(slot);
    MC_CHECK(!r, s == nullptr ? "invalid-accepted" : "unfit-accepted", "%s on handle %zu (%s)"
             " succeeded", what, slot, s == nullptr ? "not valid" : "in the wrong state");
    uint64_t error = static_cast<uint64_t>(r.error());
    MC_CHECK(s != nullptr || error == INVALID_HANDLE, "not-invalid-handle",
             "%s on handle %zu, which isn't valid, failed with %lu", what, slot, error);
    MC_CHECK(s == nullptr || s->fin || error != INVALID_HANDLE, "invalid-handle",
             "%s on handle %zu, which is valid, failed with invalid_handle", what, slot);
  }

  void receive(size_t c, uint64_t id, const bytes &s, bool end)
  {
    mc::step();
    auto g = conns_[c]->recv(quic::event(quic::data{ id, end, buf(s) }));
    MC_CHECK(g, "recv", "receiving on stream %lu failed", id);
    observed o;
    o.section_ended = !client && s.empty();
    drain(g.value(), id, s.size(), &o);
    MC_CHECK(!o.failed && o.finished == end, "recv", "receiving on stream %lu: %s", id,
             text(o).c_str());
  }

  std::vector<std::unique_ptr<C>> conns_;
  std::vector<streams> model_;
  std::vector<std::unique_ptr<handle>> slots_;
  std::vector<uint64_t> next_;
};

using operation = std::function<void()>;

// All that can be done with handles and connections.
template<class C>
std::vector<operation>
operations(world<C> &w, size_t conns, size_t slots, uint64_t most_streams)
{
  std::vector<operation> all;
  int empty = w.empty_slot();
  std::vector<size_t> targets; // Free slots are all the same.
  for (size_t i = 0; i < slots; i++) {
    if (w.exists(i) || static_cast<int>(i) == empty) {
      targets.push_back(i);
    }
  }
  for (size_t i = 0; i < slots; i++) {
    if (w.exists(i)) {
      all.push_back([&w, i] { w.advance(i); });
    }
  }
  for (size_t c = 0; c < conns; c++) {
    if (!w.live(c)) {
      continue;
    }
    for (size_t i : targets) {
      if (world<C>::client) {
        if (w.of(c).size() < most_streams) {
          all.push_back([&w, c, i] { w.request(c, i); });
        }
      } else {
        for (const auto &entry : w.of(c)) {
          if (entry.first < 4 * most_streams) {
            all.push_back([&w, c, i, id = entry.first] { w.response(c, id, i); });
          }
        }
      }
    }
    all.push_back([&w, c] { w.flush(c); });
    for (const auto &entry : w.of(c)) {
      if (w.can_complete(c, entry.first)) {
        all.push_back([&w, c, id = entry.first] { w.complete(c, id); });
      }
    }
    all.push_back([&w, c] { w.move_connection(c); });
    all.push_back([&w, c] { w.destroy_connection(c); });
    for (size_t d = 0; d < conns; d++) {
      if (d != c && w.live(d)) {
        all.push_back([&w, c, d] { w.assign_connection(c, d); });
      }
    }
  }
  for (size_t i = 0; i < slots; i++) {
    if (!w.exists(i)) {
      continue;
    }
    if (empty >= 0) {
      all.push_back([&w, i, empty] { w.move_construct(i, static_cast<size_t>(empty)); });
    }
    for (size_t j = 0; j < slots; j++) {
      if (w.exists(j)) {
        all.push_back([&w, i, j] { w.move_assign(i, j); });
      }
    }
    all.push_back([&w, i] { w.destroy(i); });
  }
  if (empty >= 0) {
    all.push_back([&w, empty] { w.nothing(static_cast<size_t>(empty)); });
  }
  return all;
}

template<class C>
void
sequence(size_t conns, size_t slots, uint64_t most_streams, int depth, bool prepared)
{
  world<C> w(conns, slots);
  if (prepared) {
    // A handle per connection, with something queued.
    for (size_t c = 0; c < conns; c++) {
      if (world<C>::client) {
        w.request(c, c);
      } else {
        w.response(c, 0, c);
      }
      w.advance(c);
      w.advance(c);
    }
  }
  int n = mc::choose(depth + 1, "length");
  for (int i = 0; i < n; i++) {
    std::vector<operation> all = operations(w, conns, slots, most_streams);
    if (all.empty()) {
      break;
    }
    all[static_cast<size_t>(mc::choose(static_cast<int>(all.size()), "operation"))]();
    mc::state(w.state());
  }
  w.finish();
}

template<class F, class G>
void
either(F client, G server)
{
  if (mc::choose(2, "side") == 0) {
    client();
  } else {
    server();
  }
}

// Two connections are what moves between connections needs.
void
lifetimes()
{
  int depth = mc::thorough() ? 6 : 5;
  either([=] { sequence<h3::client::connection>(1, 3, 2, depth, false); },
         [=] { sequence<h3::server::connection>(1, 3, 2, depth, false); });
}

void
two_connections()
{
  int depth = mc::thorough() ? 5 : 4;
  either([=] { sequence<h3::client::connection>(2, 3, 2, depth, true); },
         [=] { sequence<h3::server::connection>(2, 3, 1, depth, true); });
}

// All sequences of calls on one message, with the handle replaced, and pieces
// sent, in between.
template<class C>
void
calls_on(int depth)
{
  world<C> w(1, 2);
  if (world<C>::client) {
    w.request(0, 0);
  } else {
    w.response(0, 0, 0);
  }
  size_t slot = 0;
  // The control stream.
  w.send(0);
  w.send(0);
  for (int i = 0; i < depth; i++) {
    switch (mc::choose(9, "call")) {
      case 0:
        w.header(slot, { "a", i % 2 == 0 ? "b" : "value" });
        break;
      case 1:
        w.header(slot, { "Upper", "b" });
        break;
      case 2:
        w.start(slot);
        break;
      case 3:
        w.body(slot, conn::body(static_cast<size_t>(18 + i), static_cast<unsigned>(i)));
        break;
      case 4:
        w.body(slot, "");
        break;
      case 5:
        w.fin(slot);
        break;
      case 6:
        w.send(0);
        break;
      case 7:
        if (w.can_complete(0, 0)) {
          w.complete(0, 0);
        }
        break;
      case 8:
        // Go on through another handle.
        if (world<C>::client) {
          w.move_construct(slot, 1 - slot);
        } else {
          w.response(0, 0, 1 - slot);
        }
        if (w.exists(1 - slot)) {
          w.every(slot);
          w.destroy(slot);
          slot = 1 - slot;
        }
        break;
    }
    mc::state(w.state());
  }
  w.finish();
}

void
calls()
{
  int depth = mc::thorough() ? 7 : 6;
  either([=] { calls_on<h3::client::connection>(depth); },
         [=] { calls_on<h3::server::connection>(depth); });
}

// ---------------------------------------------------------- one message ---
// The senders of messages, which connections keep, used on their own: handles
// follow them when they are moved.

namespace request = h3::endpoint::stream::request;

class messages {
public:
  struct message {
    std::vector<ref::field> headers;
    bool started = false, ended = false, fin = false;
    bytes body, emitted;
    int handle = -1;
    uint64_t id = 0;
  };

  ~messages()
  {
    for (auto &s : senders_) {
      s.reset();
    }
  }

  void run(int depth)
  {
    create(0);
    obtain(0, 0);
    for (int i = 0; i < depth; i++) {
      std::vector<operation> all = operations();
      all[static_cast<size_t>(mc::choose(static_cast<int>(all.size()), "operation"))]();
      mc::state(state());
    }
    for (size_t h = 0; h < 2; h++) {
      if (handles_[h]) {
        all_calls(h);
      }
    }
    for (size_t i = 0; i < 2; i++) {
      if (senders_[i] && model_[i] != nullptr) {
        int n = 0;
        while (send(i)) {
          MC_CHECK(n++ < 100, "send-forever", "send() never reports idle");
        }
        const message &m = *model_[i];
        ref::expectation e = ref::request_stream(role::client, m.emitted, m.fin);
        if (!m.started) {
          MC_CHECK(m.emitted.empty() && !m.fin, "emitted-before-start", "message %zu: emitted %s before it was started",
                   i, hx(m.emitted).c_str());
          continue;
        }
        MC_CHECK(e.headers == m.headers && e.section_ended, "headers-lost",
                 "message %zu: headers %s were queued, %s were emitted", i, text(m.headers).c_str(),
                 text(e.headers).c_str());
        MC_CHECK(e.body == m.body, "body-lost", "message %zu: %s was queued, %s was emitted", i, hx(m.body).c_str(),
                 hx(e.body).c_str());
        MC_CHECK(m.fin == m.ended, m.fin ? "ended-wrongly" : "end-lost", "message %zu: its end is wrong", i);
      }
    }
    mc::outcome(state());
    // Handles may outlive senders, and the other way around.
    bool handles_first = mc::choose(2, "destroyed first") == 0;
    for (int k = 0; k < 2; k++) {
      for (size_t i = 0; i < 2; i++) {
        if ((k == 0) == handles_first) {
          if (handles_[i]) {
            release(i);
            handles_[i].reset();
          }
        } else {
          if (senders_[i]) {
            destroy(i);
          }
          for (size_t h = 0; h < 2; h++) {
            if (handles_[h]) {
              all_calls(h);
            }
          }
        }
      }
    }
  }

private:
  std::vector<operation> operations()
  {
    std::vector<operation> all;
    for (size_t i = 0; i < 2; i++) {
      size_t o = 1 - i;
      if (!senders_[i]) {
        all.push_back([=] { create(i); });
        continue;
      }
      all.push_back([=] { destroy(i); });
      all.push_back([=] { assign(i, i); });
      if (model_[i] == nullptr) {
        continue;
      }
      all.push_back([=] { send(i); });
      if (senders_[o]) {
        all.push_back([=] { assign(i, o); });
      } else {
        all.push_back([=] { construct(i, o); });
      }
      for (size_t h = 0; h < 2; h++) {
        all.push_back([=] { obtain(i, h); });
      }
    }
    for (size_t h = 0; h < 2; h++) {
      if (handles_[h]) {
        all.push_back([=] { advance(h); });
        all.push_back([=] {
          release(h);
          handles_[h].reset();
        });
        all.push_back([=] { move_handle(h); });
      }
    }
    return all;
  }

  message *target(size_t h)
  {
    for (size_t i = 0; i < 2; i++) {
      if (senders_[i] && model_[i] != nullptr && model_[i]->handle == static_cast<int>(h)) {
        return model_[i].get();
      }
    }
    return nullptr;
  }

  void release(size_t h)
  {
    mc::log("handle %zu goes", h);
    message *m = target(h);
    if (m != nullptr) {
      m->handle = -1;
    }
  }

  void create(size_t i)
  {
    mc::log("message %zu", i);
    mc::step();
    model_[i].reset(new message());
    model_[i]->id = 4 * ids_++;
    senders_[i].reset(new request::sender(model_[i]->id));
  }

  void destroy(size_t i)
  {
    mc::log("message %zu is destroyed", i);
    mc::step();
    senders_[i].reset();
    model_[i].reset();
  }

  void construct(size_t from, size_t to)
  {
    mc::log("message %zu is moved to a new %zu", from, to);
    mc::step();
    senders_[to].reset(new request::sender(std::move(*senders_[from])));
    model_[to] = std::move(model_[from]);
  }

  void assign(size_t from, size_t to)
  {
    mc::log("message %zu is assigned to %zu", from, to);
    mc::step();
    request::sender &source = *senders_[from];
    *senders_[to] = std::move(source);
    if (from != to) {
      model_[to] = std::move(model_[from]);
    }
  }

  void obtain(size_t i, size_t h)
  {
    mc::log("handle %zu of message %zu", h, i);
    mc::step();
    request::sender::handle made(senders_[i].get());
    model_[i]->handle = -1;
    put(h, std::move(made));
    model_[i]->handle = static_cast<int>(h);
  }

  void move_handle(size_t h)
  {
    mc::log("handle %zu is moved", h);
    mc::step();
    message *m = target(h);
    put(1 - h, std::move(*handles_[h]));
    if (m != nullptr) {
      m->handle = static_cast<int>(1 - h);
    }
  }

  void put(size_t h, request::sender::handle made)
  {
    if (handles_[h]) {
      release(h);
      *handles_[h] = std::move(made);
    } else {
      handles_[h].reset(new request::sender::handle(std::move(made)));
    }
  }

  template<class R>
  void called(const char *what, size_t h, bool fits, R r)
  {
    mc::step();
    message *m = target(h);
    if (fits) {
      MC_CHECK(r, "refused", "%s on handle %zu failed with %lu", what, h, static_cast<uint64_t>(r.error()));
      return;
    }
    MC_CHECK(!r, m == nullptr ? "invalid-accepted" : "unfit-accepted", "%s on handle %zu succeeded", what, h);
    MC_CHECK(m == nullptr || handles_[h]->id() == m->id, "id", "handle %zu has id %lu", h, handles_[h]->id());
    MC_CHECK((static_cast<uint64_t>(r.error()) == INVALID_HANDLE) == (m == nullptr), "not-invalid-handle",
             "%s on handle %zu failed with %lu", what, h, static_cast<uint64_t>(r.error()));
  }

  void header(size_t h)
  {
    message *m = target(h);
    bool fits = m != nullptr && !m->started;
    called("header", h, fits, handles_[h]->header({ "a", "value" }));
    if (fits) {
      m->headers.push_back({ "a", "value" });
    }
  }

  void start(size_t h)
  {
    message *m = target(h);
    bool fits = m != nullptr && !m->started && !m->headers.empty();
    called("start", h, fits, handles_[h]->start());
    if (fits) {
      m->started = true;
    }
  }

  void body(size_t h)
  {
    message *m = target(h);
    bool fits = m != nullptr && !m->ended;
    bytes piece = conn::body(20, bodies_++);
    called("body", h, fits, handles_[h]->body(buf(piece)));
    if (fits) {
      m->body += piece;
    }
  }

  void fin(size_t h)
  {
    message *m = target(h);
    bool fits = m != nullptr && !m->ended;
    called("fin", h, fits, handles_[h]->fin());
    if (fits) {
      m->ended = true;
    }
  }

  void advance(size_t h)
  {
    message *m = target(h);
    mc::log("handle %zu: the next call", h);
    if (m == nullptr) {
      all_calls(h);
    } else if (m->headers.empty()) {
      header(h);
    } else if (!m->started) {
      start(h);
    } else if (m->body.empty()) {
      body(h);
    } else {
      fin(h);
    }
  }

  void all_calls(size_t h)
  {
    header(h);
    body(h);
    start(h);
    fin(h);
  }

  bool send(size_t i)
  {
    message &m = *model_[i];
    MC_CHECK(senders_[i]->finished() == m.fin, "finished", "message %zu reports that it is %sfinished", i,
             senders_[i]->finished() ? "" : "not ");
    if (m.fin) {
      return false;
    }
    mc::step();
    auto r = senders_[i]->send();
    if (!r) {
      MC_CHECK(static_cast<uint64_t>(r.error()) == ref::IDLE, "send", "send() failed with %lu",
               static_cast<uint64_t>(r.error()));
      return false;
    }
    MC_CHECK(r.value().data.id == m.id, "id", "message %zu is sent on %lu, not %lu", i, r.value().data.id, m.id);
    m.emitted += str(r.value().data.buffer);
    m.fin = r.value().data.fin;
    mc::log("message %zu emits %s%s", i, hx(str(r.value().data.buffer)).c_str(), m.fin ? " fin" : "");
    return true;
  }

  uint64_t state()
  {
    mc::hasher h;
    for (size_t i = 0; i < 2; i++) {
      h.add(senders_[i] != nullptr).add(handles_[i] != nullptr).add(model_[i] != nullptr);
      if (model_[i] != nullptr) {
        const message &m = *model_[i];
        h.add(m.headers.size()).add(m.started).add(m.ended).add(m.body).add(m.emitted).add(m.fin);
        h.add(static_cast<uint64_t>(m.handle + 1));
      }
    }
    return h;
  }

  std::unique_ptr<request::sender> senders_[2];
  std::unique_ptr<message> model_[2];
  std::unique_ptr<request::sender::handle> handles_[2];
  uint64_t ids_ = 0;
  unsigned bodies_ = 0;
};

void
senders()
{
  messages().run(mc::thorough() ? 7 : 5);
}

}

int
main(int argc, char **argv)
{
  return mc::run(
    argc, argv,
    { { "calls",
        "all sequences of 6 (thorough 7) of: adding a header, an uppercase one, body, empty body, "
        "start, end, sending a piece, completing the peer's message, replacing the handle; client "
        "and server; then every call on every handle",
        calls, 3 },
      { "lifetimes",
        "all sequences of up to 5 (thorough 6) of: obtaining, making empty, moving, assigning "
        "(also to itself), destroying up to 3 handles, calls through them, sending, completing the "
        "peer's message, moving and destroying the connection, of up to 2 streams; client and "
        "server; then every call on every handle",
        lifetimes, 3 },
      { "two-connections",
        "the same with two connections that can also be assigned to one another, up to 4 (thorough "
        "5) operations",
        two_connections, 3 },
      { "senders",
        "the senders of two messages on their own: all sequences of 5 (thorough 7) of: creating, destroying, moving, "
        "assigning them (also to themselves), obtaining, moving, destroying two handles, calls through them, sending; "
        "then every call, all that is left to send, and either destruction order",
        senders, 3 } });
}

// C01: HTTP/3 messages arrive intact end to end in both directions.
#include "conn.hpp"

#include <deque>
#include <functional>

using namespace conn;

namespace {

using handle = h3::request::handle;

struct op {
  enum kind { HEADER, START, BODY, FIN } what;
  ref::field field;
  bytes data;
};

using script = std::vector<op>;

op
header(const char *name, const char *value)
{
  return { op::HEADER, { name, value }, "" };
}

op
body_of(const bytes &b)
{
  return { op::BODY, {}, b };
}

const op START{ op::START, {}, "" }, FIN{ op::FIN, {}, "" };

// The permitted orders of calls, several contents.
const std::vector<script> &
scripts()
{
  static const std::vector<script> all = {
    { header(":method", "GET"), START, FIN },
    { header(":path", "/p"), START, body_of("body"), FIN },
    { header("x", "y"), header("", ""), START, body_of(""), FIN },
    { header("x", "y"), START, body_of("one"), body_of(conn::body(21)), FIN },
    { body_of("before"), header("a", "b"), START, FIN },
    { header("a", "b"), body_of(""), FIN, START },
    { header(":status", "200"), START, body_of(""), body_of("x"), body_of(""), FIN },
    { FIN, header("a", ""), START },
    { header("z", "value that is long enough to be on the heap"), START,
      body_of(conn::body(70)), body_of("end"), FIN },
  };
  return all;
}

// What the peer has to see of a script.
observed
message(const script &s)
{
  observed o;
  for (const op &x : s) {
    if (x.what == op::HEADER) {
      o.headers.push_back(x.field);
    } else if (x.what == op::BODY) {
      o.body += x.data;
    }
  }
  o.section_ended = o.finished = true;
  return o;
}

// How the transport delivers what is queued on a stream.
enum delivery { AS_SENT, COALESCED, BYTES, FIN_ALONE, DELIVERIES };

struct exchange {
  const script *request = nullptr, *response = nullptr;
  size_t asked = 0, answered = 0; // Calls made so far.
  bool opened = false;            // The server took a handle.
  uint64_t id = UINT64_MAX;
  handle client, server;
};

class world {
public:
  // If `slow`, applications take events one at a time.
  world(std::vector<std::pair<const script *, const script *>> scripts, delivery how,
        bool slow = false)
    : how_(how)
    , slow_(slow)
  {
    for (const auto &s : scripts) {
      exchange x;
      x.request = s.first;
      x.response = s.second;
      exchanges_.push_back(std::move(x));
    }
  }

  size_t size() const { return exchanges_.size(); }

  // Actors: they do one thing at a time if they can.
  bool can_ask(size_t i) const { return exchanges_[i].asked < exchanges_[i].request->size(); }

  void ask(size_t i)
  {
    exchange &x = exchanges_[i];
    if (x.asked == 0) {
      auto h = client_.request();
      MC_CHECK(h, "request", "a request could not be made");
      x.client = std::move(h).value();
      x.id = x.client.id();
      mc::log("request %zu on stream %lu", i, x.id);
    }
    call(x.client, (*x.request)[x.asked++], "request", x.id);
  }

  bool can_answer(size_t i) const
  {
    const exchange &x = exchanges_[i];
    return x.answered < x.response->size() && x.id != UINT64_MAX && known_.count(x.id) != 0;
  }

  void answer(size_t i)
  {
    exchange &x = exchanges_[i];
    if (!x.opened) {
      auto h = server_.response(x.id);
      MC_CHECK(h, "response", "no response to stream %lu is possible", x.id);
      x.server = std::move(h).value();
      x.opened = true;
    }
    call(x.server, (*x.response)[x.answered++], "response", x.id);
  }

  bool can_send(bool client) const { return client ? client_may_send_ : server_may_send_; }

  // Sends one piece.
  void send(bool client)
  {
    mc::step();
    auto r = client ? client_.send() : server_.send();
    if (!r) {
      MC_CHECK(static_cast<uint64_t>(r.error()) == ref::IDLE, "send", "%s send() failed with %lu",
               client ? "client" : "server", static_cast<uint64_t>(r.error()));
      (client ? client_may_send_ : server_may_send_) = false;
      mc::log("%s is idle", client ? "client" : "server");
      return;
    }
    quic::event &e = r.value();
    auto &queue = queues_[{ client, e.data.id }];
    mc::log("%s sends on %lu: %s%s", client ? "client" : "server", e.data.id,
            hx(str(e.data.buffer)).c_str(), e.data.fin ? " fin" : "");
    queue.push_back({ str(e.data.buffer), e.data.fin });
  }

  std::vector<std::pair<bool, uint64_t>> deliverable() const
  {
    std::vector<std::pair<bool, uint64_t>> r;
    for (const auto &q : queues_) {
      if (!q.second.empty()) {
        r.push_back(q.first);
      }
    }
    return r;
  }

  // Delivers what is next on a stream.
  void deliver(std::pair<bool, uint64_t> from)
  {
    auto &queue = queues_[from];
    std::pair<bytes, bool> next = queue.front();
    queue.pop_front();
    if (how_ == COALESCED) {
      while (!queue.empty()) {
        next.first += queue.front().first;
        next.second = next.second || queue.front().second;
        queue.pop_front();
      }
    }
    if (how_ == BYTES && next.first.size() > 1) {
      for (size_t i = 0; i < next.first.size(); i++) {
        bool last = i + 1 == next.first.size();
        receive(from, bytes(1, next.first[i]), last && next.second);
      }
      return;
    }
    if (how_ == FIN_ALONE && next.second && !next.first.empty()) {
      receive(from, next.first, false);
      receive(from, "", true);
      return;
    }
    receive(from, next.first, next.second);
  }

  // Streams whose receiver hasn't taken all events.
  std::vector<std::pair<bool, uint64_t>> takeable() const
  {
    std::vector<std::pair<bool, uint64_t>> r;
    for (const auto &t : takers_) {
      r.push_back(t.first);
    }
    return r;
  }

  void take_one(std::pair<bool, uint64_t> from)
  {
    mc::log("%s takes an event of %lu", from.first ? "server" : "client", from.second);
    if (!takers_.at(from)()) {
      takers_.erase(from);
    }
    client_may_send_ = server_may_send_ = true;
  }

  // Both connections move away and back.
  void move()
  {
    mc::log("move the connections");
    h3::client::connection client(std::move(client_));
    h3::server::connection server(std::move(server_));
    client_ = std::move(client);
    server_ = std::move(server);
  }

  // Everything that can still happen, happens.
  void finish()
  {
    for (int i = 0; i < 10000; i++) {
      bool any = false;
      for (size_t k = 0; k < size(); k++) {
        while (can_ask(k)) {
          ask(k);
          any = true;
        }
      }
      client_may_send_ = server_may_send_ = true;
      for (bool client : { true, false }) {
        int n = 0;
        while (can_send(client)) {
          send(client);
          MC_CHECK(n++ < 100000, "send-forever", "send() never reports idle");
        }
      }
      for (const auto &from : deliverable()) {
        while (!queues_[from].empty()) {
          deliver(from);
        }
        any = true;
      }
      for (const auto &from : takeable()) {
        while (takers_.count(from) != 0) {
          take_one(from);
        }
        any = true;
      }
      for (size_t k = 0; k < size(); k++) {
        while (can_answer(k)) {
          answer(k);
          any = true;
        }
      }
      if (!any) {
        break;
      }
    }
    for (size_t k = 0; k < size(); k++) {
      exchange &x = exchanges_[k];
      for (bool client : { true, false }) {
        const observed &got = seen_[{ client, x.id }];
        observed want = message(client ? *x.request : *x.response);
        MC_CHECK(got == want, client ? "request-not-intact" : "response-not-intact",
                 "%s on stream %lu: queued %s; seen %s", client ? "request" : "response", x.id,
                 text(want).c_str(), text(got).c_str());
      }
      // The exchange is over for both.
      MC_CHECK(!server_.response(x.id), "still-open",
               "a second response to stream %lu is possible", x.id);
    }
    for (bool client : { true, false }) {
      const observed &control = seen_[{ client, client ? 2 : 3 }];
      MC_CHECK(control.settings.size() == 1 && !control.failed, "settings",
               "%s: settings were reported %zu times", client ? "server" : "client",
               control.settings.size());
    }
    MC_CHECK(seen_.size() == 2 * size() + 2, "streams", "messages on %zu streams were reported",
             seen_.size());
    mc::outcome(state());
  }

  uint64_t state() const
  {
    mc::hasher h;
    for (const exchange &x : exchanges_) {
      h.add(x.asked).add(x.answered).add(x.id);
    }
    for (const auto &s : seen_) {
      h.add(s.first.first).add(s.first.second).add(hash(s.second));
    }
    for (const auto &q : queues_) {
      h.add(q.second.size());
    }
    for (const auto &t : takers_) {
      h.add(t.first.first).add(t.first.second);
    }
    return h;
  }

private:
  void call(handle &h, const op &x, const char *what, uint64_t id)
  {
    mc::step();
    bool ok = false;
    switch (x.what) {
      case op::HEADER:
        mc::log("%s %lu: header %s", what, id, x.field.first.c_str());
        ok = static_cast<bool>(h.header({ x.field.first.c_str(), x.field.second.c_str() }));
        break;
      case op::START:
        mc::log("%s %lu: start", what, id);
        ok = static_cast<bool>(h.start());
        break;
      case op::BODY:
        mc::log("%s %lu: body of %zu bytes", what, id, x.data.size());
        ok = static_cast<bool>(h.body(buf(x.data)));
        break;
      case op::FIN:
        mc::log("%s %lu: end", what, id);
        ok = static_cast<bool>(h.fin());
        break;
    }
    MC_CHECK(ok, "refused", "a permitted call on the %s %lu was refused", what, id);
    client_may_send_ = server_may_send_ = true;
  }

  void receive(std::pair<bool, uint64_t> from, const bytes &s, bool fin)
  {
    mc::step();
    uint64_t id = from.second;
    observed &o = seen_[from];
    received_[from] += s.size();
    mc::log("%s receives on %lu: %s%s", from.first ? "server" : "client", id, hx(s).c_str(),
            fin ? " fin" : "");
    quic::event event(quic::data{ id, fin, buf(s) });
    if (from.first) {
      known_.insert(id);
      take(server_.recv(std::move(event)), from, &o);
    } else {
      take(client_.recv(std::move(event)), from, &o);
    }
    MC_CHECK(!o.failed, "error", "receiving valid bytes on stream %lu failed with %lu", id,
             o.error);
    client_may_send_ = server_may_send_ = true;
  }

  template<class R>
  void take(R r, std::pair<bool, uint64_t> from, observed *o)
  {
    if (!r) {
      o->failed = true;
      o->error = static_cast<uint64_t>(r.error());
      return;
    }
    if (slow_) {
      using G = typename std::decay<decltype(r.value())>::type;
      auto kept = std::make_shared<G>(std::move(r).value());
      takers_[from] = [this, kept, from, o] {
        size_t headers = o->headers.size(), bodies = o->body_events, settings = o->settings.size();
        drain(*kept, from.second, received_[from], o, 1);
        MC_CHECK(!o->failed, "error", "receiving valid bytes on stream %lu failed with %lu",
                 from.second, o->error);
        return !o->finished && (headers != o->headers.size() || bodies != o->body_events ||
                                settings != o->settings.size());
      };
      return;
    }
    drain(r.value(), from.second, received_[from], o);
  }

  h3::client::connection client_;
  h3::server::connection server_;
  delivery how_;
  bool slow_;
  std::map<std::pair<bool, uint64_t>, std::function<bool()>> takers_;
  std::vector<exchange> exchanges_;
  bool client_may_send_ = true, server_may_send_ = true;
  std::map<std::pair<bool, uint64_t>, std::deque<std::pair<bytes, bool>>> queues_;
  std::map<std::pair<bool, uint64_t>, observed> seen_;
  std::map<std::pair<bool, uint64_t>, size_t> received_;
  std::set<uint64_t> known_;
};

// All actors of a world: application calls per exchange and side, senders, and
// the network per stream and direction.
struct actor {
  enum kind { ASK, ANSWER, CLIENT_SEND, SERVER_SEND, DELIVER, TAKE } what;
  size_t exchange = 0;
  std::pair<bool, uint64_t> stream;

  bool operator==(const actor &o) const
  {
    return what == o.what && exchange == o.exchange && stream == o.stream;
  }
};

std::vector<actor>
enabled(const world &w)
{
  std::vector<actor> r;
  for (size_t i = 0; i < w.size(); i++) {
    if (w.can_ask(i)) {
      r.push_back({ actor::ASK, i, {} });
    }
  }
  if (w.can_send(true)) {
    r.push_back({ actor::CLIENT_SEND, 0, {} });
  }
  for (const auto &from : w.deliverable()) {
    r.push_back({ actor::DELIVER, 0, from });
  }
  for (const auto &from : w.takeable()) {
    r.push_back({ actor::TAKE, 0, from });
  }
  for (size_t i = 0; i < w.size(); i++) {
    if (w.can_answer(i)) {
      r.push_back({ actor::ANSWER, i, {} });
    }
  }
  if (w.can_send(false)) {
    r.push_back({ actor::SERVER_SEND, 0, {} });
  }
  return r;
}

void
act(world &w, const actor &a)
{
  switch (a.what) {
    case actor::ASK:
      w.ask(a.exchange);
      break;
    case actor::ANSWER:
      w.answer(a.exchange);
      break;
    case actor::CLIENT_SEND:
      w.send(true);
      break;
    case actor::SERVER_SEND:
      w.send(false);
      break;
    case actor::DELIVER:
      w.deliver(a.stream);
      break;
    case actor::TAKE:
      w.take_one(a.stream);
      break;
  }
}

// Runs with up to `preemptions` switches away from an actor that could go on;
// `fifo` only takes the first when the current one can't.
void
schedule(world &w, int preemptions, bool all_when_blocked, bool move = false)
{
  actor current{ actor::ASK, 0, {} };
  for (int steps = 0; steps < 2000; steps++) {
    std::vector<actor> ready = enabled(w);
    if (ready.empty()) {
      break;
    }
    size_t at = ready.size();
    for (size_t i = 0; i < ready.size(); i++) {
      if (ready[i] == current) {
        at = i;
      }
    }
    if (at != ready.size()) {
      if (preemptions > 0 && ready.size() > 1) {
        // Go on, or switch to one of the others.
        int c = mc::choose(static_cast<int>(ready.size()), "go on or switch");
        if (c != 0) {
          preemptions--;
          size_t other = static_cast<size_t>(c - 1);
          at = other >= at ? other + 1 : other;
        }
      }
      current = ready[at];
    } else if (ready.size() == 1 || !all_when_blocked) {
      current = ready[0];
    } else {
      current = mc::pick(ready, "next");
    }
    act(w, current);
    if (move) {
      w.move();
    }
    mc::state(w.state());
  }
  w.finish();
}

const script &
pick_script(size_t most, const char *label)
{
  return scripts()[static_cast<size_t>(
    mc::choose(static_cast<int>(std::min(most, scripts().size())), label))];
}

// One exchange: bounded preemptions between all actors.
void
one_exchange()
{
  const script &request = pick_script(99, "request"), &response = pick_script(99, "response");
  delivery how = static_cast<delivery>(mc::choose(DELIVERIES, "delivery"));
  world w({ { &request, &response } }, how);
  schedule(w, mc::thorough() ? 2 : 1, false);
}

// Connections that are moved after every step.
void
moved_connections()
{
  static const std::vector<int> some = { 0, 1, 3, 5, 8 };
  auto one = [&] { return &scripts()[static_cast<size_t>(mc::pick(some, "script"))]; };
  const script *a = one(), *b = one();
  delivery how = static_cast<delivery>(mc::choose(DELIVERIES, "delivery"));
  bool slow = mc::choose(2, "events") == 1;
  if (mc::choose(2, "exchanges") == 0) {
    world w({ { a, b } }, how, slow);
    schedule(w, mc::thorough() ? 2 : 1, false, true);
  } else {
    world w({ { a, b }, { b, a } }, how, slow);
    schedule(w, mc::thorough() ? 1 : 0, false, true);
  }
}

// One exchange whose applications take events one at a time, and make calls in
// between.
void
slow_applications()
{
  static const std::vector<int> some = { 0, 1, 3, 5 };
  auto one = [&] { return &scripts()[static_cast<size_t>(mc::pick(some, "script"))]; };
  const script *request = one(), *response = one();
  delivery how = mc::choose(2, "delivery") == 0 ? AS_SENT : COALESCED;
  world w({ { request, response } }, how, true);
  schedule(w, mc::thorough() ? 3 : 2, false);
}

// Two of them: whose events are taken when.
void
two_slow_applications()
{
  static const std::vector<int> some = { 0, 1 };
  auto one = [&] { return &scripts()[static_cast<size_t>(mc::pick(some, "script"))]; };
  const script *a = one(), *b = one(), *c = one(), *d = one();
  world w({ { a, b }, { c, d } }, COALESCED, true);
  schedule(w, mc::thorough() ? 3 : 2, false);
}

// Many or large things: headers, pieces, exchanges. Sizes around the ones where
// lengths take more bytes, and where counters of 8 and 16 bits end.
void
many()
{
  enum { HEADERS, VALUE, NAME, PIECES, BODY, EXCHANGES, DIMENSIONS };
  static const std::vector<size_t> counts{ 0,   1,   2,   3,   7,   8,    9,    15,   16,  17,  31,
                                           32,  33,  62,  63,  64,  65,   100,  127,  128, 129, 200,
                                           254, 255, 256, 257, 300, 1000, 1025 };
  static const std::vector<size_t> sizes{ 0,     1,     62,    63,    64,    65,    126,   127,
                                          128,   129,   254,   255,   256,   257,   1023,  1024,
                                          1025,  4095,  4096,  4097,  8191,  8192,  16381, 16382,
                                          16383, 16384, 16385, 32767, 32768, 65533, 65534, 65535,
                                          65536, 65537, 70000, 131072, 1 << 20 };
  int what = mc::choose(DIMENSIONS, "headers, value, name, pieces, body or exchanges");
  bool counted = what == HEADERS || what == PIECES || what == EXCHANGES;
  static const std::vector<size_t> bodies = [] {
    std::vector<size_t> v = sizes;
    v.push_back((1 << 24) + 5);
    return v;
  }();
  size_t n = mc::pick(counted ? counts : what == BODY ? bodies : sizes, "number");
  bool of_request = mc::choose(2, "of requests or responses") == 0;
  delivery how = mc::choose(2, "delivery") == 0 ? AS_SENT : COALESCED;
  script big;
  big.push_back(header("first", "1"));
  if (what == HEADERS) {
    for (size_t i = 0; i < n; i++) {
      std::string name = "h" + std::to_string(i);
      big.push_back(header(name.c_str(), std::to_string(i * i).c_str()));
    }
  } else if (what == VALUE || what == NAME) {
    // Longer, the same and shorter when compressed.
    static const char letters[] = { '~', 'a', '&' };
    std::string s(n, mc::pick(std::vector<char>(letters, letters + 3), "letter"));
    if (n > 10) {
      s[n / 2] = '0';
    }
    big.push_back(what == NAME ? header(s.c_str(), "x") : header("x", s.c_str()));
  }
  big.push_back(header("last", "2"));
  big.push_back(START);
  if (what == PIECES) {
    for (size_t i = 0; i < n; i++) {
      big.push_back(body_of(conn::body(i % 5, static_cast<int>(i))));
    }
  } else {
    big.push_back(body_of(what == BODY ? conn::body(n) : "body"));
  }
  big.push_back(body_of("end"));
  big.push_back(FIN);
  const script &small = scripts()[1];
  std::vector<std::pair<const script *, const script *>> list;
  for (size_t i = 0; i < (what == EXCHANGES ? n : 1); i++) {
    list.push_back({ of_request ? &big : &small, of_request ? &small : &big });
  }
  world w(list, how);
  w.finish();
}

// One exchange, fewer scripts, deeper.
void
one_exchange_deep()
{
  static const std::vector<std::pair<int, int>> pairs = { { 0, 0 }, { 1, 0 }, { 0, 1 }, { 1, 5 } };
  const auto &p = mc::pick(pairs, "scripts");
  world w({ { &scripts()[static_cast<size_t>(p.first)],
              &scripts()[static_cast<size_t>(p.second)] } },
          AS_SENT);
  schedule(w, mc::thorough() ? 4 : 3, false);
}

// One direction: all interleavings of calls, sends and deliveries of the
// request; then of the response.
void
every_interleaving()
{
  bool of_request = mc::choose(2, "direction") == 0;
  static const std::vector<int> some = { 0, 7, 1, 5 };
  const script &s = scripts()[static_cast<size_t>(mc::pick(some, "script"))];
  static const script &simple = scripts()[0];
  world w({ { of_request ? &s : &simple, of_request ? &simple : &s } }, AS_SENT);
  // The control streams are there.
  for (bool client : { true, false }) {
    while (w.can_send(client)) {
      w.send(client);
    }
  }
  while (!w.deliverable().empty()) {
    w.deliver(w.deliverable()[0]);
  }
  if (!of_request) {
    // The request is there.
    while (w.can_ask(0)) {
      w.ask(0);
    }
    while (w.can_send(true)) {
      w.send(true);
    }
    for (const auto &from : w.deliverable()) {
      for (int i = 0; i < 100; i++) {
        bool more = false;
        for (const auto &d : w.deliverable()) {
          more = more || d == from;
        }
        if (!more) {
          break;
        }
        w.deliver(from);
      }
    }
  }
  for (int steps = 0; steps < 200; steps++) {
    std::vector<actor> ready;
    for (const actor &a : enabled(w)) {
      bool mine = of_request ? a.what == actor::ASK || a.what == actor::CLIENT_SEND ||
                                 (a.what == actor::DELIVER && a.stream.first)
                             : a.what == actor::ANSWER || a.what == actor::SERVER_SEND ||
                                 (a.what == actor::DELIVER && !a.stream.first);
      if (a.what == actor::DELIVER && a.stream.second % 4 != 0) {
        mine = false; // Control streams, at the end.
      }
      if (mine) {
        ready.push_back(a);
      }
    }
    if (ready.empty()) {
      break;
    }
    act(w, ready.size() == 1 ? ready[0] : mc::pick(ready, "next"));
    mc::state(w.state());
  }
  w.finish();
}

// Who goes first whenever there is a choice: every order of the applications' and
// senders' roles and the directions of the network. An application that comes last
// makes its next call when nothing else is left to do.
void
by_priority(world &w, int deviations)
{
  int code = mc::choose(720, "priorities");
  std::vector<int> left{ 0, 1, 2, 3, 4, 5 };
  int rank[6];
  for (int i = 0; i < 6; i++) {
    size_t k = static_cast<size_t>(code % (6 - i));
    code /= 6 - i;
    rank[left[k]] = i;
    left.erase(left.begin() + static_cast<long>(k));
  }
  bool last = mc::choose(2, "of equals the last") == 1;
  for (int steps = 0; steps < 2000; steps++) {
    std::vector<actor> ready = enabled(w);
    if (ready.empty()) {
      break;
    }
    auto of = [&](const actor &a) {
      return rank[a.what == actor::ASK           ? 0
                  : a.what == actor::CLIENT_SEND ? 1
                  : a.what == actor::ANSWER      ? 2
                  : a.what == actor::SERVER_SEND ? 3
                  : a.stream.first               ? 4
                                                 : 5];
    };
    size_t best = 0;
    for (size_t i = 1; i < ready.size(); i++) {
      if (of(ready[i]) < of(ready[best]) || (last && of(ready[i]) == of(ready[best]))) {
        best = i;
      }
    }
    if (deviations > 0 && ready.size() > 1) {
      int c = mc::choose(static_cast<int>(ready.size()), "deviate");
      if (c != 0) {
        deviations--;
        size_t other = static_cast<size_t>(c - 1);
        best = other >= best ? other + 1 : other;
      }
    }
    act(w, ready[best]);
    mc::state(w.state());
  }
  w.finish();
}

void
priorities()
{
  const script &request = pick_script(99, "request"), &response = pick_script(99, "response");
  static const std::vector<delivery> quick{ AS_SENT, FIN_ALONE }, all{ AS_SENT, COALESCED, BYTES, FIN_ALONE };
  world w({ { &request, &response } }, mc::pick(mc::thorough() ? all : quick, "delivery"));
  by_priority(w, mc::thorough() ? 1 : 0);
}

void
priorities_of_two()
{
  static const std::vector<int> some = { 0, 1, 5 };
  auto one = [&] { return &scripts()[static_cast<size_t>(mc::pick(some, "script"))]; };
  const script *a = one(), *b = one(), *c = one(), *d = one();
  world w({ { a, b }, { c, d } }, AS_SENT);
  by_priority(w, mc::thorough() ? 1 : 0);
}

// Several exchanges at once.
void
exchanges(size_t n, int preemptions)
{
  static const std::vector<int> some = { 0, 1, 5 };
  std::vector<std::pair<const script *, const script *>> list;
  for (size_t i = 0; i < n; i++) {
    const script &request = scripts()[static_cast<size_t>(mc::pick(some, "request"))];
    const script &response =
      n > 2 ? scripts()[i % 3] : scripts()[static_cast<size_t>(mc::pick(some, "response"))];
    list.push_back({ &request, &response });
  }
  delivery how = mc::choose(2, "delivery") == 0 ? AS_SENT : COALESCED;
  world w(list, how);
  schedule(w, preemptions, false);
}

void
two_exchanges()
{
  exchanges(2, mc::thorough() ? 2 : 1);
}

void
three_exchanges()
{
  exchanges(3, mc::thorough() ? 2 : 1);
}

// Phases of several exchanges (ask all, send all, deliver all, answer all) in
// every order of the exchanges' streams.
void
phases()
{
  const size_t n = 3;
  const script &a = pick_script(4, "script"), &b = pick_script(4, "script");
  world w({ { &a, &b }, { &b, &a }, { &a, &a } },
          static_cast<delivery>(mc::choose(DELIVERIES, "delivery")));
  auto send_all = [&](bool client) {
    for (int i = 0; i < 500 && w.can_send(client); i++) {
      w.send(client);
    }
  };
  for (size_t i = 0; i < n; i++) {
    while (w.can_ask(i)) {
      w.ask(i);
    }
  }
  send_all(true);
  int most = mc::thorough() ? 8 : 4;
  for (int k = 0; k < most; k++) {
    // Streams, answers, the server's sends.
    std::vector<actor> ready;
    for (const actor &x : enabled(w)) {
      if (x.what != actor::CLIENT_SEND) {
        ready.push_back(x);
      }
    }
    if (ready.empty()) {
      break;
    }
    const actor &x = ready.size() == 1 ? ready[0] : mc::pick(ready, "next");
    // All of it.
    for (int i = 0; i < 100; i++) {
      bool can = false;
      for (const actor &y : enabled(w)) {
        can = can || y == x;
      }
      if (!can) {
        break;
      }
      act(w, x);
      mc::state(w.state());
    }
  }
  w.finish();
}

}

int
main(int argc, char **argv)
{
  return mc::run(
    argc, argv,
    { { "one-exchange",
        "one request and response of 9 scripts of calls each, four ways to deliver, up to 1 "
        "(thorough 2) switches between the applications, senders and network streams at every "
        "point",
        one_exchange, 4 },
      { "one-exchange-deep", "four pairs of scripts, up to 3 (thorough 4) switches",
        one_exchange_deep, 4 },
      { "slow-applications",
        "one exchange of 4 scripts each, whose events are taken one at a time: up to 2 (thorough "
        "3) switches",
        slow_applications, 4 },
      { "two-slow-applications", "two exchanges of 2 scripts each, up to 2 (thorough 3) switches",
        two_slow_applications, 4 },
      { "moved-connections",
        "one or two exchanges of 5 scripts each, connections moved after every step", moved_connections,
        4 },
      { "many",
        "0 to 1025 headers, pieces or exchanges, and names, values and bodies of 0 bytes to 1 MiB, "
        "around all limits",
        many, 4 },
      { "every-interleaving",
        "all interleavings of the calls, sends and deliveries of one direction, for 4 "
        "scripts",
        every_interleaving, 6 },
      { "priorities",
        "one exchange of 9 scripts each, two (thorough four) ways to deliver, every order of who goes first of the "
        "applications, senders and directions of the network, up to 0 (thorough 1) deviations at every point",
        priorities, 3 },
      { "priorities-of-two", "the same for two exchanges of 3 scripts each", priorities_of_two, 4 },
      { "two-exchanges", "two concurrent exchanges, up to 1 (thorough 2) switches", two_exchanges, 5 },
      { "three-exchanges", "three concurrent exchanges, up to 1 (thorough 2) switches",
        three_exchanges, 5 },
      { "phases",
        "three exchanges whose streams are delivered, answered and sent in every order of up to 4 "
        "(thorough 8) phases",
        phases, 5 } });
}

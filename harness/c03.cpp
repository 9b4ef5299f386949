// C03: everything an endpoint emits is well-formed HTTP/3 for its role.
#include "corpus.hpp"

using namespace conn;

namespace {

using handle = h3::request::handle;

// What the application queued for one message.
struct message {
  std::vector<ref::field> headers;
  bool started = false;
  std::vector<bytes> body;
  bool ended = false;
};

struct emission {
  bytes data;
  bool fin = false;
};

class session {
public:
  session(role r, std::vector<uint64_t> ids)
    : role_(r)
    , ids_(std::move(ids))
  {
    if (r == role::client) {
      client_.reset(new h3::client::connection());
    } else {
      server_.reset(new h3::server::connection());
    }
    if (r == role::server) {
      for (uint64_t id : ids_) {
        receive(id, conn::headers({ { ":method", "GET" } }), false);
        open(id);
      }
    } else {
      for (uint64_t id : ids_) {
        auto h = client_->request();
        MC_CHECK(h, "request", "a request could not be made");
        MC_CHECK(h.value().id() == id, "request-id", "request has id %lu, not %lu",
                 h.value().id(), id);
        handles_.emplace(id, std::move(h).value());
        messages_[id];
      }
    }
  }

  void open(uint64_t id)
  {
    auto h = server_->response(id);
    MC_CHECK(h, "response", "no response to stream %lu", id);
    MC_CHECK(h.value().id() == id, "response-id", "response to %lu has id %lu", id,
             h.value().id());
    handles_.erase(id);
    handles_.emplace(id, std::move(h).value());
    messages_[id];
  }

  handle &get(uint64_t id) { return handles_.at(id); }

  void header(uint64_t id, const ref::field &f)
  {
    message &m = messages_[id];
    bool ok = static_cast<bool>(get(id).header({ f.first.c_str(), f.second.c_str() }));
    bool want = !m.started && !ref::has_uppercase(f.first);
    expect("header", id, ok, want);
    if (want) {
      m.headers.push_back(f);
    }
  }

  void start(uint64_t id)
  {
    message &m = messages_[id];
    bool want = !m.started && !m.headers.empty();
    expect("start", id, static_cast<bool>(get(id).start()), want);
    m.started = m.started || want;
  }

  void body(uint64_t id, const bytes &b)
  {
    message &m = messages_[id];
    expect("body", id, static_cast<bool>(get(id).body(buf(b))), !m.ended);
    if (!m.ended) {
      m.body.push_back(b);
    }
  }

  void fin(uint64_t id)
  {
    message &m = messages_[id];
    expect("fin", id, static_cast<bool>(get(id).fin()), !m.ended);
    m.ended = true;
  }

  // The peer sends something on the stream.
  void receive(uint64_t id, const bytes &s, bool end)
  {
    mc::step();
    observed &o = observed_[id];
    quic::event event(quic::data{ id, end, buf(s) });
    if (client_) {
      auto g = client_->recv(std::move(event));
      if (g) {
        drain(g.value(), id, s.size() + 100, &o);
      }
    } else {
      auto g = server_->recv(std::move(event));
      if (g) {
        drain(g.value(), id, s.size() + 100, &o);
      }
    }
  }

  // Sends one piece; false if there's nothing to send.
  bool send()
  {
    mc::step();
    auto r = client_ ? client_->send() : server_->send();
    if (!r) {
      MC_CHECK(static_cast<uint64_t>(r.error()) == ref::IDLE, "send-error",
               "send() failed with %lu", static_cast<uint64_t>(r.error()));
      idle();
      return false;
    }
    quic::event &event = r.value();
    MC_CHECK(event == quic::event::type::data, "not-data", "send() returned no data");
    uint64_t id = event.data.id;
    if (mc::logging()) {
      mc::log("stream %lu: %s%s", id, hx(str(event.data.buffer)).c_str(),
              event.data.fin ? " fin" : "");
    }
    uint64_t control = role_ == role::client ? 2 : 3;
    MC_CHECK(id == control || messages_.count(id) != 0, "unknown-stream",
             "data was emitted on stream %lu", id);
    emission &e = emitted_[id];
    MC_CHECK(!e.fin, "after-end", "data was emitted on stream %lu after its end", id);
    e.data += str(event.data.buffer);
    e.fin = event.data.fin;
    if (id == control) {
      MC_CHECK(!e.fin, "control-ended", "the control stream was ended");
    } else {
      check_control();
    }
    return true;
  }

  void flush()
  {
    int n = 0;
    while (send()) {
      n++;
      MC_CHECK(n < 400, "send-forever", "send() never reports idle");
    }
    // Idle stays idle.
    MC_CHECK(!send(), "idle", "send() emitted something right after it was idle");
  }

  uint64_t hash() const
  {
    mc::hasher h;
    for (const auto &entry : emitted_) {
      h.add(entry.first).add(entry.second.data).add(entry.second.fin);
    }
    return h;
  }

  const std::vector<uint64_t> &ids() const { return ids_; }

  void drop(uint64_t id) { handles_.erase(id); }

private:
  void expect(const char *call, uint64_t id, bool got, bool want)
  {
    mc::step();
    if (mc::logging()) {
      mc::log("%s on %lu %s", call, id, got ? "ok" : "refused");
    }
    MC_CHECK(got == want, want ? "refused" : "accepted", "%s on stream %lu was %s", call, id,
             got ? "accepted" : "refused");
  }

  // The control stream, as it has to be before anything else is emitted.
  void check_control()
  {
    const bytes &s = emitted_[role_ == role::client ? 2 : 3].data;
    MC_CHECK(!s.empty() && s[0] == 0, "control-type",
             "the control stream doesn't start with its type, but with %s", hx(s).c_str());
    ref::decoded d = ref::decode(s.substr(1));
    MC_CHECK(d.status == ref::decoded::ok && d.f.type == ref::SETTINGS, "control-settings",
             "the control stream has no SETTINGS frame: %s", hx(s).c_str());
    MC_CHECK(d.end == s.size() - 1, "control-more",
             "the control stream carries more than SETTINGS: %s", hx(s).c_str());
    ref::frame defaults;
    defaults.type = ref::SETTINGS;
    MC_CHECK(d.f == defaults, "control-values", "SETTINGS are not the local ones: %s",
             frames::text(d.f).c_str());
  }

  // All there is to send was sent.
  void idle()
  {
    check_control();
    for (const auto &entry : messages_) {
      const message &m = entry.second;
      uint64_t id = entry.first;
      const emission &e = emitted_[id];
      if (!m.started) {
        MC_CHECK(e.data.empty() && !e.fin, "not-started",
                 "stream %lu: emitted %s before the message was started", id,
                 hx(e.data).c_str());
        continue;
      }
      size_t at = 0;
      uint64_t type = 0, length = 0;
      auto frame_header = [&](const char *what) {
        size_t n = ref::varint_read(e.data, at, &type);
        size_t k = n == 0 ? 0 : ref::varint_read(e.data, at + n, &length);
        MC_CHECK(k != 0 && length <= e.data.size() - at - n - k, "not-sent",
                 "stream %lu: idle, but %s isn't (completely) emitted: %s", id, what,
                 hx(e.data).c_str());
        at += n + k;
      };
      frame_header("the header section");
      MC_CHECK(type == ref::HEADERS, "headers-frame", "stream %lu starts with a frame of type %lu",
               id, type);
      bytes block = e.data.substr(at, static_cast<size_t>(length));
      at += block.size();
      MC_CHECK(block.size() >= 2, "headers-frame", "stream %lu: no header block", id);
      size_t p = 2;
      for (const ref::field &f : m.headers) {
        ref::field_read r = ref::read_field(block, p);
        MC_CHECK(r.status == ref::field_read::ok && r.value == f, "headers",
                 "stream %lu: header %s=%s is not in the header block %s", id, f.first.c_str(),
                 f.second.substr(0, 40).c_str(), hx(block).c_str());
        p = r.end;
      }
      MC_CHECK(p == block.size(), "headers-length",
               "stream %lu: the HEADERS frame has %zu bytes, the header block %zu", id,
               block.size(), p);
      for (const bytes &b : m.body) {
        if (b.empty() && (at == e.data.size() || ref::varint_read(e.data, at + 1, &length) == 0 ||
                          length != 0)) {
          continue; // Frames of empty pieces may be left out.
        }
        frame_header("a body piece");
        MC_CHECK(type == ref::DATA, "data-frame", "stream %lu: frame of type %lu after headers",
                 id, type);
        MC_CHECK(length == b.size() && e.data.compare(at, b.size(), b) == 0, "data",
                 "stream %lu: DATA frame of %lu bytes for a piece of %zu", id, length, b.size());
        at += b.size();
      }
      MC_CHECK(at == e.data.size(), "more", "stream %lu: more was emitted than was queued: %s", id,
               hx(e.data.substr(at)).c_str());
      MC_CHECK(e.fin == m.ended, m.ended ? "end-missing" : "end-early",
               "stream %lu: the end of the stream is %s", id, e.fin ? "emitted" : "missing");
    }
    mc::state(hash());
  }

  role role_;
  std::vector<uint64_t> ids_;
  std::unique_ptr<h3::client::connection> client_;
  std::unique_ptr<h3::server::connection> server_;
  std::map<uint64_t, handle> handles_;
  std::map<uint64_t, message> messages_;
  std::map<uint64_t, emission> emitted_;
  std::map<uint64_t, observed> observed_;
};

role
choose_role()
{
  return mc::choose(2, "role") == 0 ? role::client : role::server;
}

// One operation on a message.
void
operation(session &s, uint64_t id, int op)
{
  static const bytes big = conn::body(21, 9);
  switch (op) {
    case 0:
      s.header(id, { ":path", "/" });
      break;
    case 1:
      s.header(id, { "n", "value" + std::to_string(id) });
      break;
    case 2:
      s.start(id);
      break;
    case 3:
      s.body(id, "b" + std::to_string(id));
      break;
    case 4:
      s.body(id, "");
      break;
    case 5:
      s.body(id, big);
      break;
    case 6:
      s.fin(id);
      break;
    case 7:
      s.receive(id, conn::headers({ { "x", "y" } }), true);
      break;
    case 8:
      s.header(id, { "Upper", "case" });
      break;
  }
}

void
sequences(const std::vector<uint64_t> &ids, int depth, const std::vector<int> &ops)
{
  role r = choose_role();
  session s(r, ids);
  int n = static_cast<int>(ids.size() * ops.size());
  for (int i = 0; i < depth; i++) {
    int c = mc::choose(n + 2, "operation: end, send, calls");
    if (c == 0) {
      break;
    }
    if (c == 1) {
      s.send();
      continue;
    }
    size_t k = static_cast<size_t>(c - 2);
    operation(s, ids[k / ops.size()], ops[k % ops.size()]);
  }
  s.flush();
  mc::outcome(s.hash());
}

void
one_stream()
{
  // The first call is always a header.
  sequences({ 0 }, mc::thorough() ? 8 : 6, { 1, 2, 3, 4, 5, 6, 7, 8 });
}

void
two_streams()
{
  sequences({ 0, 4 }, mc::thorough() ? 7 : 5, { 1, 2, 3, 6 });
}

// Messages that were started: what happens to their bodies and ends.
void
started(size_t streams, int depth, const std::vector<int> &ops)
{
  role r = choose_role();
  static const std::vector<uint64_t> all = { 0, 4, 8 };
  std::vector<uint64_t> ids(all.begin(), all.begin() + static_cast<long>(streams));
  session s(r, ids);
  for (uint64_t id : ids) {
    s.header(id, { ":path", "/" + std::to_string(id) });
    s.start(id);
  }
  int n = static_cast<int>(streams * ops.size());
  for (int i = 0; i < depth; i++) {
    int c = mc::choose(n + 2, "operation: end, send, calls");
    if (c == 0) {
      break;
    }
    if (c == 1) {
      s.send();
      continue;
    }
    size_t k = static_cast<size_t>(c - 2);
    operation(s, ids[k / ops.size()], ops[k % ops.size()]);
  }
  s.flush();
  mc::outcome(s.hash());
}

void
started_one()
{
  started(1, mc::thorough() ? 10 : 8, { 3, 4, 6, 7 });
}

void
started_three()
{
  started(3, mc::thorough() ? 6 : 5, { 3, 6, 7 });
}

// Two streams; every order of their calls and sends.
void
interleaved()
{
  role r = choose_role();
  session s(r, { 0, 4 });
  static const std::vector<std::vector<int>> scripts = {
    { 1, 2, 3, 6 }, { 1, 3, 6, 2 }, { 0, 1, 2, 4, 6 }, { 1, 2, 6 }, { 1, 2, 3, 5 }, { 1, 6, 2 } };
  const auto &a = mc::pick(scripts, "first"), &b = mc::pick(scripts, "second");
  size_t i = 0, j = 0;
  int sends = 0;
  const int most = mc::thorough() ? 5 : 3;
  while (i < a.size() || j < b.size()) {
    std::vector<int> ready;
    if (i < a.size()) ready.push_back(0);
    if (j < b.size()) ready.push_back(1);
    if (sends < most) ready.push_back(2);
    int c = ready.size() == 1 ? ready[0] : mc::pick(ready, "first, second, send");
    if (c == 0) {
      operation(s, 0, a[i++]);
    } else if (c == 1) {
      operation(s, 4, b[j++]);
    } else {
      s.send();
      sends++;
    }
  }
  s.flush();
  mc::outcome(s.hash());
}

// Header blocks of every size around the boundaries of lengths.
void
header_sizes()
{
  static const std::vector<size_t> sizes = [] {
    std::vector<size_t> v;
    for (size_t n = 0; n < 140; n++) v.push_back(n);
    for (size_t n = 250; n < 262; n++) v.push_back(n);
    for (size_t n = 16250; n < 16262; n++) v.push_back(n);
    for (size_t n = 16360; n < 16392; n++) v.push_back(n);
    v.push_back(70000);
    return v;
  }();
  role r = choose_role();
  size_t n = mc::pick(sizes, "size of value");
  int kind = mc::choose(4, "value, name, huffman value, several");
  int split = mc::choose(3, "send: at the end, after start, before start");
  session s(r, { 0 });
  if (split == 2) {
    s.flush();
  }
  switch (kind) {
    case 0:
      s.header(0, { "n", bytes(n, '\x01') });
      break;
    case 1:
      s.header(0, { bytes(n + 1, 'n'), "v" });
      break;
    case 2:
      s.header(0, { "n", bytes(n, 'e') });
      break;
    default:
      s.header(0, { ":method", "GET" });
      s.header(0, { "n", bytes(n, '\x01') });
      s.header(0, { "m", "z" });
      break;
  }
  s.start(0);
  if (split == 1) {
    s.flush();
  }
  s.body(0, "xy");
  s.fin(0);
  s.flush();
  mc::outcome(s.hash());
}

// Bodies of every size around the boundaries of lengths, in several pieces.
void
body_sizes()
{
  static const std::vector<size_t> sizes = { 0,  1,   19,   20,    21,    40,    62,   63,
                                             64, 65,  127,  128,   16381, 16382, 16383, 16384,
                                             16385, 65535, 65536, (1 << 20) + 2, (1 << 24) + 5 };
  role r = choose_role();
  session s(r, { 0 });
  s.header(0, { ":method", "GET" });
  s.start(0);
  int flush = mc::choose(3, "send: at the end, after each piece, one at a time");
  int end = mc::choose(2, "end before sending");
  for (int i = 0; i < (mc::thorough() ? 3 : 2); i++) {
    int c = mc::choose(static_cast<int>(sizes.size()) + (i == 0 ? 1 : -1), "size");
    if (c == 0) {
      break;
    }
    size_t n = sizes[static_cast<size_t>(c - 1)];
    s.body(0, conn::body(n, static_cast<unsigned>(i)));
    if (n > 100000) {
      s.body(0, "after");
      break;
    }
    if (flush == 1) {
      s.flush();
    } else if (flush == 2) {
      s.send();
    }
  }
  if (end == 0) {
    s.flush();
  }
  s.fin(0);
  s.flush();
  mc::outcome(s.hash());
}

// Ids of many requests, whose handles may be dropped and which may be
// completed in between.
void
many()
{
  role r = choose_role();
  if (r == role::client) {
    h3::client::connection c;
    uint64_t want = 0;
    std::vector<handle> kept;
    for (int i = 0; i < (mc::thorough() ? 4 : 3); i++) {
      int n = mc::choose(4, "requests");
      for (int k = 0; k < n; k++) {
        auto h = c.request();
        MC_CHECK(h, "request", "a request could not be made");
        MC_CHECK(h.value().id() == want, "request-id", "request has id %lu, not %lu",
                 h.value().id(), want);
        want += 4;
        switch (mc::choose(3, "unused, kept, completed")) {
          case 1:
            kept.push_back(std::move(h).value());
            break;
          case 2: {
            bool ok = h.value().header({ "a", "b" }) && h.value().start() && h.value().fin();
            MC_CHECK(ok, "refused", "request %lu could not be made", want - 4);
            while (c.send()) {
            }
            auto g = c.recv(quic::event(
              quic::data{ want - 4, true, buf(conn::headers({ { "x", "y" } })) }));
            MC_CHECK(g, "recv", "the response to %lu was refused", want - 4);
            while (g.value().next()) {
            }
            break;
          }
        }
      }
    }
    mc::state(mc::hasher().add(want).add(kept.size()));
    return;
  }
  // Responses to streams that were opened in any order.
  static const std::vector<uint64_t> all = { 0, 4, 8, 400, ref::VARINT_MAX - 3 };
  std::vector<uint64_t> left = all, order;
  for (int i = 0; i < 3; i++) {
    size_t k = static_cast<size_t>(mc::choose(static_cast<int>(left.size()), "stream"));
    order.push_back(left[k]);
    left.erase(left.begin() + static_cast<long>(k));
  }
  session s(role::server, order);
  for (int i = 0; i < 3; i++) {
    uint64_t id = mc::pick(order, "respond to");
    operation(s, id, 1);
    operation(s, id, 2);
    operation(s, id, mc::choose(2, "body or end") == 0 ? 3 : 6);
    if (mc::choose(2, "flush") == 1) {
      s.flush();
    }
  }
  s.flush();
  mc::outcome(s.hash());
}

}

int
main(int argc, char **argv)
{
  return mc::run(
    argc, argv,
    { { "one-stream",
        "all sequences of up to 6 (thorough 8) calls (headers, refused headers, start, bodies of "
        "0, 2 and 21 bytes, end), sends and receives on one stream, both roles",
        one_stream, 4 },
      { "two-streams", "all sequences of up to 5 (thorough 7) calls and sends on two streams",
        two_streams, 4 },
      { "started-stream", "the same after the message was started, up to 8 (thorough 10)",
        started_one, 4 },
      { "three-started-streams", "the same on three streams, up to 5 (thorough 6)", started_three, 4 },
      { "interleaved", "all interleavings of two scripts of calls with up to 3 (thorough 5) sends",
        interleaved, 4 },
      { "header-sizes", "header blocks around every boundary of lengths up to 70000", header_sizes, 3 },
      { "body-sizes", "up to 2 (thorough 3) body pieces of 21 sizes up to 65536 and 2^24 + 5", body_sizes, 4 },
      { "many-streams", "ids of up to 9 (thorough 12) requests; responses to streams in any order", many, 4 } });
}

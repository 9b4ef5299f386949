// C30: the example client as a whole, from its arguments to its exit status. The real
// main(), event loop wrappers, socket, HTTP/3 and QUIC code run over models of the
// system, of the loop, of the transport and of TLS; a model of the server and of the
// network answers, and the explorer picks what happens in which order.
#include "conn.hpp"
#include "fake_ngtcp2.hpp"
#include "fake_os.hpp"
#include "fake_sd.hpp"
#include "fake_ssl.hpp"

#include <bnl/base/log.hpp>

#include <csignal>
#include <cstdio>
#include <iostream>
#include <netdb.h>
#include <sstream>
#include <sys/epoll.h>

int client_main(int argc, char *argv[]);

namespace {

using util::bytes;
using fake_ngtcp2::answer;
using fake_ngtcp2::offer;
using fake_ngtcp2::transport;
using fake_os::sys;
using fake_sd::sd;
using fake_ssl::tls;

constexpr uint64_t MS = 1000;   // In the loop's microseconds.
constexpr uint64_t NS = 1000;   // Nanoseconds in one of these.
constexpr size_t ROOM = 24;     // Bytes of stream data in a packet of the client.
constexpr uint64_t PTO = 100 * MS;
constexpr uint64_t IDLE = 3000 * MS;
constexpr uint64_t TRIP = 10 * MS;

// A datagram. Everything is sent as a fixed header and data.
struct packet {
  char type = 0; // I, F, D, K of the client; S, R, A, M of the server.
  uint32_t number = 0;
  uint32_t acked = 0;
  uint8_t id = 0;
  uint32_t offset = 0;
  bool fin = false;
  bytes data;

  bytes encode() const
  {
    return bytes(1, type) + util::be(number, 4) + util::be(acked, 4) + util::be(id, 1) + util::be(offset, 4) +
           util::be(fin ? 1 : 0, 1) + data;
  }

  static packet decode(const bytes &b)
  {
    auto u = [&](size_t at, size_t n) {
      uint32_t v = 0;
      for (size_t i = 0; i < n; i++) {
        v = v << 8 | static_cast<uint8_t>(b[at + i]);
      }
      return v;
    };
    packet p;
    MC_CHECK(b.size() >= 15, "datagram", "a datagram of %zu bytes isn't a packet of the transport", b.size());
    p.type = b[0];
    p.number = u(1, 4);
    p.acked = u(5, 4);
    p.id = static_cast<uint8_t>(u(9, 1));
    p.offset = u(10, 4);
    p.fin = u(14, 1) != 0;
    p.data = b.substr(15);
    return p;
  }
};

// Bytes of a stream that arrive in any order.
struct inbound {
  std::map<uint32_t, packet> pieces;
  uint32_t delivered = 0;
  bool fin = false;

  // What can be delivered now.
  std::vector<packet> add(const packet &p)
  {
    std::vector<packet> r;
    pieces[p.offset] = p;
    for (auto it = pieces.find(delivered); it != pieces.end() && !fin; it = pieces.find(delivered)) {
      r.push_back(it->second);
      delivered += static_cast<uint32_t>(it->second.data.size());
      fin = it->second.fin;
      if (it->second.data.empty()) {
        break;
      }
    }
    return r;
  }
};

struct response {
  const char *name;
  std::vector<ref::field> headers;
  bytes body;
  // What the server sends, in this order: stream and bytes; a FIN follows the last of
  // stream 0.
  std::vector<std::pair<int, bytes>> pieces;
  bool good = true;
  bool fin = true;
};

struct budget {
  int losses = 0, full = 0, slow = 0, reorder = 0, faults = 0;
  int left = 0;

  bool take(int &kind, const char *label)
  {
    if (kind <= 0 || left <= 0) {
      return false;
    }
    if (mc::choose(2, label) == 0) {
      return false;
    }
    kind--;
    left--;
    return true;
  }
};

class world {
public:
  world()
  {
    fake_os::reset();
    fake_sd::reset();
    fake_ngtcp2::reset();
    fake_ssl::reset();
    sys.addresses = { { AF_INET, bytes("\xc6\x33\x64\x07", 4) } };
    sys.local = bytes("\xc0\x00\x02\x01", 4);
    sys.local_port = 40000;
    transport.idle_timeout = IDLE * NS;
    hooks();
  }

  ~world()
  {
    fake_os::reset();
    fake_sd::reset();
    fake_ngtcp2::reset();
    fake_ssl::reset();
  }

  // Runs the program and returns its exit status, -1 for an exception.
  int run(std::vector<const char *> arguments)
  {
    std::vector<bytes> copies(arguments.begin(), arguments.end());
    std::vector<char *> argv;
    for (bytes &b : copies) {
      argv.push_back(&b[0]);
    }
    argv.push_back(nullptr);

    sigset_t mask;
    sigprocmask(SIG_BLOCK, nullptr, &mask);
    auto logger = bnl::base::logger;
    std::ostringstream out;
    auto before = std::cout.rdbuf(out.rdbuf());
    files[0] = stdout;
    files[1] = stderr;
    static FILE *null = fopen("/dev/null", "w");
    stdout = stderr = null;
    auto restore = [&]() {
      stdout = files[0];
      stderr = files[1];
      std::cout.rdbuf(before);
      bnl::base::logger = logger;
      sigprocmask(SIG_SETMASK, &mask, nullptr);
    };

    int status = -1;
    try {
      status = client_main(static_cast<int>(copies.size()), argv.data());
    } catch (const std::exception &) {
    } catch (...) {
      restore();
      throw;
    }
    restore();
    output = out.str();
    running = false;
    return status;
  }

  // Nothing is left behind.
  void check_end()
  {
    for (const auto &entry : sys.descriptors) {
      MC_CHECK(!entry.second.open, "descriptor", "a descriptor is still open at the end");
      MC_CHECK(entry.second.closes == 1, "descriptor", "a descriptor was closed %d times", entry.second.closes);
    }
    for (const auto &source : sd.sources) {
      MC_CHECK(source->kind == sd_event_source::signal || source->references == 0, "source",
               "a source of the loop wasn't released");
    }
    MC_CHECK(sd.loops == 0, "loop", "%d references to the loop are left", sd.loops);
    MC_CHECK(transport.created == transport.deleted, "transport", "the transport's connection wasn't released");
    MC_CHECK(tls.created == tls.freed, "tls", "the TLS connection wasn't released");
    MC_CHECK(sys.lists == 0, "addresses", "results of the resolver weren't released");
    for (const auto *list : { &sys.misuse, &sd.misuse, &transport.misuse }) {
      MC_CHECK(list->empty(), "misuse", "%s", list->front().c_str());
    }
  }

  // The request as the server got it.
  void check_request(const bytes &host)
  {
    bytes data;
    for (auto &entry : received[0]) {
      MC_CHECK(entry.first == data.size(), "request", "the request has a gap at %zu", data.size());
      data += entry.second.data;
    }
    uint64_t type = 0, size = 0;
    size_t n = ref::varint_read(data, 0, &type);
    size_t k = n == 0 ? 0 : ref::varint_read(data, n, &size);
    MC_CHECK(k != 0 && type == ref::HEADERS && data.size() == n + k + size, "request",
             "the request isn't one HEADERS frame: %s", mc::hex(data, 32).c_str());
    bytes block = data.substr(n + k);
    std::vector<ref::field> fields;
    size_t at = 2; // The prefix.
    while (at < block.size()) {
      ref::field_read r = ref::read_field(block, at);
      MC_CHECK(r.status == ref::field_read::ok, "request", "the request's header block isn't valid");
      fields.push_back(r.value);
      at = r.end;
    }
    std::vector<ref::field> expected = {
      { ":method", "GET" }, { ":scheme", "https" }, { ":authority", host }, { ":path", "/index.html" }
    };
    MC_CHECK(fields == expected, "request", "the request's headers are %s", conn::text(fields).c_str());
    bytes control;
    for (auto &entry : control_) {
      MC_CHECK(entry.first == control.size(), "control", "the control stream has a gap");
      control += entry.second.data;
    }
    ref::decoded d;
    if (control.size() > 1) {
      d = ref::decode(control.substr(1));
    }
    // The program may end before a full socket took everything.
    MC_CHECK((control.empty() || control[0] == 0) &&
               (d.status == ref::decoded::ok ? d.f.type == ref::SETTINGS
                                             : d.status == ref::decoded::incomplete && was_full),
             "control", "the control stream doesn't start with SETTINGS");
  }

  response answer_;
  budget b;
  bool answers = true;   // Whether the server ever answers (by packet type).
  bytes mute;            // Types of packets the server never sends.
  bool reset_ = false;   // The server resets the stream instead of finishing.
  bool corrupt = false;  // A datagram of the server can't be decrypted.
  int handshake_error = 0;
  bool together = false; // All datagrams on their way arrive at once.
  bool both = false;     // An event for a datagram says that the socket is writable, too.
  uint64_t extra = 0;    // Nanoseconds by which the transport's times are odd.

  bytes output;
  uint64_t started = 0, ended = 0;
  uint64_t previous = 0;      // The last turn but one.
  bytes tls_host;
  bool fin_control = false;
  uint64_t last_activity = 0; // The last time a datagram was sent or received.
  int turns = 0;
  bool failed = false; // A fault was injected or met.
  std::map<int, std::map<uint32_t, packet>> received; // By the server.
  std::map<uint32_t, packet> control_; // Sent on the control stream.
  bool answered = false;

private:
  // The client's side: the transport.

  struct flight {
    packet p;
    bool acked = false;
  };
  std::map<uint32_t, flight> flights;
  std::deque<packet> queue; // Packets the transport wants to send.
  uint32_t next_number = 1;
  bool initial = false, server_hello = false;
  int backoff = 0;
  std::map<int, inbound> streams;
  std::vector<uint32_t> to_ack;
  std::map<int, uint32_t> acked_prefix;
  std::vector<bytes> produced; // Every packet made.
  size_t arrived = 0;          // Datagrams of the client the network has seen.
  bool was_full = false;
  bool full = false;           // The last send would have blocked.
  bool running = true;

  uint64_t now() const { return sd.now; }

  void arm()
  {
    bool flying = false;
    for (auto &entry : flights) {
      flying = flying || !entry.second.acked;
    }
    if (!flying) {
      transport.loss_expiry = UINT64_MAX;
    }
    transport.expiry = transport.loss_expiry < transport.ack_expiry ? transport.loss_expiry : transport.ack_expiry;
  }

  void restart()
  {
    transport.loss_expiry = (now() + (PTO << backoff)) * NS + extra;
    arm();
  }

  bytes make(packet p, bool eliciting)
  {
    p.number = next_number++;
    if (eliciting) {
      flights[p.number].p = p;
      restart();
    }
    produced.push_back(p.encode());
    return produced.back();
  }

  void check_time()
  {
    for (uint64_t ts : transport.timestamps) {
      MC_CHECK(ts == now() * NS, "time", "the transport was told the time is %lu ns, it is %lu us", ts, now());
    }
    transport.timestamps.clear();
  }

  void hooks()
  {
    tls.do_handshake = [this](SSL *) { return server_hello ? SSL_ERROR_NONE : SSL_ERROR_WANT_READ; };
    transport.write_pkt = [this](uint8_t *dest, size_t size) -> ssize_t {
      if (!initial) {
        initial = true;
        packet p;
        p.type = 'I';
        p.data = "hello";
        queue.push_back(p);
      }
      bytes made;
      if (!to_ack.empty() && transport.ack_expiry == UINT64_MAX) {
        packet p;
        p.type = 'K';
        for (uint32_t n : to_ack) {
          p.data += util::be(n, 4);
        }
        to_ack.clear();
        made = make(p, false);
      } else if (!queue.empty()) {
        packet p = queue.front();
        queue.pop_front();
        made = make(p, true);
      }
      MC_CHECK(made.size() <= size, "size", "no room for a packet");
      memcpy(dest, made.data(), made.size());
      return static_cast<ssize_t>(made.size());
    };
    transport.open = [this](bool) { return server_hello ? 0 : NGTCP2_ERR_STREAM_ID_BLOCKED; };
    transport.write_stream = [this](const offer &o) {
      answer a;
      packet p;
      p.type = 'D';
      p.id = static_cast<uint8_t>(o.id);
      p.offset = static_cast<uint32_t>(transport.connection->streams[o.id].accepted_bytes);
      p.data = o.data.substr(0, ROOM);
      p.fin = o.fin && p.data.size() == o.data.size();
      a.taken = static_cast<ssize_t>(p.data.size());
      a.packet = make(p, true);
      return a;
    };
    transport.read_pkt = [this](const bytes &b) { return read(b); };
    transport.call = [this](const std::string &what) {
      if (what == "loss timer") {
        MC_CHECK(transport.loss_expiry <= now() * NS, "loss-early", "the loss timer was run before it expired");
        backoff++;
        for (auto it = flights.begin(); it != flights.end();) {
          if (!it->second.acked) {
            queue.push_back(it->second.p);
            it = flights.erase(it);
          } else {
            ++it;
          }
        }
        arm();
      } else if (what == "ack timer") {
        MC_CHECK(transport.ack_expiry <= now() * NS, "ack-early", "the ack timer was run before it expired");
        transport.ack_expiry = UINT64_MAX;
        arm();
      }
      return 0;
    };
    sys.answer = [this](const char *call, int) { return system(call); };
    sd.turn = [this]() { turn(); };
  }

  int read(const bytes &datagram)
  {
    ngtcp2_conn *c = transport.connection;
    packet p = packet::decode(datagram);
    MC_CHECK(pending_reads.size() > 0 && pending_reads.front() == datagram, "read",
             "the transport was given another datagram than the one that arrived");
    pending_reads.erase(pending_reads.begin());
    if (corrupt && p.type == 'R' && p.id == 0) {
      failed = true;
      return NGTCP2_ERR_PROTO;
    }
    if (p.type == 'S') {
      to_ack.push_back(p.number);
      server_hello_ack(p);
      if (!server_hello) {
        if (handshake_error != 0) {
          failed = true;
          return handshake_error;
        }
        server_hello = true;
        tls.cipher = 0x03001301U;
        c->completed = true;
        packet f;
        f.type = 'F';
        queue.push_back(f);
      }
      if (transport.ack_expiry == UINT64_MAX) {
        transport.ack_expiry = (now() + 25 * MS) * NS + extra;
      }
      arm();
      return 0;
    }
    if (p.type == 'A') {
      server_hello_ack(p);
      for (size_t i = 0; i + 4 <= p.data.size(); i += 4) {
        uint32_t n = 0;
        for (size_t j = 0; j < 4; j++) {
          n = n << 8 | static_cast<uint8_t>(p.data[i + j]);
        }
        acknowledge(n);
      }
      arm();
      return 0;
    }
    if (p.type == 'M') {
      // Resets the stream.
      return c->callbacks.stream_reset == nullptr
               ? 0
               : c->callbacks.stream_reset(c, p.id, p.offset, 0x0102, c->user_data, nullptr);
    }
    if (!server_hello) {
      return 0; // There are no keys for it yet.
    }
    to_ack.push_back(p.number);
    if (transport.ack_expiry == UINT64_MAX) {
      transport.ack_expiry = (now() + 25 * MS) * NS + extra;
    }
    arm();
    for (const packet &piece : streams[p.id].add(p)) {
      // In memory that's gone afterwards.
      std::vector<uint8_t> copy(piece.data.begin(), piece.data.end());
      int rv = c->callbacks.recv_stream_data(c, piece.id, piece.fin ? 1 : 0, piece.offset, copy.data(), copy.size(),
                                             c->user_data, nullptr);
      MC_CHECK(rv == 0, "stream-data", "stream data wasn't taken");
    }
    return 0;
  }

  // A packet of the server says which of the client's it got.
  void server_hello_ack(const packet &p)
  {
    if (p.acked != 0) {
      acknowledge(p.acked);
    }
  }

  void acknowledge(uint32_t n)
  {
    auto it = flights.find(n);
    if (it == flights.end() || it->second.acked) {
      return;
    }
    it->second.acked = true;
    backoff = 0;
    for (;;) {
      // Tell of what is acknowledged without a gap.
      bool more = false;
      for (auto entry = flights.begin(); entry != flights.end(); ++entry) {
        const packet &p = entry->second.p;
        if (entry->second.acked && p.type == 'D' && p.offset == acked_prefix[p.id]) {
          acked_prefix[p.id] += static_cast<uint32_t>(p.data.size());
          int rv = fake_ngtcp2::ack_stream(p.id, p.data.size());
          MC_CHECK(rv == 0, "ack", "an acknowledgement wasn't taken");
          flights.erase(entry);
          more = true;
          break;
        }
      }
      if (!more) {
        break;
      }
    }
  }

  // The system.

  int system(const char *call)
  {
    bytes c = call;
    if (c == fault_call && --fault_in == 0) {
      failed = true;
      return fault;
    }
    if (c == "send") {
      if (!running) {
        return 0;
      }
      if (b.take(b.full, "socket full")) {
        full = was_full = true;
        return EAGAIN;
      }
      full = false;
    }
    return 0;
  }

public:
  bytes fault_call;
  int fault_in = 0;
  int fault = 0;

private:
  FILE *files[2] = {};

  // Logs although the program's output goes elsewhere.
  template<class... Arguments>
  void say(const char *format, Arguments... arguments)
  {
    std::swap(stdout, files[0]);
    mc::log(format, arguments...);
    std::swap(stdout, files[0]);
  }

  static bytes show(const bytes &datagram)
  {
    packet p = packet::decode(datagram);
    return bytes(1, p.type) + " " + std::to_string(p.number) + " (stream " + std::to_string(p.id) + " at " +
           std::to_string(p.offset) + ", " + std::to_string(p.data.size()) + " bytes" + (p.fin ? ", FIN)" : ")");
  }

  // The server.

  struct out {
    packet p;
    bool acked = false;
  };
  std::deque<bytes> wire; // Datagrams on their way to the client.
  std::map<uint32_t, out> unacked;
  uint32_t server_number = 1;
  uint64_t server_timer = UINT64_MAX;
  bool hello = false;
  bool everything = false;
  std::vector<uint32_t> answers_;
  std::vector<bytes> pending_reads;
  int server_backoff = 0;

  void transmit(packet p)
  {
    if (mute.find(p.type) != bytes::npos) {
      return;
    }
    p.number = server_number++;
    if (p.type != 'A' && p.type != 'M') {
      unacked[p.number].p = p;
      server_timer = now() + (3 * PTO << server_backoff);
    }
    if (b.take(b.losses, "lose the server's datagram")) {
      return;
    }
    wire.push_back(p.encode());
    say("  server sends %s", show(wire.back()).c_str());
  }

  void send_settings()
  {
    // The control stream and, maybe, streams of QPACK.
    std::map<int, uint32_t> offsets;
    for (const auto &piece : answer_.pieces) {
      if (piece.first != 0) {
        packet p;
        p.type = 'R';
        p.id = static_cast<decltype(p.id)>(piece.first);
        p.offset = offsets[piece.first];
        p.data = piece.second;
        p.fin = piece.first == 3 && fin_control;
        transmit(p);
        offsets[piece.first] += static_cast<uint32_t>(piece.second.size());
      }
    }
  }

  void server(const packet &p)
  {
    bytes acks;
    switch (p.type) {
      case 'I': {
        packet s;
        s.type = 'S';
        s.acked = p.number;
        if (!hello) {
          hello = true;
          transmit(s);
          send_settings();
        } else {
          packet a;
          a.type = 'A';
          a.data = util::be(p.number, 4);
          transmit(a);
        }
        return;
      }
      case 'K':
        for (size_t i = 0; i + 4 <= p.data.size(); i += 4) {
          uint32_t n = 0;
          for (size_t j = 0; j < 4; j++) {
            n = n << 8 | static_cast<uint8_t>(p.data[i + j]);
          }
          unacked.erase(n);
          server_backoff = 0;
        }
        if (unacked.empty()) {
          server_timer = UINT64_MAX;
        }
        return;
      case 'F':
        break;
      case 'D': {
        auto it = received[p.id].find(p.offset);
        MC_CHECK(it == received[p.id].end() || it->second.data == p.data || p.data.empty() || it->second.data.empty(),
                 "resent", "stream %d: other bytes were sent again at %u", p.id, p.offset);
        MC_CHECK(p.id == 0 || p.id == 2 || p.id == 6 || p.id == 10, "stream", "data of stream %d was sent", p.id);
        if (it == received[p.id].end() || it->second.data.empty()) {
          received[p.id][p.offset] = p;
        }
        break;
      }
      default:
        mc::fail("packet", "the client sent a packet of type %d", p.type);
    }
    answers_.push_back(p.number);
    if (!everything && complete(0)) {
      everything = true;
      respond();
    }
  }

  // Whether a stream arrived completely.
  bool complete(int id)
  {
    uint32_t at = 0;
    for (auto &entry : received[id]) {
      if (entry.first != at) {
        return false;
      }
      at += static_cast<uint32_t>(entry.second.data.size());
      if (entry.second.fin) {
        return true;
      }
    }
    return false;
  }

  void respond()
  {
    packet p;
    p.type = 'R';
    p.id = 0;
    size_t last = 0;
    for (size_t i = 0; i < answer_.pieces.size(); i++) {
      last = answer_.pieces[i].first == 0 ? i : last;
    }
    for (size_t i = 0; i < answer_.pieces.size(); i++) {
      if (answer_.pieces[i].first != 0) {
        continue;
      }
      p.data = answer_.pieces[i].second;
      p.fin = i == last && answer_.fin && !reset_;
      transmit(p);
      p.offset += static_cast<uint32_t>(p.data.size());
    }
    if (reset_) {
      failed = true;
      p.type = 'M';
      p.data.clear();
      transmit(p);
    }
    answered = true;
  }

  void server_late()
  {
    server_timer = UINT64_MAX;
    server_backoff++;
    std::map<uint32_t, out> again;
    again.swap(unacked);
    if (server_backoff > 4) {
      return;
    }
    for (auto &entry : again) {
      entry.second.p.acked = 0;
      transmit(entry.second.p);
    }
  }

  // The network takes what the client sent.
  void collect()
  {
    for (auto &entry : sys.descriptors) {
      std::vector<bytes> &sent = entry.second.sent;
      for (; arrived < sent.size(); arrived++) {
        last_activity = now();
        say("  client sent %s", show(sent[arrived]).c_str());
        MC_CHECK(arrived < produced.size() && sent[arrived] == produced[arrived], "sent",
                 "datagram %zu sent isn't the packet the transport made", arrived);
        packet p = packet::decode(sent[arrived]);
        if (p.type == 'D' && p.id == 2) {
          control_[p.offset] = p;
        }
        if (!b.take(b.losses, "lose the client's datagram")) {
          server(p);
        }
      }
    }
    if (!answers_.empty()) {
      packet a;
      a.type = 'A';
      for (uint32_t n : answers_) {
        a.data += util::be(n, 4);
      }
      answers_.clear();
      transmit(a);
    }
  }

  // The loop.

  sd_event_source *io()
  {
    for (auto &s : sd.sources) {
      if (s->kind == sd_event_source::io && s->references > 0 && s->enabled != SD_EVENT_OFF) {
        return s.get();
      }
    }
    return nullptr;
  }

  sd_event_source *timer()
  {
    sd_event_source *first = nullptr;
    for (auto &s : sd.sources) {
      if (s->kind == sd_event_source::time && s->references > 0 && s->enabled != SD_EVENT_OFF &&
          (first == nullptr || s->at < first->at)) {
        first = s.get();
      }
    }
    return first;
  }

  bool writable = true; // An edge that wasn't reported yet.

  void turn()
  {
    if (turns == 0) {
      started = now();
      tls_host = tls.ssl->host;
    }
    MC_CHECK(++turns < 200, "endless", "the client doesn't end");
    mc::step();
    check_time();
    sd_event_source *watch = io();
    sd_event_source *first = timer();
    uint64_t deadline = first == nullptr ? UINT64_MAX : first->at;
    uint64_t before = now();

    enum { WRITE, DELIVER, SERVER, TIMER, ERROR } what;
    uint64_t at = UINT64_MAX;
    if (watch != nullptr && fault_call == "pending" && --fault_in == 0) {
      what = ERROR;
      at = now() + 1;
    } else if (watch != nullptr && writable) {
      what = WRITE;
      at = now() + 1;
      if (!wire.empty() && mc::choose(2, "a datagram arrives before the socket is writable") == 1) {
        what = DELIVER;
        at = now() + TRIP;
      }
    } else if (!wire.empty()) {
      what = DELIVER;
      at = now() + TRIP;
      if (b.take(b.slow, "slow datagram")) {
        at = now() + 3 * PTO;
      }
    } else if (server_timer != UINT64_MAX) {
      what = SERVER;
      at = server_timer > now() ? server_timer : now();
    } else {
      what = TIMER;
    }
    if (deadline <= at) {
      what = TIMER;
      at = deadline;
    }
    MC_CHECK(at != UINT64_MAX, "hang", "nothing can happen any more");
    // The clock never stands still.
    sd.now = at > now() ? at : now() + 1;

    static const char *const names[] = { "writable", "datagrams arrive", "the server sends again", "timer",
                                         "an error is pending" };
    say("%lu us: %s", now(), names[what]);
    bool ok = true;
    full = false;
    switch (what) {
      case WRITE:
        writable = false;
        ok = fake_sd::dispatch_io(watch, EPOLLOUT);
        break;
      case DELIVER: {
        size_t n = 1;
        if (wire.size() > 1) {
          n = together ? wire.size() : 1;
          if (b.take(b.reorder, "datagrams change places")) {
            std::swap(wire[0], wire[1]);
          }
        }
        if (watch == nullptr) {
          wire.erase(wire.begin(), wire.begin() + static_cast<ptrdiff_t>(n));
          return;
        }
        fake_os::descriptor &d = sys.at(watch->fd);
        for (size_t i = 0; i < n; i++) {
          d.in.push_back(wire.front());
          pending_reads.push_back(wire.front());
          wire.pop_front();
        }
        last_activity = now();
        // The socket is still writable, and epoll says so.
        uint32_t events = EPOLLIN;
        if (writable || both) {
          events |= EPOLLOUT;
        }
        writable = false;
        ok = fake_sd::dispatch_io(watch, events);
        MC_CHECK(failed || !answer_.good || sd.exiting || d.in.empty(), "unread", "a datagram was left unread");
        break;
      }
      case SERVER:
        server_late();
        return;
      case TIMER:
        ok = fake_sd::dispatch_time(first);
        break;
      case ERROR: {
        // Like a message that says that the port is closed.
        failed = true;
        sys.at(watch->fd).pending = fault;
        uint32_t events = EPOLLERR;
        if (writable || mc::choose(2, "the socket is writable, too") == 1) {
          events |= EPOLLOUT;
        }
        writable = false;
        ok = fake_sd::dispatch_io(watch, events);
        MC_CHECK(sys.descriptors.count(watch->fd) == 0 || sys.at(watch->fd).pending == 0, "pending",
                 "the error of the socket wasn't looked at");
        break;
      }
    }
    check_time();
    fake_ngtcp2::check_kept("after a turn");
    if (!ok) {
      MC_CHECK(failed || !answer_.good, "failure", "a handler failed although nothing went wrong");
      failed = true;
    }
    if (full) {
      writable = true;
    }
    (void) before;
    collect();
    previous = ended;
    ended = now();
    if (!sd.exiting && !failed && answer_.good) {
      check_turn();
    }
    if (!ok || sd.exiting) {
      return;
    }
  }

  void check_turn()
  {
    // Everything the transport wants to send was sent, unless the socket is full.
    size_t sent = 0;
    for (auto &entry : sys.descriptors) {
      sent += entry.second.sent.size();
    }
    MC_CHECK(full || writable || sent == produced.size(), "unsent", "%zu packets were made but not sent",
             produced.size() - sent);
    MC_CHECK(full || writable || (queue.empty() && (to_ack.empty() || transport.ack_expiry != UINT64_MAX)), "unsent",
             "the transport wasn't asked for the packets it has");
    if (server_hello && !full && !writable) {
      MC_CHECK(transport.connection->streams[0].fin, "unsent", "the request wasn't sent");
      MC_CHECK(transport.connection->streams[2].accepted_bytes > 0, "unsent", "the settings weren't sent");
    }
    // The loop wakes up when the transport has something to do.
    sd_event_source *first = timer();
    MC_CHECK(first != nullptr, "timer", "no timer is set");
    uint64_t idle_first = last_activity + IDLE, idle_last = now() + IDLE;
    uint64_t at = first->at;
    if (transport.expiry != UINT64_MAX && initial) {
      uint64_t early = transport.expiry / NS, late = (transport.expiry + NS - 1) / NS;
      late = late > now() ? late : now();
      MC_CHECK(at <= late, "timer", "the transport expires at %lu us, the client wakes up at %lu us", early, at);
      MC_CHECK(at >= early || at >= idle_first, "timer", "the transport expires at %lu us, the client wakes up at %lu us",
               early, at);
    } else if (initial) {
      MC_CHECK(at >= idle_first, "timer", "the client wakes up at %lu us for nothing", at);
    }
    // And there is one for the idle timeout.
    bool idle = false;
    for (auto &s : sd.sources) {
      idle = idle || (s->kind == sd_event_source::time && s->references > 0 && s->enabled != SD_EVENT_OFF &&
                      s->at >= idle_first && s->at <= idle_last);
    }
    MC_CHECK(!initial || idle, "idle-timer", "no timer is set for the idle timeout");
  }
};

// Responses

bytes
expected_output(const response &r)
{
  bytes out;
  for (const ref::field &f : r.headers) {
    out += f.first + ": " + f.second + "\n";
  }
  return out + "\n" + r.body;
}

bytes
settings()
{
  return bytes(1, '\0') + conn::frame(ref::SETTINGS, "");
}

// Splits the message's bytes at the given sizes.
response
make(const char *name, std::vector<ref::field> headers, std::vector<bytes> bodies, std::vector<size_t> cuts,
     bool settings_last = false)
{
  response r;
  r.name = name;
  r.headers = headers;
  bytes message = conn::headers(headers);
  for (const bytes &b : bodies) {
    message += conn::data(b);
    r.body += b;
  }
  if (!settings_last) {
    r.pieces.push_back({ 3, settings() });
  }
  size_t at = 0;
  for (size_t c : cuts) {
    r.pieces.push_back({ 0, message.substr(at, c) });
    at += c;
  }
  r.pieces.push_back({ 0, message.substr(at) });
  return r;
}

std::vector<response>
responses()
{
  std::vector<response> r;
  ref::field ok{ ":status", "200" };
  r.push_back(make("headers and body", { ok, { "content-type", "text/html" } }, { "<html></html>\n" }, {}));
  r.push_back(make("no body", { ok }, {}, {}));
  r.push_back(make("two datagrams", { ok, { "a", "b" } }, { "first", "second" }, { 8 }));
  r.push_back(make("three datagrams", { ok, { "a", "b" } }, { conn::body(40), "", conn::body(33, 1) }, { 3, 30 }));
  response last = make("the FIN on its own", { ok }, { "xyz" }, { 9 });
  bytes rest = last.pieces.back().second;
  last.pieces.back().second = "";
  last.pieces[last.pieces.size() - 2].second += rest;
  r.push_back(last);
  r.push_back(make("binary body", { ok }, { bytes("\0\n\0%\xff{}\r\n", 9) }, {}));
  r.push_back(make("no settings", { ok }, { "x" }, {}, true));
  response split = make("settings in two datagrams", { ok }, { "x" }, {}, true);
  split.pieces.insert(split.pieces.begin(), { { 3, settings().substr(0, 1) }, { 3, settings().substr(1) } });
  r.push_back(split);
  return r;
}

// Other messages: every kind of header and body, cut into pieces in many ways.
response
other(size_t shape, size_t chunk)
{
  using fields = std::vector<ref::field>;
  fields many{ { ":status", "200" } };
  for (int i = 0; i < 300; i++) {
    many.push_back({ "x-" + std::to_string(i), std::string(static_cast<size_t>(i % 60) * 3, 'v') });
  }
  static const size_t sizes[] = { 1, 19, 20, 21, 63, 64, 16383, 16384, 70000 };
  ref::field ok{ ":status", "200" };
  bytes greased = ref::varint(0x21) + ref::varint(5) + "grease";
  greased.resize(greased.size() - 1);
  bytes empty = ref::varint(0x1f * 7 + 0x21) + ref::varint(0);
  response r;
  r.name = "other";
  bytes message;
  auto simple = [&](fields f, std::vector<bytes> bodies) {
    r.headers = f;
    message += conn::headers(f);
    for (const bytes &b : bodies) {
      message += conn::data(b);
      r.body += b;
    }
  };
  std::vector<std::pair<int, bytes>> others;
  bytes control = settings();
  switch (shape) {
    case 0:
      simple({ { ":status", "404" } }, { "not found" });
      break;
    case 1:
      simple({ ok, { "x-empty", "" }, { "x-last", "1" } }, { "b" });
      break;
    case 2:
      simple({ ok, { "x", "{} {0} %s %n {" }, { "y-{}", "}" } }, { "{}%s" });
      break;
    case 3:
      simple({ ok, { "set-cookie", "a=1" }, { "set-cookie", "b=2" }, { "set-cookie", "a=1" } }, { "b" });
      break;
    case 4:
      simple(many, { "b" });
      break;
    case 5:
      simple({ ok, { std::string(200, 'n'), std::string(5000, '~') }, { "x", bytes("\x80\xff\0z", 4) } }, { "b" });
      break;
    case 6:
      simple({ ok }, { "", "", "a", "", "b", "" });
      break;
    case 7:
      message += greased;
      simple({ ok }, {});
      message += empty + conn::data("one") + greased + conn::data("two") + empty + greased;
      r.body = "onetwo";
      break;
    case 8:
      others = { { 7, bytes(1, '\x02') }, { 11, bytes(1, '\x03') }, { 7, "anything" }, { 15, ref::varint(0x40) + "x" } };
      simple({ ok }, { "b" });
      break;
    case 9:
      control += greased + empty;
      simple({ { ":status", "500" }, { "server", "x" } }, { "b" });
      break;
    case 10:
      control = bytes(1, '\0') + conn::frame(ref::SETTINGS, ref::setting(6, 16384) + ref::setting(1, 0) +
                                                               ref::setting(7, 100) + ref::setting(0x4a4a, 9));
      simple({ ok }, { "b" });
      break;
    default:
      simple({ ok, { "content-length", std::to_string(sizes[shape - 11]) } }, { conn::body(sizes[shape - 11]) });
      break;
  }
  r.pieces.push_back({ 3, control });
  r.pieces.insert(r.pieces.end(), others.begin(), others.end());
  for (size_t at = 0; at < message.size(); at += chunk) {
    r.pieces.push_back({ 0, message.substr(at, chunk) });
  }
  return r;
}

void
style(world *w)
{
  switch (mc::choose(3, "style")) {
    case 0:
      break;
    case 1:
      w->together = w->both = true;
      break;
    case 2:
      w->both = true;
      w->extra = 999;
      break;
  }
}

uint64_t
summary(const world &w, int status)
{
  return mc::hasher()
    .add(static_cast<uint64_t>(status))
    .add(w.output)
    .add(static_cast<uint64_t>(w.turns))
    .add(w.ended - w.started);
}

void
exchange()
{
  world w;
  std::vector<response> all = responses();
  w.answer_ = mc::pick(all, "response");
  style(&w);
  w.b.left = mc::thorough() ? 3 : 2;
  w.b.losses = w.b.full = w.b.left;
  w.b.slow = w.b.reorder = 1;
  int status = w.run({ "bnl-quic-client", "example.org", "443" });
  mc::log("%s: status %d after %d turns, output %s", w.answer_.name, status, w.turns, mc::hex(w.output, 60).c_str());
  MC_CHECK(status == 0, "status", "%s: the exit status is %d", w.answer_.name, status);
  bytes expected = expected_output(w.answer_);
  MC_CHECK(w.output == expected, "output", "%s: %zu bytes were printed, not %zu: %s instead of %s", w.answer_.name,
           w.output.size(), expected.size(), mc::hex(w.output, 60).c_str(), mc::hex(expected, 60).c_str());
  w.check_request("example.org");
  w.check_end();
  mc::outcome(summary(w, status));
}

// Many other responses.
void
contents()
{
  world w;
  size_t shape = static_cast<size_t>(mc::choose(20, "response"));
  static const size_t chunks[] = { 1, 2, 7, 500, 1100 };
  size_t chunk = chunks[mc::choose(5, "pieces")];
  w.answer_ = other(shape, chunk);
  if (w.answer_.pieces.size() > 110) {
    return; // One datagram each.
  }
  style(&w);
  w.b.left = mc::thorough() ? 2 : 1;
  w.b.losses = w.b.full = w.b.slow = w.b.reorder = 1;
  int status = w.run({ "bnl-quic-client", "example.org", "443" });
  mc::log("response %zu in pieces of %zu: status %d, %zu bytes of output", shape, chunk, status, w.output.size());
  MC_CHECK(status == 0, "status", "the exit status is %d", status);
  bytes expected = expected_output(w.answer_);
  MC_CHECK(w.output == expected, "output", "%zu bytes were printed, not %zu: %s instead of %s", w.output.size(),
           expected.size(), mc::hex(w.output, 60).c_str(), mc::hex(expected, 60).c_str());
  w.check_request("example.org");
  w.check_end();
  mc::outcome(summary(w, status));
}

// A server that stops answering.
void
silence()
{
  world w;
  std::vector<response> all = responses();
  int stage = mc::choose(5, "answers");
  w.answer_ = mc::pick(all, "response");
  style(&w);
  switch (stage) {
    case 0: // Nothing at all.
      w.mute = "SRAM";
      break;
    case 1: // Only the handshake.
      w.mute = "RAM";
      break;
    case 2: // Acknowledgements and settings.
      for (auto it = w.answer_.pieces.begin(); it != w.answer_.pieces.end();) {
        it = it->first == 0 ? w.answer_.pieces.erase(it) : it + 1;
      }
      break;
    case 3: // Everything but the end.
      w.answer_.fin = false;
      break;
    case 4: // The first datagram of the response only.
      for (size_t i = 0, seen = 0; i < w.answer_.pieces.size();) {
        if (w.answer_.pieces[i].first == 0 && seen++ > 0) {
          w.answer_.pieces.erase(w.answer_.pieces.begin() + static_cast<ptrdiff_t>(i));
        } else {
          i++;
        }
      }
      w.answer_.fin = false;
      break;
  }
  w.b.left = mc::thorough() ? 2 : 1;
  w.b.losses = w.b.full = w.b.left;
  w.b.slow = w.b.reorder = 1;
  int status = w.run({ "bnl-quic-client", "example.org", "443" });
  mc::log("%s: status %d after %lu us", w.answer_.name, status, w.ended - w.started);
  MC_CHECK(status != 0, "status", "%s: the exit status is 0 although the response never ended", w.answer_.name);
  MC_CHECK(w.ended >= w.last_activity + IDLE, "early", "the client gave up %lu us after the last datagram",
           w.ended - w.last_activity);
  MC_CHECK(w.ended <= w.previous + IDLE + 1, "late", "the client gave up %lu us after it last did something",
           w.ended - w.previous);
  w.check_end();
  mc::outcome(summary(w, status));
}

// Servers that break the rules, and failures on the way.
void
broken()
{
  world w;
  std::vector<response> all = responses();
  w.answer_ = all[2];
  static const char *const names[] = { "reset", "corrupt datagram", "TLS fails", "DATA first", "GOAWAY in the response",
                                       "header block cut short", "frame cut short", "end without headers",
                                       "no SETTINGS", "SETTINGS twice", "control stream closed",
                                       "static index out of range", "SETTINGS in the response" };
  int kind = mc::choose(sizeof(names) / sizeof(*names), "kind");
  style(&w);
  w.answer_.good = false;
  ref::field ok{ ":status", "200" };
  bytes good = conn::headers({ ok }) + conn::data("xyz");
  bytes control = settings();
  bytes message;
  bool response_is_bad = true;
  switch (kind) {
    case 0:
      w.reset_ = true;
      break;
    case 1:
      w.corrupt = true;
      break;
    case 2:
      w.handshake_error = NGTCP2_ERR_CRYPTO;
      break;
    case 3:
      message = conn::data("x") + good;
      break;
    case 4:
      message = conn::headers({ ok }) + conn::frame(ref::GOAWAY, ref::varint(0)) + conn::data("x");
      break;
    case 5:
      message = conn::frame(ref::HEADERS, bytes("\0\0\x51\x05/x", 6));
      break;
    case 6:
      message = good.substr(0, good.size() - 1);
      break;
    case 7:
      message = conn::frame(0x21, "u");
      break;
    case 8:
      control = bytes(1, '\0') + conn::frame(ref::GOAWAY, ref::varint(0));
      break;
    case 9:
      control += conn::frame(ref::SETTINGS, "");
      break;
    case 10:
      w.fin_control = true;
      break;
    case 11:
      message = conn::frame(ref::HEADERS, bytes("\0\0\xff\x24", 4));
      break;
    case 12:
      message = conn::headers({ ok }) + conn::frame(ref::SETTINGS, "") + conn::data("x");
      break;
  }
  if (message.empty()) {
    response_is_bad = kind < 3;
    if (kind >= 3) {
      w.answer_ = make("good", { ok }, { "xyz" }, { 3 });
      w.answer_.good = false;
    }
  } else {
    size_t cut = mc::choose(2, "pieces") == 0 ? message.size() : message.size() / 2;
    w.answer_.pieces = { { 3, control }, { 0, message.substr(0, cut) } };
    if (cut < message.size()) {
      w.answer_.pieces.push_back({ 0, message.substr(cut) });
    }
  }
  w.answer_.pieces[0] = { 3, control };
  w.b.left = w.b.losses = mc::thorough() ? 2 : 1;
  w.b.reorder = 1;
  int status = w.run({ "bnl-quic-client", "example.org", "443" });
  mc::log("%s: status %d after %lu us, output %s", names[kind], status, w.ended - w.started,
          mc::hex(w.output, 40).c_str());
  if (response_is_bad) {
    MC_CHECK(status != 0, "status", "%s: the exit status is 0", names[kind]);
  } else if (status == 0) {
    MC_CHECK(w.output == expected_output(w.answer_), "output", "%s: the exit status is 0, but the output is %s",
             names[kind], mc::hex(w.output, 60).c_str());
  }
  w.check_end();
  mc::outcome(mc::hasher().add(names[kind]).add(summary(w, status)));
}

// System calls that fail while the client runs.
void
failing()
{
  world w;
  std::vector<response> all = responses();
  w.answer_ = all[3];
  style(&w);
  static const char *const calls[] = { "send", "recv", "pending" };
  w.fault_call = calls[mc::choose(3, "call")];
  w.fault_in = mc::choose(12, "which") + 1;
  std::vector<int> faults{ ECONNREFUSED, ENOBUFS };
  if (mc::thorough()) {
    faults.insert(faults.end(), { ENETUNREACH, EPERM, EBADF, EIO });
  }
  w.fault = mc::pick(faults, "fault");
  w.b.left = w.b.losses = w.b.full = mc::thorough() ? 2 : 1;
  int status = w.run({ "bnl-quic-client", "example.org", "443" });
  mc::log("call %d of %s fails: status %d after %lu us", w.fault_in, w.fault_call.c_str(), status, w.ended - w.started);
  MC_CHECK(w.failed || status == 0, "status", "nothing failed, but the exit status is %d", status);
  if (status == 0) {
    MC_CHECK(w.output == expected_output(w.answer_), "output", "the exit status is 0, but the output is %s",
             mc::hex(w.output, 60).c_str());
  }
  w.check_end();
  mc::outcome(mc::hasher().add(w.fault_call).add(summary(w, status)));
}

// Arguments, the resolver, and system calls that fail before the loop runs.
void
startup()
{
  world w;
  w.answer_ = responses()[0];
  struct text {
    const char *port;
    int value; // -1: refused.
  };
  static const text ports[] = {
    { "443", 443 },     { "1", 1 },        { "65535", 65535 },          { "4433", 4433 }, { "080", 80 },
    { "65536", -1 },    { "65979", -1 },   { "4294967739", -1 },        { "", -1 },       { "x", -1 },
    { "https", -1 },    { "443x", -1 },    { "-1", -1 },                { "-65093", -1 }, { "18446744073709552059", -1 },
    { "99999999999999999999", -1 }, { "4 43", -1 }, { "1e2", -1 }, { "0x1bb", -1 },
  };
  static const char *const hosts[] = { "example.org", "localhost", "a.very.long.name.of.a.host.example.org", "h" };
  static const std::vector<std::vector<fake_os::state::resolved>> lists = {
    { { AF_INET, bytes("\xc6\x33\x64\x07", 4) } },
    { { AF_INET, bytes("\x7f\x00\x00\x01", 4) }, { AF_INET, bytes("\xc6\x33\x64\x07", 4) } },
    { { AF_INET6, bytes("\x20\x01\x0d\xb8\0\0\0\0\0\0\0\0\0\0\0\x01", 16) }, { AF_INET, bytes("\xc6\x33\x64\x07", 4) } },
    {},
  };
  int arguments = mc::choose(3, "arguments");
  const text &port = ports[mc::choose(sizeof(ports) / sizeof(*ports), "port")];
  const char *host = hosts[mc::choose(sizeof(hosts) / sizeof(*hosts), "host")];
  sys.addresses = mc::pick(lists, "addresses");
  bool v6 = !sys.addresses.empty() && sys.addresses[0].family == AF_INET6;
  sys.local = v6 ? sys.addresses[0].bytes : bytes("\xc0\x00\x02\x01", 4);
  int fault = mc::choose(8, "fault");
  bool fails = false;
  switch (fault) {
    case 1:
      sys.resolve_error = EAI_NONAME;
      fails = true;
      break;
    case 2:
      sys.resolve_error = EAI_SYSTEM;
      sys.resolve_errno = ENOMEM;
      fails = true;
      break;
    case 3:
      sys.resolve_error = EAI_AGAIN;
      fails = true;
      break;
    case 4:
    case 5:
    case 6: {
      static const char *const calls[] = { "socket", "connect", "setsockopt" };
      w.fault_call = calls[fault - 4];
      w.fault_in = 1;
      w.fault = fault == 4 ? EMFILE : fault == 5 ? ENETUNREACH : EACCES;
      fails = true;
      break;
    }
  }
  std::vector<const char *> argv = { "bnl-quic-client" };
  if (arguments < 2) {
    argv.push_back(host);
  }
  if (arguments < 1) {
    argv.push_back(port.port);
  }
  bool runs = arguments == 0 && port.value >= 0 && !sys.addresses.empty() && !fails;
  int status = w.run(argv);
  mc::log("%zu arguments, port \"%s\", fault %d: status %d", argv.size() - 1, port.port, fault, status);
  if (runs) {
    MC_CHECK(status == 0, "status", "host %s, port \"%s\": the exit status is %d", host, port.port, status);
    MC_CHECK(w.output == expected_output(w.answer_), "output", "host %s: the output isn't the response", host);
    MC_CHECK(sys.resolved_name == host, "host", "%s was resolved, not %s", sys.resolved_name.c_str(), host);
    MC_CHECK(w.tls_host == host, "host", "the server was asked for as %s, not %s", w.tls_host.c_str(), host);
    MC_CHECK(sys.descriptors.size() == 1, "sockets", "%zu sockets were made", sys.descriptors.size());
    fake_os::descriptor &d = sys.descriptors.begin()->second;
    MC_CHECK(d.peer == sys.addresses[0].bytes && d.family == sys.addresses[0].family, "peer",
             "the first address wasn't used");
    MC_CHECK(d.peer_port == port.value, "port", "port \"%s\": datagrams are sent to port %d", port.port, d.peer_port);
    w.check_request(host);
    w.check_end();
  } else {
    MC_CHECK(status != 0, "status", "%zu arguments, port \"%s\", fault %d: the exit status is 0", argv.size() - 1,
             port.port, fault);
    for (auto &entry : sys.descriptors) {
      MC_CHECK(entry.second.sent.empty(), "sent", "port \"%s\", fault %d: datagrams were sent to port %d", port.port,
               fault, entry.second.peer_port);
    }
    // An exception ends the program, so it leaves nothing behind in any case.
    if (status >= 0) {
      w.check_end();
    }
  }
  mc::outcome(mc::hasher().add(static_cast<uint64_t>(status)).add(port.port).add(host).add(w.output));
}

}

int
main(int argc, char **argv)
{
  return mc::run(
    argc, argv,
    { { "exchange",
        "8 responses x 3 styles of arrival x up to 2 (thorough: 3) lost datagrams of either side, full sockets, slow or "
        "reordered datagrams, at every place",
        exchange, 4 },
      { "contents",
        "20 other responses (headers, bodies up to 70000 bytes, unknown frames, settings, streams of QPACK) x pieces of 5 sizes x 3 "
        "styles x 1 (thorough: 2) of the same at every place",
        contents, 3 },
      { "silence",
        "5 stages at which the server falls silent x 8 responses x 3 styles x 1 (thorough: 2) of the same at every place",
        silence, 3 },
      { "broken",
        "13 ways to break the protocol x pieces x 3 styles x 1 (thorough: 2) lost or reordered datagrams at every place",
        broken, 3 },
      { "failing",
        "each of the first 12 sends and receives failing in 2 (thorough: 6) ways x 3 styles x 1 (thorough: 2) lost datagrams or full "
        "sockets at every place",
        failing, 4 },
      { "startup",
        "missing arguments x 19 port texts x 4 hosts x 4 results of the resolver x 8 failures (resolver, system calls)",
        startup, 3 } });
}

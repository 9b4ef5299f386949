// C26: stream data is sent once, in order, and kept until it is acknowledged.
#include "quic.hpp"

using fake_ngtcp2::answer;
using fake_ngtcp2::offer;
using fake_ngtcp2::transport;
using quic::bytes;
namespace q = bnl::quic;

namespace {

// What the application queued on a stream and what became of it.
struct model {
  int64_t id = 0;
  bytes queued;
  bytes last;
  bool used = false;
  bool fin = false;
  size_t accepted = 0;
  bool fin_accepted = false;
  size_t acked = 0;
  bool fin_acked = false;

  bool pending() const { return accepted < queued.size() || (fin && !fin_accepted); }
};

struct world {
  quic::client client;
  std::vector<model> streams;
  int packets = 0;
  // Of the running send().
  std::vector<int64_t> asked;
  bytes packet;
  bool produced = false;
  int fatal = 0;
  bool done = false;
  bool lossy = true; // Whether the answers vary.

  explicit world(size_t n)
  {
    client.complete();
    static const int64_t ids[] = { 0, 2, 4 };
    for (size_t i = 0; i < n; i++) {
      streams.push_back({});
      streams.back().id = ids[i];
    }
    transport.open = [this](bool bidi) { return open(bidi); };
    transport.write_stream = [this](const offer &o) { return write(o); };
  }

  model &at(int64_t id)
  {
    for (model &m : streams) {
      if (m.id == id) {
        return m;
      }
    }
    mc::fail("stream", "data was offered on stream %lld", static_cast<long long>(id));
  }

  int open(bool bidi)
  {
    if (!lossy) {
      return 0;
    }
    int64_t id = bidi ? client.conn->next_bidi : client.conn->next_uni;
    switch (mc::choose(3, "open")) {
      case 1:
        asked.push_back(id);
        mc::log("  open %lld: blocked", static_cast<long long>(id));
        return NGTCP2_ERR_STREAM_ID_BLOCKED;
      case 2:
        asked.push_back(id);
        mc::log("  open %lld: fails", static_cast<long long>(id));
        fatal = NGTCP2_ERR_NOMEM;
        return fatal;
    }
    return 0;
  }

  answer write(const offer &o)
  {
    model &m = at(o.id);
    asked.push_back(o.id);
    mc::log("  offer on %lld: %s%s", static_cast<long long>(o.id), mc::hex(o.data).c_str(), o.fin ? " fin" : "");
    MC_CHECK(!m.fin_accepted, "after-fin", "data was offered after the end of the stream");
    MC_CHECK(m.queued.compare(m.accepted, o.data.size(), o.data) == 0 && o.data.size() <= m.queued.size() - m.accepted,
             "order", "offered %s, but %s is next", mc::hex(o.data).c_str(), mc::hex(m.queued.substr(m.accepted)).c_str());
    bool last = m.accepted + o.data.size() == m.queued.size();
    MC_CHECK(!o.fin || (m.fin && last), "early-fin", "the end was offered with %zu of %zu bytes", o.data.size(),
             m.queued.size() - m.accepted);
    MC_CHECK(o.fin || !o.data.empty(), "empty", "nothing was offered");
    answer a;
    a.packet = "packet " + std::to_string(++packets);
    a.taken = static_cast<ssize_t>(o.data.size());
    if (lossy) {
      int n = o.data.size() > 1 ? 6 : 5;
      switch (mc::choose(n, "answer")) {
        case 1:
          a.taken = answer::NONE;
          break;
        case 2:
          a.taken = answer::NONE;
          a.packet.clear();
          break;
        case 3:
          a.error = NGTCP2_ERR_STREAM_DATA_BLOCKED;
          break;
        case 4:
          a.error = fatal = NGTCP2_ERR_CALLBACK_FAILURE;
          break;
        case 5:
          a.taken = 1;
          break;
      }
    }
    mc::log("  answer: error %d, %zd taken, packet of %zu", a.error, a.taken, a.packet.size());
    if (a.error == 0 && a.taken >= 0) {
      m.accepted += static_cast<size_t>(a.taken);
      m.fin_accepted = o.fin && static_cast<size_t>(a.taken) == o.data.size();
    }
    if (a.error == 0 && !a.packet.empty()) {
      packet = a.packet;
      produced = true;
    }
    return a;
  }

  void add(model &m, int kind, bool fin)
  {
    bytes piece;
    bnl::base::buffer buffer;
    char c = static_cast<char>('a' + m.queued.size() % 23);
    switch (kind) {
      case 0:
        piece = bytes(1, c) + static_cast<char>(c ^ 0x20);
        buffer = util::buf(piece);
        break;
      case 1:
        break;
      case 2:
        piece = bytes(20, c) + "0123456789";
        buffer = util::buf(piece);
        break;
      case 3: // Equal to the one before.
        piece = m.last;
        buffer = util::buf(piece);
        break;
      case 4: // A slice of something larger.
        piece = bytes(1, c) + "slice";
        buffer = util::heap(piece);
        break;
    }
    mc::log("add %s%s to %lld", mc::hex(piece).c_str(), fin ? " fin" : "", static_cast<long long>(m.id));
    auto r = client.add(static_cast<uint64_t>(m.id), std::move(buffer), fin);
    mc::step();
    MC_CHECK(r.has_value(), "add", "add() failed");
    m.queued += piece;
    m.last = piece;
    m.used = true;
    m.fin = fin;
  }

  void send()
  {
    mc::log("send");
    asked.clear();
    produced = false;
    std::vector<int64_t> pending;
    for (const model &m : streams) {
      if (m.pending()) {
        pending.push_back(m.id);
      }
    }
    auto r = client.c->send();
    mc::step();
    if (produced) {
      MC_CHECK(r.has_value(), "lost-packet", "send() didn't return the packet the transport made");
      bytes got = util::str(r.value());
      MC_CHECK(got == packet, "packet", "send() returned %s instead of %s", mc::hex(got).c_str(), mc::hex(packet).c_str());
    } else if (fatal != 0) {
      MC_CHECK(!r && r.error() == q::error::ngtcp2, "fatal", "send() didn't fail when the transport did");
      done = true;
    } else {
      MC_CHECK(!r && r.error() == q::error::idle, "idle", "send() isn't idle without a packet");
      for (int64_t id : pending) {
        bool found = false;
        for (int64_t a : asked) {
          found = found || a == id;
        }
        MC_CHECK(found, "stuck", "send() is idle but stream %lld has data that wasn't offered", static_cast<long long>(id));
      }
    }
    no_misuse();
  }

  void no_misuse()
  {
    MC_CHECK(transport.misuse.empty(), "misuse", "%s", transport.misuse.front().c_str());
  }

  void ack(model &m, size_t size)
  {
    mc::log("ack %zu of %lld", size, static_cast<long long>(m.id));
    int rv = fake_ngtcp2::ack_stream(m.id, size);
    mc::step();
    MC_CHECK(rv == 0, "ack", "the acknowledgement of %zu bytes failed", size);
    m.acked += size;
    if (m.fin_accepted && m.acked == m.accepted) {
      m.fin_acked = true;
    }
  }

  void excess(model &m, size_t more)
  {
    size_t size = m.accepted - m.acked + more;
    mc::log("ack %zu of %lld: too many", size, static_cast<long long>(m.id));
    int rv = client.callbacks().acked_stream_data_offset(client.conn, m.id, m.acked, size, client.conn->user_data, nullptr);
    mc::step();
    MC_CHECK(rv == NGTCP2_ERR_CALLBACK_FAILURE, "excess", "the acknowledgement of %zu bytes too many succeeded", more);
    fake_ngtcp2::check_kept("after an excessive acknowledgement");
    done = true;
  }

  void state()
  {
    mc::hasher h;
    for (const model &m : streams) {
      h.add(m.queued).add(m.accepted).add(m.acked).add((m.fin ? 1 : 0) + (m.fin_accepted ? 2 : 0) + (m.fin_acked ? 4 : 0));
    }
    mc::state(h);
  }

  // Everything is taken from now on.
  void drain(uint64_t baseline)
  {
    lossy = false;
    for (int i = 0; i < 60; i++) {
      send();
      if (!produced) {
        break;
      }
      fake_ngtcp2::check_kept("after sending");
    }
    bool all = true;
    for (model &m : streams) {
      MC_CHECK(m.accepted == m.queued.size(), "incomplete", "%zu of %zu bytes were offered", m.accepted, m.queued.size());
      MC_CHECK(m.fin == m.fin_accepted, "no-fin", "the end of the stream was never offered");
      all = all && (m.fin || !m.used);
    }
    for (model &m : streams) {
      if (m.accepted > m.acked || (m.fin && !m.fin_acked)) {
        ack(m, m.accepted - m.acked);
      }
      fake_ngtcp2::check_kept("after an acknowledgement");
    }
    if (all) {
      take_events();
      asked.clear();
      asked.shrink_to_fit();
      bytes().swap(packet);
      for (model &m : streams) {
        bytes().swap(m.queued);
        bytes().swap(m.last);
      }
      fake_ngtcp2::forget();
      uint64_t live = mc::memory::live_blocks();
      MC_CHECK(live <= baseline, "leak", "%llu blocks of memory are kept for finished streams",
               static_cast<unsigned long long>(live - baseline));
    }
  }

  // Something the peer does on the streams that is none of the sender's business.
  void peer(int what)
  {
    auto &cb = client.callbacks();
    void *u = client.conn->user_data;
    const model &m = streams[0];
    int rv = 0;
    switch (what) {
      case 0:
        mc::log("the peer resets its side of %lld", static_cast<long long>(m.id));
        rv = cb.stream_reset(client.conn, m.id, 3, 0x0102, u, nullptr);
        break;
      case 1:
        mc::log("the peer ends its side of %lld", static_cast<long long>(m.id));
        rv = cb.recv_stream_data(client.conn, m.id, 1, 0, reinterpret_cast<const uint8_t *>("answer"), 6, u, nullptr);
        break;
      case 2:
        mc::log("the peer extends the limits");
        rv = cb.extend_max_stream_data(client.conn, m.id, 100000, u, nullptr);
        rv |= cb.extend_max_local_streams_bidi(client.conn, 50, u);
        rv |= cb.extend_max_local_streams_uni(client.conn, 50, u);
        break;
    }
    mc::step();
    MC_CHECK(rv == 0, "peer", "a callback failed");
  }

  // Takes the events the peer caused.
  void take_events()
  {
    auto r = client.c->recv(bnl::base::buffer_view("packet"));
    MC_CHECK(r.has_value(), "recv", "recv() failed");
    for (int i = 0; i < 100 && r.value().next(); i++) {
      auto e = r.value().get();
    }
  }

  uint64_t baseline()
  {
    fake_ngtcp2::forget();
    return mc::memory::live_blocks();
  }
};

void
histories(size_t streams, int depth, const std::vector<int> &kinds)
{
  world w(streams);
  uint64_t baseline = w.baseline();
  bool peer = false;
  for (int i = 0; i < depth && !w.done; i++) {
    struct op {
      int what;
      model *m;
      int kind;
    };
    std::vector<op> ops{ { 0, nullptr, 0 }, { 1, nullptr, 0 } };
    if (!peer && w.streams[0].accepted > w.streams[0].acked) {
      for (int k = 0; k < (streams == 1 ? 3 : 1); k++) {
        ops.push_back({ 8, nullptr, k });
      }
    }
    for (size_t s = 0; s < streams; s++) {
      model *m = &w.streams[s];
      // Streams are opened in ascending order by type.
      bool usable = s == 0 || m->id == 2 || !w.streams[0].queued.empty();
      if (!m->fin && usable) {
        for (int k : kinds) {
          if (k != 3 || !m->last.empty()) {
            ops.push_back({ 2, m, k });
            ops.push_back({ 3, m, k });
          }
        }
      }
      size_t left = m->accepted - m->acked;
      if (left > 0) {
        ops.push_back({ 4, m, 0 });
      }
      if (left > 1) {
        ops.push_back({ 5, m, 0 });
      }
      if (m->fin_accepted && left == 0) {
        ops.push_back({ 6, m, 0 });
      }
      if (m->accepted > 0) {
        ops.push_back({ 7, m, 0 });
      }
    }
    const op &o = mc::pick(ops, "operation");
    switch (o.what) {
      case 0:
        i = depth;
        break;
      case 1:
        w.send();
        break;
      case 2:
      case 3:
        w.add(*o.m, o.kind, o.what == 3);
        break;
      case 4:
        w.ack(*o.m, o.m->accepted - o.m->acked);
        break;
      case 5:
        w.ack(*o.m, 1);
        break;
      case 6: // Of the end only.
        w.ack(*o.m, 0);
        break;
      case 7:
        w.excess(*o.m, 1);
        break;
      case 8: // Once, and it doesn't count.
        w.peer(o.kind);
        peer = true;
        i--;
        break;
    }
    fake_ngtcp2::check_kept("after an operation");
    w.state();
  }
  if (!w.done) {
    w.drain(baseline);
  }
  mc::hasher h;
  for (const model &m : w.streams) {
    h.add(m.accepted).add(m.acked).add(m.fin ? 1 : 0);
  }
  mc::outcome(h.add(static_cast<uint64_t>(w.packets)).add(w.done ? 1 : 0));
}

void
one()
{
  histories(1, mc::thorough() ? 6 : 5, { 0, 1, 2, 3 });
}

void
two()
{
  histories(2, mc::thorough() ? 6 : 5, { 0, 2 });
}

// Many pieces, each of any kind, then every way of taking and acknowledging them.
void
pieces()
{
  world w(1);
  uint64_t baseline = w.baseline();
  model &m = w.streams[0];
  int n = mc::choose(mc::thorough() ? 5 : 4, "pieces");
  for (int i = 0; i < n; i++) {
    w.add(m, mc::choose(m.last.empty() ? 3 : 5, "piece"), false);
  }
  bool late = mc::choose(2, "late") == 1;
  if (!late) {
    w.add(m, mc::choose(m.last.empty() ? 3 : 5, "last piece"), true);
  }
  // How much is taken at a time and how often some is acknowledged in between.
  size_t take = static_cast<size_t>(mc::pick(std::vector<int>{ 1, 3, 7, 1000 }, "taken"));
  int acks = mc::choose(3, "acks");
  transport.write_stream = [&](const offer &o) {
    w.lossy = false;
    answer a = w.write(o);
    if (o.data.size() > take) {
      m.accepted -= o.data.size() - take;
      m.fin_accepted = false;
      a.taken = static_cast<ssize_t>(take);
    }
    return a;
  };
  transport.open = nullptr;
  for (int i = 0; i < 400; i++) {
    w.send();
    fake_ngtcp2::check_kept("after sending");
    if (!w.produced) {
      break;
    }
    size_t left = m.accepted - m.acked;
    if (acks == 1 && left > 1) {
      w.ack(m, left - 1);
    } else if (acks == 2 && left > 0) {
      w.ack(m, left);
    }
    fake_ngtcp2::check_kept("after an acknowledgement");
  }
  if (late) {
    w.add(m, mc::choose(m.last.empty() ? 3 : 5, "last piece"), true);
  }
  transport.write_stream = [&](const offer &o) { return w.write(o); };
  w.drain(baseline);
  mc::outcome(mc::hasher().add(m.accepted).add(static_cast<uint64_t>(w.packets)));
}

// Amounts of data that don't fit 8 or 16 bits, in few or in many pieces.
void
large()
{
  static const std::vector<size_t> sizes = { 1, 255, 256, 257, 65535, 65536, 65537, 150000 };
  world w(1);
  uint64_t baseline = w.baseline();
  model &m = w.streams[0];
  auto add = [&](size_t size, bool fin) {
    bytes piece(size, '\0');
    for (size_t i = 0; i < size; i++) {
      size_t at = m.queued.size() + i;
      piece[i] = static_cast<char>(at * 7 + at / 251);
    }
    auto r = w.client.add(0, util::buf(piece), fin);
    mc::step();
    MC_CHECK(r.has_value(), "add", "add() failed");
    m.queued += piece;
    m.used = true;
    m.fin = fin;
  };
  int many = mc::choose(5, "pieces");
  size_t total = 0;
  if (many == 3) {
    int n = mc::pick(std::vector<int>{ 255, 256, 257, 300, 700 }, "number of pieces");
    for (int i = 0; i < n; i++) {
      add(1 + static_cast<size_t>(i % 3) * 40, i + 1 == n);
    }
  } else if (many == 4) {
    size_t first = mc::pick(sizes, "size"), second = mc::pick(sizes, "size");
    int n = mc::pick(std::vector<int>{ 4, 5, 8, 9 }, "number of pieces");
    for (int i = 0; i < n; i++) {
      add(i % 2 == 0 ? first : second, i + 1 == n);
    }
  } else {
    for (int i = 0; i <= many; i++) {
      add(mc::pick(sizes, "size"), i == many);
    }
  }
  total = m.queued.size();
  mc::log("%zu bytes", total);
  size_t take = mc::pick(std::vector<size_t>{ 16384, 65535, 65536, 1000000 }, "taken");
  int acks = mc::choose(3, "acks");
  w.lossy = false;
  transport.open = nullptr;
  transport.write_stream = [&](const offer &o) {
    answer a = w.write(o);
    if (o.data.size() > take) {
      m.accepted -= o.data.size() - take;
      m.fin_accepted = false;
      a.taken = static_cast<ssize_t>(take);
    }
    return a;
  };
  for (int i = 0; i < 2000; i++) {
    w.send();
    if (!w.produced) {
      break;
    }
    size_t left = m.accepted - m.acked;
    if (acks == 1 && left > 65536) {
      w.ack(m, left - 1);
    } else if (acks == 2 && left > 0) {
      w.ack(m, left);
    }
  }
  fake_ngtcp2::check_kept("after sending");
  mc::state(mc::hasher().add(total).add(take).add(static_cast<uint64_t>(acks)));
  size_t accepted = m.accepted;
  transport.write_stream = [&](const offer &o) { return w.write(o); };
  w.drain(baseline);
  mc::outcome(mc::hasher().add(accepted).add(static_cast<uint64_t>(w.packets)));
}

}

int
main(int argc, char **argv)
{
  return mc::run(
    argc, argv,
    { { "one stream",
        "histories of up to 5 (thorough: 6) additions (inline, heap, empty and equal pieces, with or without end), sends "
        "with every answer (all, part, none, congested, blocked, failing; opening blocked or failing) and "
        "acknowledgements (all, one byte, none, too many), and up to one reset, end or limit by the peer, then drained",
        one, 3 },
      { "two streams", "the same on two streams (one bidirectional, one unidirectional) with two kinds of pieces", two, 3 },
      { "pieces",
        "up to 4 (thorough: 5) pieces of every kind x 4 sizes taken at a time x 3 ways to acknowledge x end with or after "
        "the last byte",
        pieces, 3 },
      { "large",
        "up to 3 pieces of 8 sizes up to 150000 bytes, or up to 700 small ones, x 4 sizes taken at a time x 3 ways to "
        "acknowledge",
        large, 3 } });
}

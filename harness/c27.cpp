// C27: the QUIC client routes data, acknowledgements and events faithfully.
#include "quic.hpp"

#include <bnl/base/log.hpp>
#include <ref/crypto.hpp>

#include <fmt/format.h>

#include <optional>

using fake_ngtcp2::answer;
using fake_ngtcp2::offer;
using fake_ngtcp2::transport;
using fake_ssl::tls;
using quic::bytes;
namespace q = bnl::quic;

namespace {

using raw = ref::crypto::bytes;

// Formats every message and keeps the ones of one call.
class recorder : public bnl::base::log::api {
public:
  std::vector<std::string> *messages = nullptr;

protected:
  void log(bnl::base::log::level, const char *, const char *, int, const char *format,
           const fmt::format_args &args) const override
  {
    std::string text = fmt::vformat(format, args);
    if (messages != nullptr) {
      messages->push_back(text);
    }
  }
};

recorder logger;

raw
r(const bytes &s)
{
  return raw(s.begin(), s.end());
}

bytes
s(const raw &v)
{
  return bytes(v.begin(), v.end());
}

struct suite {
  uint32_t id;
  int aead;
  int hash;
};

const std::vector<suite> suites{ { 0x03001301U, 0, 0 }, { 0x03001302U, 1, 1 }, { 0x03001303U, 2, 0 } };

bytes
secret(int hash, int which)
{
  bytes out;
  for (size_t i = 0; i < ref::crypto::digest(hash); i++) {
    out += static_cast<char>(static_cast<size_t>(which) * 53 + i * 7 + 1);
  }
  return out;
}

fake_ngtcp2::key
key(int aead, int hash, const bytes &secret)
{
  static std::map<std::pair<int, bytes>, fake_ngtcp2::key> known;
  auto it = known.find({ aead, secret });
  if (it != known.end()) {
    return it->second;
  }
  fake_ngtcp2::key k;
  k.data = s(*ref::crypto::expand_label(hash, r(secret), "quic key", ref::crypto::key_size(aead)));
  k.iv = s(*ref::crypto::expand_label(hash, r(secret), "quic iv", 12));
  k.hp = s(*ref::crypto::expand_label(hash, r(secret), "quic hp", ref::crypto::key_size(aead)));
  if (known.size() < 100) {
    known[{ aead, secret }] = k;
  }
  return k;
}

bytes
next_secret(int hash, const bytes &secret)
{
  return s(*ref::crypto::expand_label(hash, r(secret), "traffic upd", secret.size()));
}

void
installed(quic::client &c, const char *name, const fake_ngtcp2::key &k, bool hp = true)
{
  auto it = c.conn->keys.find(name);
  MC_CHECK(it != c.conn->keys.end(), "key-missing", "no %s keys were installed", name);
  MC_CHECK(it->second.data == k.data, "key", "the %s key is %s instead of %s", name, mc::hex(it->second.data).c_str(),
           mc::hex(k.data).c_str());
  MC_CHECK(it->second.iv == k.iv, "iv", "the %s IV is wrong", name);
  MC_CHECK(!hp || it->second.hp == k.hp, "hp", "the %s header protection key is wrong", name);
}

void
initial_keys(quic::client &c)
{
  raw dcid(c.conn->dcid.data, c.conn->dcid.data + c.conn->dcid.datalen);
  // draft-ietf-quic-tls-22 5.2
  raw salt{ 0x7f, 0xbc, 0xdb, 0x0e, 0x7c, 0x66, 0xbb, 0xe9, 0x19, 0x3a,
            0x96, 0xcd, 0x21, 0x51, 0x9e, 0xbd, 0x7a, 0x02, 0x64, 0x4a };
  raw initial = ref::crypto::extract(0, dcid, salt);
  installed(c, "initial tx", key(0, 0, s(*ref::crypto::expand_label(0, initial, "client in", 32))));
  installed(c, "initial rx", key(0, 0, s(*ref::crypto::expand_label(0, initial, "server in", 32))));
}

void
at_now(quic::client &c, const char *what)
{
  for (uint64_t ts : transport.timestamps) {
    MC_CHECK(ts == c.now * 1000, "time", "%s: the transport was told it is %llu ns at %llu us", what,
             static_cast<unsigned long long>(ts), static_cast<unsigned long long>(c.now));
  }
  transport.timestamps.clear();
}

// Construction

bytes
octets(const bnl::ip::endpoint &e)
{
  auto v = e.address().bytes();
  return bytes(reinterpret_cast<const char *>(v.data()), v.size());
}

void
construction()
{
  quic::options o;
  std::string host = mc::pick(std::vector<std::string>{ "example.org", "a", "localhost", std::string(200, 'x') + ".net",
                                                        "exactly-sixteen." },
                              "host");
  o.host = host.c_str();
  bytes a4("\xc0\x00\x02\x01", 4), b4("\xc6\x33\x64\x07", 4), a6, b6;
  for (int i = 0; i < 16; i++) {
    a6 += static_cast<char>(i + 1);
    b6 += static_cast<char>(200 - i);
  }
  auto address = [](const bytes &b) {
    bnl::base::buffer_view v(reinterpret_cast<const uint8_t *>(b.data()), b.size());
    return b.size() == 4 ? bnl::ip::address(bnl::ipv4::address(v)) : bnl::ip::address(bnl::ipv6::address(v));
  };
  int family = mc::choose(2, "family");
  bool same = mc::choose(2, "same address") == 1;
  bytes local = family == 0 ? a4 : a6;
  bytes peer = same ? local : family == 0 ? b4 : b6;
  o.local = bnl::ip::endpoint(address(local), 1234);
  o.peer = bnl::ip::endpoint(address(peer), 443);
  int set = mc::choose(4, "params");
  if (set > 0) {
    uint64_t base = set == 1 ? 100 : set == 2 ? UINT64_C(1) << 20 : UINT64_C(1) << 40;
    o.params.max_stream_data_bidi_local = base + 1;
    o.params.max_stream_data_bidi_remote = base + 2;
    o.params.max_stream_data_uni = base + 3;
    o.params.max_data = base + 4;
    o.params.max_streams_bidi = base + 5;
    o.params.max_streams_uni = base + 6;
    o.params.idle_timeout = q::milliseconds(base + 7);
    o.params.max_packet_size = set == 1 ? 1300 : 65000;
    o.params.ack_delay_exponent = 9;
    o.params.disable_migration = 1;
    o.params.max_ack_delay = q::milliseconds(set == 1 ? 110 : 16383);
  }
  {
    quic::client c(o);
    mc::step();
    at_now(c, "construction");
    const ngtcp2_settings &n = c.conn->settings;
    MC_CHECK(n.max_stream_data_bidi_local == o.params.max_stream_data_bidi_local &&
               n.max_stream_data_bidi_remote == o.params.max_stream_data_bidi_remote &&
               n.max_stream_data_uni == o.params.max_stream_data_uni && n.max_data == o.params.max_data &&
               n.max_streams_bidi == o.params.max_streams_bidi && n.max_streams_uni == o.params.max_streams_uni &&
               n.idle_timeout == o.params.idle_timeout.count() && n.max_packet_size == o.params.max_packet_size &&
               n.ack_delay_exponent == o.params.ack_delay_exponent &&
               n.disable_migration == o.params.disable_migration && n.max_ack_delay == o.params.max_ack_delay.count(),
             "params", "the transport's settings aren't the parameters");
    if (set == 0) {
      // What the specification says about parameters that are absent.
      MC_CHECK(n.max_stream_data_bidi_local == 0 && n.max_stream_data_bidi_remote == 0 && n.max_stream_data_uni == 0 &&
                 n.max_data == 0 && n.max_streams_bidi == 0 && n.max_streams_uni == 0 && n.idle_timeout == 0 &&
                 n.max_packet_size == 65527 && n.ack_delay_exponent == 3 && n.disable_migration == 0 &&
                 n.max_ack_delay == 25,
               "defaults", "the transport's settings aren't the specification's defaults");
    }
    MC_CHECK(c.conn->local == local && c.conn->remote == peer, "path", "the transport's path is %s to %s",
             mc::hex(c.conn->local).c_str(), mc::hex(c.conn->remote).c_str());
    MC_CHECK(c.conn->version == NGTCP2_PROTO_VER, "version", "version %x is negotiated", c.conn->version);
    MC_CHECK(c.conn->dcid.datalen >= 8 && c.conn->dcid.datalen <= NGTCP2_MAX_CIDLEN, "dcid",
             "the initial connection id has %zu bytes", c.conn->dcid.datalen);
    MC_CHECK(c.conn->scid.datalen <= NGTCP2_MAX_CIDLEN, "scid", "the connection id has %zu bytes", c.conn->scid.datalen);
    initial_keys(c);
    MC_CHECK(c.ssl->alpn == "\x05h3-22", "alpn", "ALPN is %s", mc::hex(c.ssl->alpn).c_str());
    MC_CHECK(c.ssl->client, "role", "TLS isn't a client");
    MC_CHECK(c.ssl->min == TLS1_3_VERSION && c.ssl->max == TLS1_3_VERSION, "tls-version", "TLS 1.3 isn't required");
    MC_CHECK(c.ssl->host == host, "sni", "the server's name is \"%s\"", c.ssl->host.c_str());
    bytes params = fake_ngtcp2::encode(n);
    MC_CHECK(c.ssl->params == params, "transport-params", "TLS sends the transport parameters %s, not %s",
             mc::hex(c.ssl->params).c_str(), mc::hex(params).c_str());
    MC_CHECK(c.ssl->method != nullptr, "method", "TLS isn't used for QUIC");
    c.c->send();
    c.c->recv(bnl::base::buffer_view("packet"));
    mc::step(2);
    at_now(c, "use");
    MC_CHECK(transport.paths == local && transport.path_remote == peer, "path", "packets use the path %s to %s",
             mc::hex(transport.paths).c_str(), mc::hex(transport.path_remote).c_str());
    mc::state(mc::hasher().add(local).add(peer).add(host).add(static_cast<uint64_t>(set)));
    c.c.reset();
    MC_CHECK(transport.deleted == 1, "leak", "the transport's connection isn't deleted");
    MC_CHECK(tls.freed == tls.created && tls.contexts == 0, "leak", "TLS isn't freed");
  }
}

// Handshake

struct fault {
  const char *name; // Of the call of the transport that fails.
  int stage;        // Of TLS that fails, or -1.
};

// Plays TLS.
struct peer {
  quic::client *c = nullptr;
  suite picked = suites[0];
  bool early = false;
  int stage = 0;
  bytes in[4];
  bytes taken[4]; // Delivered to TLS by level.
  bytes hello = "client hello";
  int fail_stage = -1;
  bool fail_provide = false;
  bool fail_post = false;
  std::string fail_call;
  int error = SSL_ERROR_SSL;
  bool failed = false; // An injected failure happened.
  int posts = 0;
  std::vector<std::pair<int, bytes>> sent; // By level of the transport.

  static constexpr int INITIAL = 0, EARLY = 1, HANDSHAKE = 2, APP = 3;

  static int transport_level(int level)
  {
    static const int map[] = { NGTCP2_CRYPTO_LEVEL_INITIAL, NGTCP2_CRYPTO_LEVEL_EARLY, NGTCP2_CRYPTO_LEVEL_HANDSHAKE,
                               NGTCP2_CRYPTO_LEVEL_APP };
    return map[level];
  }

  bool add(SSL *ssl, int level, bytes data)
  {
    int before = static_cast<int>(c->conn->submitted.size());
    int rv = ssl->method->add_handshake_data(ssl, static_cast<ssl_encryption_level_t>(level),
                                             reinterpret_cast<const uint8_t *>(data.data()), data.size());
    bool expected = fail_call != "submit";
    failed = failed || !expected;
    MC_CHECK(rv == (expected ? 1 : 0), "submit", "adding handshake data returned %d", rv);
    if (expected) {
      sent.push_back({ transport_level(level), data });
    }
    (void) before;
    // TLS reuses its memory.
    data.assign(data.size(), '!');
    return rv == 1;
  }

  bool secrets(SSL *ssl, int level, int which)
  {
    bytes read = secret(picked.hash, which), write = secret(picked.hash, which + 1);
    int rv = ssl->method->set_encryption_secrets(
      ssl, static_cast<ssl_encryption_level_t>(level),
      level == EARLY ? nullptr : reinterpret_cast<const uint8_t *>(read.data()),
      reinterpret_cast<const uint8_t *>(write.data()), write.size());
    bool known = false;
    for (const suite &s : suites) {
      known = known || s.id == picked.id;
    }
    static const char *names[4][2] = { { "", "" },
                                       { "install early tx", "" },
                                       { "install handshake tx", "install handshake rx" },
                                       { "install tx", "install rx" } };
    bool expected = known && (fail_call.empty() || (fail_call != names[level][0] && fail_call != names[level][1]));
    failed = failed || !expected;
    MC_CHECK(rv == (expected ? 1 : 0), "secrets", "setting the secrets of level %d returned %d", level, rv);
    read.assign(read.size(), '!');
    write.assign(write.size(), '!');
    if (rv == 1) {
      MC_CHECK(c->conn->overhead == 16, "overhead", "packets grow by %zu bytes", c->conn->overhead);
    }
    return rv == 1;
  }

  int handshake(SSL *ssl)
  {
    if (fail_stage == stage) {
      failed = true;
      return error;
    }
    if (stage == 0) {
      if (!add(ssl, INITIAL, hello)) {
        return SSL_ERROR_SSL;
      }
      if (early) {
        tls.cipher = picked.id;
        if (!secrets(ssl, EARLY, 10)) {
          return SSL_ERROR_SSL;
        }
      }
      stage = 1;
    }
    if (stage == 1 && in[INITIAL] == "server hello") {
      tls.cipher = picked.id;
      if (!secrets(ssl, HANDSHAKE, 20)) {
        return SSL_ERROR_SSL;
      }
      stage = 2;
    }
    if (stage == 2 && fail_stage == 2) {
      failed = true;
      return error;
    }
    if (stage == 2 && in[HANDSHAKE] == "server finished") {
      if (!add(ssl, HANDSHAKE, "client finished") || !secrets(ssl, APP, 30)) {
        return SSL_ERROR_SSL;
      }
      stage = 3;
      ssl->method->flush_flight(ssl);
    }
    return stage == 3 ? SSL_ERROR_NONE : mc::thorough() && mc::choose(2, "want") == 1 ? SSL_ERROR_WANT_WRITE
                                                                                         : SSL_ERROR_WANT_READ;
  }

  void install()
  {
    tls.do_handshake = [this](SSL *ssl) { return handshake(ssl); };
    tls.provide = [this](SSL *, int level, const bytes &data) {
      if (fail_provide) {
        failed = true;
        return false;
      }
      in[level] += data;
      return true;
    };
    tls.post_handshake = [this](SSL *) {
      posts++;
      failed = failed || fail_post;
      return !fail_post;
    };
    transport.call = [this](const std::string &what) -> int {
      if (what == fail_call) {
        failed = true;
        return NGTCP2_ERR_NOMEM;
      }
      return 0;
    };
  }

  void check(const char *when)
  {
    MC_CHECK(c->conn->submitted == sent, "submitted", "%s: the handshake data given to the transport isn't what TLS wrote",
             when);
    fake_ngtcp2::check_kept(when);
    int tx = stage >= 2 ? 1 : 0;
    auto count = [&](const char *name) {
      auto it = c->conn->keys.find(name);
      return it == c->conn->keys.end() ? 0 : it->second.installed;
    };
    if (!failed) {
      int app = stage >= 3 ? 1 : 0;
      MC_CHECK(count("handshake tx") == tx && count("handshake rx") == tx && count("tx") == app && count("rx") == app,
               "keys", "%s: keys were installed at the wrong time", when);
      MC_CHECK(c->conn->completions == app, "completed", "%s: the handshake was completed %d times at stage %d", when,
               c->conn->completions, stage);
      MC_CHECK(c->conn->remote_params == (app ? "77" : ""), "remote-params",
               "%s: the server's transport parameters are \"%s\"", when, c->conn->remote_params.c_str());
    }
    if (count("early tx") > 0) {
      installed(*c, "early tx", key(picked.aead, picked.hash, secret(picked.hash, 11)));
    }
    if (count("handshake tx") > 0) {
      installed(*c, "handshake tx", key(picked.aead, picked.hash, secret(picked.hash, 21)));
    }
    if (count("handshake rx") > 0) {
      installed(*c, "handshake rx", key(picked.aead, picked.hash, secret(picked.hash, 20)));
    }
    if (count("tx") > 0) {
      installed(*c, "tx", key(picked.aead, picked.hash, secret(picked.hash, 31)));
    }
    if (count("rx") > 0) {
      installed(*c, "rx", key(picked.aead, picked.hash, secret(picked.hash, 30)));
    }
    mc::hasher h;
    h.add(static_cast<uint64_t>(stage)).add(in[0]).add(in[2]).add(picked.id).add(early ? 1 : 0);
    for (const auto &entry : c->conn->crypto) {
      h.add(static_cast<uint64_t>(entry.first));
      for (const auto &k : entry.second) {
        h.add(k.copy);
      }
    }
    mc::state(h);
  }

  // The transport received handshake data. Returns what the callback returned.
  int deliver(int level, const bytes &data)
  {
    int rv = 0;
    bool before = failed;
    transport.read_pkt = [&](const bytes &) {
      bytes copy = data;
      rv = c->callbacks().recv_crypto_data(c->conn, static_cast<ngtcp2_crypto_level>(transport_level(level)),
                                           taken[level].size(), reinterpret_cast<const uint8_t *>(copy.data()),
                                           copy.size(), c->conn->user_data);
      copy.assign(copy.size(), '!');
      return rv;
    };
    mc::log("handshake data of level %d: %s", level, data.c_str());
    taken[level] += data;
    auto r = c->c->recv(bnl::base::buffer_view("packet"));
    mc::step();
    MC_CHECK(r.has_value(), "recv", "recv() failed");
    auto &generator = r.value();
    if (failed && !before) {
      MC_CHECK(rv != 0, "unreported", "a failure in the handshake wasn't reported to the transport");
      MC_CHECK(generator.next(), "unreported", "the transport's error wasn't returned");
      auto e = generator.get();
      MC_CHECK(!e && e.error() == q::error::ngtcp2, "error", "the transport's error isn't returned as such");
    } else if (!failed) {
      MC_CHECK(rv == 0, "recv-crypto", "handshake data was refused with %d", rv);
    }
    if (!failed) {
      MC_CHECK(!generator.next(), "event", "handshake data caused an event");
      MC_CHECK(in[level] == taken[level], "provided", "TLS was given %s instead of %s", mc::hex(in[level]).c_str(),
               mc::hex(taken[level]).c_str());
    }
    return rv;
  }
};

// Stream data that's already queued must not be offered.
void
no_early_data(quic::client &c)
{
  transport.write_stream = [&](const offer &o) {
    MC_CHECK(c.conn->completed, "early", "data of stream %lld was offered before the end of the handshake",
             static_cast<long long>(o.id));
    answer a;
    a.taken = static_cast<ssize_t>(o.data.size());
    a.packet = "stream packet";
    return a;
  };
}

void
handshake()
{
  peer p;
  p.picked = mc::pick(suites, "suite");
  p.early = mc::choose(2, "early data") == 1;
  if (mc::choose(2, "size of the hello") == 1) {
    p.hello = bytes(300, 'h');
  }
  quic::client c;
  p.c = &c;
  p.install();
  no_early_data(c);
  bool queued = false, initial = false;
  size_t depth = mc::thorough() ? 8 : 6;
  size_t acked[4] = {};
  for (size_t i = 0; i < depth; i++) {
    struct op {
      int what;
      int level;
      size_t size;
    };
    std::vector<op> ops{ { 0, 0, 0 } };
    static const bytes wanted[4] = { "server hello", "", "server finished", "" };
    if (p.stage == 1) {
      size_t left = wanted[0].size() - p.in[0].size();
      ops.push_back({ 1, 0, left });
      if (left > 5) {
        ops.push_back({ 1, 0, 5 });
      }
    } else if (p.stage == 2) {
      size_t left = wanted[2].size() - p.in[2].size();
      ops.push_back({ 1, 2, left });
      if (left > 1) {
        ops.push_back({ 1, 2, 1 });
      }
    } else if (p.stage == 3) {
      ops.push_back({ 2, 3, 0 });
    }
    for (int level : { 0, 2 }) {
      size_t out = 0;
      for (const auto &k : c.conn->crypto[peer::transport_level(level)]) {
        out += k.copy.size();
      }
      if (out > 0) {
        ops.push_back({ 3, level, out });
        ops.push_back({ 3, level, 1 });
        ops.push_back({ 4, level, out + 1 });
      } else {
        ops.push_back({ 4, level, 1 });
      }
    }
    if (!queued) {
      ops.push_back({ 5, 0, 0 });
    }
    const op &o = mc::pick(ops, "operation");
    switch (o.what) {
      case 0: {
        mc::log("send");
        bytes packet;
        transport.write_pkt = [&](uint8_t *dest, size_t size) -> ssize_t {
          if (!initial) {
            initial = true;
            int rv = c.callbacks().client_initial(c.conn, c.conn->user_data);
            MC_CHECK(rv == 0, "initial", "the start of the handshake failed");
          }
          if (p.stage == 3) {
            return 0;
          }
          packet = "crypto packet";
          MC_CHECK(size >= 1200, "size", "a datagram of %zu bytes is too small", size);
          memcpy(dest, packet.data(), packet.size());
          return static_cast<ssize_t>(packet.size());
        };
        if (p.stage == 3 && queued && c.conn->streams.count(0) == 0) {
          packet = "stream packet";
        }
        auto r = c.c->send();
        mc::step();
        if (packet.empty()) {
          MC_CHECK(!r && r.error() == q::error::idle, "idle", "send() isn't idle");
        } else {
          MC_CHECK(r && util::str(r.value()) == packet, "packet", "send() didn't return the transport's packet");
        }
        MC_CHECK(p.stage > 0, "start", "send() didn't start the handshake");
        break;
      }
      case 1:
        p.deliver(o.level, wanted[o.level].substr(p.in[o.level].size(), o.size));
        break;
      case 2: {
        int posts = p.posts;
        p.deliver(3, "ticket");
        MC_CHECK(p.posts == posts + 1, "post", "data after the handshake wasn't processed");
        break;
      }
      case 3: {
        mc::log("ack %zu of level %d", o.size, o.level);
        int rv = fake_ngtcp2::ack_crypto(peer::transport_level(o.level), o.size);
        mc::step();
        MC_CHECK(rv == 0, "ack", "the acknowledgement of %zu bytes failed", o.size);
        acked[o.level] += o.size;
        break;
      }
      case 4: {
        mc::log("ack %zu of level %d: too many", o.size, o.level);
        int rv = c.callbacks().acked_crypto_offset(c.conn,
                                                   static_cast<ngtcp2_crypto_level>(peer::transport_level(o.level)),
                                                   acked[o.level], o.size, c.conn->user_data);
        mc::step();
        MC_CHECK(rv == NGTCP2_ERR_CALLBACK_FAILURE, "excess", "an excessive acknowledgement succeeded");
        p.check("after an excessive acknowledgement");
        return;
      }
      case 5:
        mc::log("add");
        queued = true;
        MC_CHECK(c.add(0, util::buf("request"), true).has_value(), "add", "add() failed");
        mc::step();
        break;
    }
    p.check("after an operation");
  }
  mc::outcome(mc::hasher().add(static_cast<uint64_t>(p.stage)).add(queued ? 1 : 0).add(c.conn->submitted.size()));
}

void
handshake_faults()
{
  peer p;
  p.picked = mc::pick(suites, "suite");
  p.early = mc::choose(2, "early data") == 1;
  struct fault {
    const char *call;
    int stage;
  };
  static const std::vector<fault> faults{
    { "install early tx", -1 }, { "install handshake tx", -1 }, { "install handshake rx", -1 }, { "install tx", -1 },
    { "install rx", -1 },       { "submit", -1 },               { "decode params", -1 },        { "set params", -1 },
    { "", 0 },                  { "", 1 },                      { "", 2 },                      { "provide", -1 },
    { "post", -1 },             { "cipher", -1 }
  };
  const fault &f = mc::pick(faults, "fault");
  bytes call = f.call;
  bytes label = call.empty() ? "TLS at stage " + std::to_string(f.stage) : call;
  p.fail_stage = f.stage;
  if (call == "provide") {
    p.fail_provide = true;
  } else if (call == "post") {
    p.fail_post = true;
  } else if (call == "cipher") {
    p.picked.id = mc::pick(std::vector<uint32_t>{ 0x03001304U, 0x00001301U, 0x0300c02bU, 1 }, "cipher");
  } else {
    p.fail_call = call;
  }
  std::vector<std::string> messages;
  std::string text = mc::pick(std::vector<std::string>{ "", "one", "two" }, "errors");
  std::vector<unsigned long> errors;
  if (!text.empty()) {
    errors = { 0x10000041UL };
  }
  if (text == "two") {
    errors.push_back(0x0c000107UL);
  }
  quic::client c;
  p.c = &c;
  p.install();
  no_early_data(c);
  MC_CHECK(c.add(0, util::buf("request"), true).has_value(), "add", "add() failed");
  tls.errors = errors;
  logger.messages = &messages;
  struct restore {
    ~restore() { logger.messages = nullptr; }
  } restore;
  mc::log("fault: %s", label.c_str());
  int by = mc::choose(2, "first by");
  if (by == 0) {
    auto r = c.c->send();
    mc::step();
    MC_CHECK(p.failed == (!r && r.error() == q::error::handshake), "send-error",
             "send() %s when the handshake %s", r || r.error() != q::error::handshake ? "didn't fail" : "failed",
             p.failed ? "failed" : "didn't");
  } else {
    int rv = c.callbacks().client_initial(c.conn, c.conn->user_data);
    mc::step();
    MC_CHECK(p.failed ? rv == NGTCP2_ERR_CALLBACK_FAILURE : rv == 0, "initial-error",
             "the start of the handshake returned %d", rv);
  }
  bool tls_failed = p.failed;
  int last = 0;
  for (auto step : { std::pair<int, const char *>(0, "server hello"), { 2, "server finished" }, { 3, "ticket" } }) {
    if (p.failed) {
      break;
    }
    last = p.deliver(step.first, step.second);
    if (p.failed) {
      tls_failed = call != "decode params" && call != "set params";
      MC_CHECK(last == (tls_failed ? NGTCP2_ERR_CRYPTO : NGTCP2_ERR_CALLBACK_FAILURE), "reported-as",
               "the failure was reported to the transport as %d", last);
    }
    p.check("after handshake data");
  }
  bool reachable = p.early || call != "install early tx";
  MC_CHECK(p.failed == reachable, "fault", "fault %s didn't happen", label.c_str());
  if (tls_failed && p.failed) {
    for (unsigned long e : errors) {
      char expected[64];
      snprintf(expected, sizeof expected, "error:%08lx:lib{0}:{reason}", e);
      bool found = false;
      for (const std::string &m : messages) {
        found = found || m.find(expected) != std::string::npos;
      }
      MC_CHECK(found, "log", "the error \"%s\" wasn't logged", expected);
    }
  }
  // Nothing of the request is sent unless the handshake is complete.
  auto again = c.c->send();
  mc::step();
  if (p.failed && call.compare(0, 7, "install") == 0) {
    MC_CHECK(!again || c.conn->completed, "again", "send() returned a packet after the handshake failed");
  }
  mc::outcome(mc::hasher().add(label).add(static_cast<uint64_t>(last)));
}

// Sending

void
sending()
{
  static const int64_t ids[] = { 0, 2, 4 };
  quic::client c;
  c.complete();
  bytes queued[3], accepted[3];
  bool fins[3] = {};
  for (int i = 0; i < 3; i++) {
    queued[i] = bytes(static_cast<size_t>(i) * 14 + 2, static_cast<char>('a' + i));
    MC_CHECK(c.add(static_cast<uint64_t>(ids[i]), util::buf(queued[i]), true).has_value(), "add", "add() failed");
  }
  bool lossy = true, produced = false, fatal = false;
  bytes packet;
  int packets = 0, asked = 0, pkt_calls = 0;
  int limit[2] = {};
  auto make = [&]() {
    bytes p = "packet " + std::to_string(++packets);
    // A full datagram now and then.
    if (packets % 2 == 0) {
      p.resize(NGTCP2_MAX_PKTLEN_IPV6, static_cast<char>(packets));
    }
    return p;
  };
  transport.write_pkt = [&](uint8_t *dest, size_t size) -> ssize_t {
    pkt_calls++;
    MC_CHECK(asked == 0, "priority", "stream data was offered before the transport's own packets");
    switch (lossy ? mc::choose(3, "transport") : 0) {
      case 1:
        packet = make();
        MC_CHECK(size >= packet.size(), "size", "only %zu bytes for a packet", size);
        memcpy(dest, packet.data(), packet.size());
        produced = true;
        return static_cast<ssize_t>(packet.size());
      case 2:
        fatal = true;
        return NGTCP2_ERR_NOMEM;
    }
    return 0;
  };
  transport.open = [&](bool bidi) {
    // The limit doesn't change while packets are made.
    int &n = limit[bidi ? 0 : 1];
    if (n < 0) {
      n = lossy ? mc::choose(2, "open") : 0;
    }
    asked += n;
    return n == 1 ? NGTCP2_ERR_STREAM_ID_BLOCKED : 0;
  };
  transport.write_stream = [&](const offer &o) {
    MC_CHECK(o.id == 0 || o.id == 2 || o.id == 4, "stream", "data was offered on stream %lld",
             static_cast<long long>(o.id));
    int i = static_cast<int>(o.id / 2);
    asked++;
    MC_CHECK(queued[i].compare(accepted[i].size(), bytes::npos, o.data) == 0 || o.data.size() < queued[i].size(), "data",
             "stream %lld was offered data of another one", static_cast<long long>(o.id));
    MC_CHECK(queued[i].substr(accepted[i].size(), o.data.size()) == o.data, "data",
             "stream %lld was offered data of another one", static_cast<long long>(o.id));
    answer a;
    a.taken = static_cast<ssize_t>(o.data.size());
    switch (lossy ? mc::choose(5, "answer") : 0) {
      case 1:
        a.error = NGTCP2_ERR_STREAM_DATA_BLOCKED;
        break;
      case 2:
        a.taken = answer::NONE;
        return a;
      case 3:
        a.error = NGTCP2_ERR_STREAM_NOT_FOUND;
        fatal = true;
        break;
      case 4:
        a.taken = answer::NONE;
        break;
    }
    if (a.error == 0) {
      a.packet = packet = make();
      produced = true;
      if (a.taken >= 0) {
        accepted[i] += o.data.substr(0, static_cast<size_t>(a.taken));
        fins[i] = o.fin && static_cast<size_t>(a.taken) == o.data.size();
      }
    }
    mc::log("  stream %lld: error %d, %zd taken, packet of %zu", static_cast<long long>(o.id), a.error, a.taken,
            a.packet.size());
    return a;
  };
  int sends = mc::thorough() ? 4 : 3;
  for (int n = 0; n < sends + 20; n++) {
    if (n == sends) {
      lossy = false;
    }
    c.now += 17;
    mc::log("send at %llu", static_cast<unsigned long long>(c.now));
    transport.timestamps.clear();
    produced = fatal = false;
    asked = pkt_calls = 0;
    limit[0] = limit[1] = -1;
    int left = 0;
    for (int i = 0; i < 3; i++) {
      left += fins[i] ? 0 : 1;
    }
    auto r = c.c->send();
    mc::step();
    at_now(c, "send()");
    MC_CHECK(pkt_calls == 1, "own", "the transport was asked %d times for its own packets", pkt_calls);
    if (fatal) {
      MC_CHECK(!r && r.error() == q::error::ngtcp2, "fatal", "send() hides that the transport failed");
      mc::outcome(mc::hasher().add(static_cast<uint64_t>(n)).add(1));
      return;
    }
    if (produced) {
      MC_CHECK(r && util::str(r.value()) == packet, "packet", "send() didn't return the transport's packet");
    } else {
      MC_CHECK(!r && r.error() == q::error::idle, "idle", "send() isn't idle without a packet");
      MC_CHECK(asked == left, "starved", "send() is idle but only %d of %d streams with data were asked", asked, left);
    }
    mc::state(mc::hasher().add(accepted[0]).add(accepted[1]).add(accepted[2]).add(static_cast<uint64_t>(n)));
    if (!lossy && !produced) {
      break;
    }
  }
  for (int i = 0; i < 3; i++) {
    MC_CHECK(accepted[i] == queued[i] && fins[i], "incomplete", "stream %lld was offered %zu of %zu bytes",
             static_cast<long long>(ids[i]), accepted[i].size(), queued[i].size());
  }
  MC_CHECK(transport.misuse.empty(), "misuse", "%s", transport.misuse.front().c_str());
  // Acknowledgements reach the streams they are for.
  int first = mc::choose(3, "first acknowledged");
  for (int k = 0; k < 3; k++) {
    int i = (first + k) % 3;
    if (k > 0) {
      int done = (first + k - 1) % 3;
      int rv = c.callbacks().acked_stream_data_offset(c.conn, ids[done], queued[done].size(), 1, c.conn->user_data, nullptr);
      MC_CHECK(rv == NGTCP2_ERR_CALLBACK_FAILURE, "finished", "stream %lld accepts acknowledgements after its last byte",
               static_cast<long long>(ids[done]));
      rv = c.callbacks().acked_stream_data_offset(c.conn, ids[done], queued[done].size(), 0, c.conn->user_data, nullptr);
      MC_CHECK(rv == 0, "fin-ack", "the acknowledgement of the end of stream %lld failed", static_cast<long long>(ids[done]));
    }
    MC_CHECK(fake_ngtcp2::ack_stream(ids[i], 1) == 0, "ack", "an acknowledgement failed");
    fake_ngtcp2::check_kept("after an acknowledgement");
    MC_CHECK(fake_ngtcp2::ack_stream(ids[i], queued[i].size() - 1) == 0, "ack", "an acknowledgement failed");
    fake_ngtcp2::check_kept("after an acknowledgement");
    mc::step(2);
  }
  int rv = c.callbacks().acked_stream_data_offset(c.conn, 8, 0, 1, c.conn->user_data, nullptr);
  MC_CHECK(rv == NGTCP2_ERR_CALLBACK_FAILURE, "unknown", "data of a stream that was never used can be acknowledged");
  mc::outcome(mc::hasher().add(static_cast<uint64_t>(packets)));
}

// Receiving

struct expected {
  int kind; // 0: data, 1: reset, 2: error
  uint64_t id;
  bool fin;
  bytes data;
  uint64_t value;
};

struct receiver {
  quic::client c;
  std::vector<expected> queue;
  int serial = 0;

  receiver() { c.complete(); }

  void callback()
  {
    const ngtcp2_conn_callbacks &cb = c.callbacks();
    void *u = c.conn->user_data;
    serial++;
    auto data = [&](int64_t id, bool fin, size_t size) {
      bytes b;
      for (size_t i = 0; i < size; i++) {
        b += static_cast<char>(static_cast<size_t>(serial) * 31 + i);
      }
      mc::log("  data of %lld: %zu bytes%s", static_cast<long long>(id), size, fin ? " fin" : "");
      queue.push_back({ 0, static_cast<uint64_t>(id), fin, b, 0 });
      bytes copy = b;
      int rv = cb.recv_stream_data(c.conn, id, fin ? 1 : 0, 1000, reinterpret_cast<const uint8_t *>(copy.data()), size, u,
                                   nullptr);
      copy.assign(copy.size(), '!');
      MC_CHECK(rv == 0, "callback", "stream data was refused");
    };
    auto reset = [&](int64_t id, uint64_t error) {
      mc::log("  reset of %lld: %llu", static_cast<long long>(id), static_cast<unsigned long long>(error));
      queue.push_back({ 1, static_cast<uint64_t>(id), false, "", error });
      MC_CHECK(cb.stream_reset(c.conn, id, 999, error, u, nullptr) == 0, "callback", "a reset was refused");
    };
    switch (mc::choose(mc::thorough() ? 11 : 9, "callback")) {
      case 0:
        data(0, false, 1);
        break;
      case 1:
        data(0, true, 0);
        break;
      case 2:
        data(3, true, 40);
        break;
      case 3:
        data((INT64_C(1) << 62) - 4, false, 19);
        break;
      case 4:
        reset(0, 0x102);
        break;
      case 5:
        reset(3, UINT64_C(1) << 61);
        break;
      case 6:
        mc::log("  stream 3 opened");
        MC_CHECK(cb.stream_open(c.conn, 3, u) == 0, "callback", "opening a stream was refused");
        break;
      case 7:
        mc::log("  stream 0 closed");
        MC_CHECK(cb.stream_close(c.conn, 0, 5, u, nullptr) == 0, "callback", "closing a stream was refused");
        break;
      case 8:
        mc::log("  limits");
        MC_CHECK(cb.extend_max_local_streams_bidi(c.conn, 10, u) == 0 &&
                   cb.extend_max_local_streams_uni(c.conn, 11, u) == 0 &&
                   cb.extend_max_remote_streams_bidi(c.conn, 12, u) == 0 &&
                   cb.extend_max_remote_streams_uni(c.conn, 13, u) == 0 &&
                   cb.extend_max_stream_data(c.conn, 0, 14, u, nullptr) == 0 && cb.handshake_completed(c.conn, u) == 0,
                 "callback", "new limits were refused");
        break;
      case 9:
        data(4, false, 20);
        break;
      case 10:
        data(3, false, 3000);
        break;
    }
  }

  q::client::generator receive(int callbacks, bool ok)
  {
    bytes packet = "packet " + std::to_string(serial) + bytes(static_cast<size_t>(serial % 3) * 600, 'p');
    c.now += 3;
    transport.timestamps.clear();
    mc::log("recv: %d callbacks, then %s", callbacks, ok ? "success" : "an error");
    int reads = 0;
    transport.read_pkt = [&](const bytes &got) {
      reads++;
      MC_CHECK(got == packet, "packet", "the transport was given another packet");
      for (int i = 0; i < callbacks; i++) {
        callback();
      }
      return ok ? 0 : NGTCP2_ERR_PROTO;
    };
    auto b = util::buf(packet);
    auto r = c.c->recv(bnl::base::buffer_view(b.data(), b.size()));
    mc::step();
    transport.read_pkt = nullptr;
    MC_CHECK(reads == 1, "reads", "the transport was given the packet %d times", reads);
    at_now(c, "recv()");
    MC_CHECK(r.has_value(), "recv", "recv() failed");
    if (!ok) {
      queue.push_back({ 2, 0, false, "", 0 });
    }
    return std::move(r).value();
  }

  void get(q::client::generator &g)
  {
    mc::log("get");
    expected e = queue.front();
    queue.erase(queue.begin());
    MC_CHECK(g.next(), "lost", "an event is missing");
    auto r = g.get();
    mc::step();
    if (e.kind == 2) {
      MC_CHECK(!r && r.error() == q::error::ngtcp2, "error", "the error of the transport is missing");
      return;
    }
    MC_CHECK(r.has_value(), "error", "an error is returned instead of an event");
    const q::event &v = r.value();
    if (e.kind == 0) {
      MC_CHECK(v == q::event::type::data, "type", "an error is returned instead of data");
      MC_CHECK(v.data.id == e.id && v.id() == e.id, "id", "data of stream %llu is returned as of %llu",
               static_cast<unsigned long long>(e.id), static_cast<unsigned long long>(v.data.id));
      MC_CHECK(v.data.fin == e.fin, "fin", "the end mark of data is wrong");
      MC_CHECK(util::str(v.data.buffer) == e.data, "data", "data is %s instead of %s",
               mc::hex(util::str(v.data.buffer)).c_str(), mc::hex(e.data).c_str());
    } else {
      MC_CHECK(v == q::event::type::error, "type", "data is returned instead of a reset");
      MC_CHECK(v.error.type == q::application::error::rst_stream && v.error.id == e.id && v.error.value == e.value,
               "reset", "the reset of stream %llu with %llu is returned as of %llu with %llu",
               static_cast<unsigned long long>(e.id), static_cast<unsigned long long>(e.value),
               static_cast<unsigned long long>(v.error.id), static_cast<unsigned long long>(v.error.value));
    }
  }

  void finish(q::client::generator &g)
  {
    while (!queue.empty()) {
      get(g);
    }
    MC_CHECK(!g.next(), "extra", "there is an event the transport didn't raise");
  }

  void state()
  {
    mc::hasher h;
    for (const expected &e : queue) {
      h.add(static_cast<uint64_t>(e.kind)).add(e.id).add(e.fin ? 1 : 0).add(e.data).add(e.value);
    }
    mc::state(h);
  }
};

void
receiving()
{
  receiver w;
  std::optional<q::client::generator> g(w.receive(0, true));
  int depth = mc::thorough() ? 5 : 4;
  for (int i = 0; i < depth; i++) {
    std::vector<int> ops{ 0, 1, 2, 3 };
    if (!w.queue.empty()) {
      ops.push_back(4);
      if (w.queue.size() > 1) {
        ops.push_back(5);
      }
    }
    int op = mc::pick(ops, "operation");
    if (op < 4) {
      g.emplace(w.receive(op & 1, op < 2));
    } else if (op == 4) {
      w.get(*g);
    } else {
      w.finish(*g);
    }
    w.state();
  }
  mc::outcome(mc::hasher().add(static_cast<uint64_t>(w.serial)).add(w.queue.size()));
  w.finish(*g);
}

void
bursts()
{
  receiver w;
  int n = mc::choose(mc::thorough() ? 6 : 5, "callbacks");
  bool ok = mc::choose(2, "ok") == 0;
  auto g = w.receive(n, ok);
  w.state();
  mc::outcome(mc::hasher().add(w.queue.size()).add(ok ? 1 : 0));
  w.finish(g);
}

// Many of everything

void
many_events()
{
  receiver w;
  static const std::vector<int> counts{ 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 600 };
  int n = mc::pick(counts, "callbacks");
  int packets = mc::pick(std::vector<int>{ 1, 2, 3, 40 }, "packets");
  int kind = mc::choose(4, "kind");
  bool late = mc::choose(2, "taken") == 1;
  std::unique_ptr<q::client::generator> last;
  for (int p = 0; p < packets; p++) {
    int from = n * p / packets, to = n * (p + 1) / packets;
    w.c.now += 3;
    transport.read_pkt = [&](const bytes &) {
      const ngtcp2_conn_callbacks &cb = w.c.callbacks();
      void *u = w.c.conn->user_data;
      for (int i = from; i < to; i++) {
        int64_t id = kind == 0 ? 0 : kind == 1 ? 4 * i + 3 : (INT64_C(1) << (i % 61)) * 2;
        if (kind == 3 && i % 3 == 2) {
          uint64_t value = i % 12 == 2 ? 0 : UINT64_C(1) << (i % 62);
          w.queue.push_back({ 1, static_cast<uint64_t>(id), false, "", value });
          MC_CHECK(cb.stream_reset(w.c.conn, id, 1, value, u, nullptr) == 0, "callback", "a reset was refused");
          continue;
        }
        bytes b(static_cast<size_t>(i % 14 == 13 ? 65000 - i : i * 37 % 1500), static_cast<char>(i));
        bool fin = i % 5 == 4;
        w.queue.push_back({ 0, static_cast<uint64_t>(id), fin, b, 0 });
        bytes copy = b;
        int rv = cb.recv_stream_data(w.c.conn, id, fin ? 1 : 0, 0, reinterpret_cast<const uint8_t *>(copy.data()),
                                     copy.size(), u, nullptr);
        copy.assign(copy.size(), '!');
        MC_CHECK(rv == 0, "callback", "stream data was refused");
      }
      return 0;
    };
    auto r = w.c.c->recv(bnl::base::buffer_view("packet"));
    mc::step();
    transport.read_pkt = nullptr;
    MC_CHECK(r.has_value(), "recv", "recv() failed");
    if (!late) {
      w.finish(r.value());
    }
    last = std::make_unique<q::client::generator>(std::move(r).value());
  }
  w.state();
  w.finish(*last);
  mc::outcome(mc::hasher().add(static_cast<uint64_t>(n * 4 + kind)).add(static_cast<uint64_t>(packets)));
}

void
many_streams()
{
  static const std::vector<int> counts{ 4, 7, 8, 9, 16, 17, 33, 64, 65, 100, 257 };
  int n = mc::pick(counts, "streams");
  int taking = mc::choose(4, "taken"); // All, 7 bytes, all but for every third stream's first offer, blocked ids.
  int order = mc::choose(3, "acknowledged");
  quic::client c;
  c.complete();
  std::vector<int64_t> ids;
  std::map<int64_t, bytes> queued, accepted;
  std::map<int64_t, bool> fins;
  std::map<int64_t, int> refused;
  for (int i = 0; i < n; i++) {
    int64_t id = 4 * (i / 2) + 2 * (i % 2);
    ids.push_back(id);
    queued[id] = bytes(static_cast<size_t>(1 + i * 13 % 60), static_cast<char>('a' + i % 26)) + std::to_string(id);
    fins[id] = false;
    size_t half = queued[id].size() / 2;
    MC_CHECK(c.add(static_cast<uint64_t>(id), util::buf(queued[id].substr(0, half)), false).has_value() &&
               c.add(static_cast<uint64_t>(id), util::buf(queued[id].substr(half)), true).has_value(),
             "add", "add() failed");
  }
  bool produced = false;
  int blocked = taking == 3 ? 3 : 0; // Answers to opening bidirectional streams.
  transport.open = [&](bool bidi) -> int {
    if (bidi && blocked > 0) {
      return NGTCP2_ERR_STREAM_ID_BLOCKED;
    }
    return 0;
  };
  transport.write_stream = [&](const offer &o) {
    answer a;
    MC_CHECK(queued.count(o.id) == 1 && !fins[o.id], "stream", "data was offered on stream %lld",
             static_cast<long long>(o.id));
    bytes &done = accepted[o.id];
    MC_CHECK(queued[o.id].compare(done.size(), o.data.size(), o.data) == 0, "data", "stream %lld was offered %s",
             static_cast<long long>(o.id), o.data.c_str());
    MC_CHECK(!o.fin || done.size() + o.data.size() == queued[o.id].size(), "fin", "stream %lld was ended early",
             static_cast<long long>(o.id));
    if (taking == 2 && (o.id / 2) % 3 == 0 && refused[o.id]++ < 2) {
      a.error = NGTCP2_ERR_STREAM_DATA_BLOCKED;
      return a;
    }
    size_t taken = taking == 1 && o.data.size() > 7 ? 7 : o.data.size();
    a.taken = static_cast<ssize_t>(taken);
    a.packet = "packet";
    done += o.data.substr(0, taken);
    fins[o.id] = o.fin && taken == o.data.size();
    produced = true;
    return a;
  };
  int idle = 0;
  for (int i = 0; i < 20 * n + 20 && idle < 5; i++) {
    produced = false;
    auto r = c.c->send();
    mc::step();
    MC_CHECK(r.has_value() == produced, "send", "send() %s, although %s packet was made", r ? "succeeded" : "failed",
             produced ? "a" : "no");
    if (!produced) {
      MC_CHECK(r.error() == q::error::idle, "idle", "send() failed");
      idle++;
      blocked = blocked > 0 ? blocked - 1 : 0;
    }
  }
  for (int64_t id : ids) {
    MC_CHECK(accepted[id] == queued[id] && fins[id], "incomplete", "stream %lld was offered %zu of %zu bytes",
             static_cast<long long>(id), accepted[id].size(), queued[id].size());
  }
  fake_ngtcp2::check_kept("after sending");
  // Acknowledged in any order, in two parts.
  auto at = [&](int i) {
    return ids[static_cast<size_t>(order == 0 ? i : order == 1 ? n - 1 - i : i % 2 == 0 ? i / 2 : n - 1 - i / 2)];
  };
  for (int part = 0; part < 2; part++) {
    for (int i = 0; i < n; i++) {
      int64_t id = at(i);
      size_t size = queued[id].size();
      size_t ack = part == 0 ? size / 2 : size - size / 2;
      MC_CHECK(fake_ngtcp2::ack_stream(id, ack) == 0, "ack", "the acknowledgement of stream %lld failed",
               static_cast<long long>(id));
      mc::step();
      if (i % 16 == 0) {
        fake_ngtcp2::check_kept("after an acknowledgement");
      }
    }
  }
  for (int64_t id : ids) {
    int rv = c.callbacks().acked_stream_data_offset(c.conn, id, queued[id].size(), 1, c.conn->user_data, nullptr);
    MC_CHECK(rv == NGTCP2_ERR_CALLBACK_FAILURE, "finished", "stream %lld accepts acknowledgements after its last byte",
             static_cast<long long>(id));
  }
  MC_CHECK(transport.misuse.empty(), "misuse", "%s", transport.misuse.front().c_str());
  mc::outcome(mc::hasher().add(static_cast<uint64_t>(n)).add(static_cast<uint64_t>(taking * 3 + order)));
}

// Large handshake messages, acknowledged in parts.
void
large_handshake()
{
  peer p;
  p.picked = mc::pick(suites, "suite");
  p.early = mc::choose(2, "early data") == 1;
  p.hello = bytes();
  size_t size = mc::pick(std::vector<size_t>{ 1200, 4096, 16383, 16384, 65535, 65536, 70000 }, "size of the hello");
  for (size_t i = 0; i < size; i++) {
    p.hello += static_cast<char>(i * 7 + i / 253);
  }
  quic::client c;
  p.c = &c;
  p.install();
  no_early_data(c);
  size_t step = mc::pick(size <= 4096 ? std::vector<size_t>{ 1, 13, 1000, 100000 } : std::vector<size_t>{ 999, 4096, 65536, 100000 },
                         "acknowledged at once");
  size_t cut = mc::pick(std::vector<size_t>{ 1, 4, 100 }, "delivered at once");
  c.callbacks().client_initial(c.conn, c.conn->user_data);
  p.check("after the start");
  for (int level : { 0, 2 }) {
    bytes message = level == 0 ? "server hello" : "server finished";
    for (size_t at = 0; at < message.size(); at += cut) {
      p.deliver(level, message.substr(at, cut));
    }
    p.check("after handshake data");
  }
  MC_CHECK(p.stage == 3, "stage", "the handshake isn't complete");
  for (int level : { 2, 0 }) {
    size_t left = 0;
    for (const auto &k : c.conn->crypto[peer::transport_level(level)]) {
      left += k.copy.size();
    }
    for (int n = 0; left > 0; n++) {
      size_t now = left < step ? left : step;
      MC_CHECK(fake_ngtcp2::ack_crypto(peer::transport_level(level), now) == 0, "ack",
               "the acknowledgement of %zu bytes failed", now);
      mc::step();
      left -= now;
      if (n % 64 == 0) {
        fake_ngtcp2::check_kept("after an acknowledgement");
      }
    }
    int rv = c.callbacks().acked_crypto_offset(c.conn, static_cast<ngtcp2_crypto_level>(peer::transport_level(level)), 0,
                                               1, c.conn->user_data);
    MC_CHECK(rv == NGTCP2_ERR_CALLBACK_FAILURE, "excess", "an excessive acknowledgement succeeded");
  }
  mc::outcome(mc::hasher().add(size).add(step).add(p.picked.id));
}

// Timers

void
timers()
{
  quic::client c;
  c.complete();
  static const std::vector<uint64_t> times{ 0, 1, 999, 1000000, UINT64_C(1) << 50 };
  c.now = mc::pick(times, "time");
  uint64_t ns = c.now * 1000;
  auto when = [&](const char *label) {
    std::vector<uint64_t> all{ 0, ns, ns + 1, ns + 999, UINT64_MAX };
    if (ns > 0) {
      all.push_back(ns - 1);
    }
    return mc::pick(all, label);
  };
  int what = mc::choose(2, "what");
  if (what == 0) {
    transport.loss_expiry = when("loss detection");
    transport.ack_expiry = when("delayed acknowledgement");
    bool fail = mc::choose(2, "fails") == 1;
    transport.call = [&](const std::string &w) { return fail && w == "loss timer" ? NGTCP2_ERR_NOMEM : 0; };
    transport.calls.clear();
    transport.timestamps.clear();
    auto r = c.c->expire();
    mc::step();
    at_now(c, "expire()");
    bool loss = transport.loss_expiry <= ns, ack = transport.ack_expiry <= ns;
    int n_loss = 0, n_ack = 0;
    for (const auto &w : transport.calls) {
      n_loss += w == "loss timer" ? 1 : 0;
      n_ack += w == "ack timer" ? 1 : 0;
    }
    MC_CHECK(n_loss == (loss ? 1 : 0), "loss", "loss detection ran %d times", n_loss);
    if (loss && fail) {
      MC_CHECK(!r && r.error() == q::error::ngtcp2, "error", "expire() hides that loss detection failed");
    } else {
      MC_CHECK(r.has_value(), "error", "expire() failed");
      MC_CHECK(n_ack == (ack ? 1 : 0), "ack", "the delayed acknowledgement was cancelled %d times", n_ack);
    }
    mc::outcome(mc::hasher().add(static_cast<uint64_t>(n_loss)).add(static_cast<uint64_t>(n_ack)).add(r ? 1 : 0));
  } else {
    uint64_t expiry = when("expiry");
    transport.expiry = expiry;
    uint64_t us = c.c->expiry().count();
    mc::step();
    MC_CHECK(us == expiry / 1000 || us == expiry / 1000 + (expiry % 1000 != 0 ? 1 : 0), "expiry",
             "expiry() is %llu us for %llu ns", static_cast<unsigned long long>(us),
             static_cast<unsigned long long>(expiry));
    mc::outcome(mc::hasher().add(us));
  }
}

// Packet protection for the transport

void
protection()
{
  quic::client c;
  bool initial = mc::choose(2, "initial") == 1;
  int chosen = mc::choose(4, "suite");
  suite used = initial ? suites[0] : chosen < 3 ? suites[static_cast<size_t>(chosen)] : suite{ 0x03001304U, 0, 0 };
  bool negotiated = mc::choose(2, "negotiated") == 1;
  tls.cipher = negotiated ? (chosen < 3 ? suites[static_cast<size_t>(chosen)].id : 0x03001304U) : 0;
  bool usable = initial || (negotiated && chosen < 3);
  size_t size = mc::pick(std::vector<size_t>{ 0, 1, 16, 1200 }, "size");
  size_t ad_size = mc::pick(std::vector<size_t>{ 0, 1, 25 }, "associated data");
  auto fill = [](size_t n, int k) {
    raw out(n);
    for (size_t i = 0; i < n; i++) {
      out[i] = static_cast<uint8_t>(i * 11 + static_cast<size_t>(k) * 71 + 3);
    }
    return out;
  };
  raw plain = fill(size, 1), ad = fill(ad_size, 2), nonce = fill(12, 3), k = fill(ref::crypto::key_size(used.aead), 4);
  const ngtcp2_conn_callbacks &cb = c.callbacks();
  void *u = c.conn->user_data;
  raw sealed = ref::crypto::seal(used.aead, k, nonce, ad, plain);
  // Heap blocks of exact size, so that the sanitizer sees any overrun.
  {
    raw dest(size + 16, 0xee);
    auto f = initial ? cb.in_encrypt : cb.encrypt;
    ssize_t n = f(c.conn, dest.data(), dest.size(), plain.data(), plain.size(), k.data(), k.size(), nonce.data(),
                  nonce.size(), ad.data(), ad.size(), u);
    mc::step();
    if (usable) {
      MC_CHECK(n == static_cast<ssize_t>(size + 16), "sealed-size", "sealing %zu bytes returned %zd", size, n);
      MC_CHECK(dest == sealed, "sealed", "a packet is sealed wrongly");
      // In place, as the transport does it.
      raw both = plain;
      both.resize(size + 16);
      n = f(c.conn, both.data(), both.size(), both.data(), size, k.data(), k.size(), nonce.data(), nonce.size(), ad.data(),
            ad.size(), u);
      MC_CHECK(n == static_cast<ssize_t>(size + 16) && both == sealed, "in-place", "a packet can't be sealed in place");
      raw small(size + 15);
      n = f(c.conn, small.data(), small.size(), plain.data(), plain.size(), k.data(), k.size(), nonce.data(), nonce.size(),
            ad.data(), ad.size(), u);
      MC_CHECK(n < 0, "small", "sealing into too little memory succeeded");
    } else {
      MC_CHECK(n == NGTCP2_ERR_CALLBACK_FAILURE, "unnegotiated", "sealing without a cipher suite returned %zd", n);
    }
  }
  {
    raw dest(size + 16);
    auto f = initial ? cb.in_decrypt : cb.decrypt;
    auto open = [&](const raw &in, const raw &key, const raw &n, const raw &a) {
      return f(c.conn, dest.data(), dest.size(), in.data(), in.size(), key.data(), key.size(), n.data(), n.size(), a.data(),
               a.size(), u);
    };
    ssize_t n = open(sealed, k, nonce, ad);
    mc::step();
    if (usable) {
      MC_CHECK(n == static_cast<ssize_t>(size), "opened-size", "opening %zu bytes returned %zd", size + 16, n);
      MC_CHECK(raw(dest.begin(), dest.begin() + static_cast<ssize_t>(size)) == plain, "opened", "a packet is opened wrongly");
      raw other = sealed, other_ad = ad, other_nonce = nonce;
      other[mc::choose(2, "altered") == 0 ? 0 : other.size() - 1] ^= 0x40;
      other_ad.push_back(1);
      other_nonce[11] ^= 1;
      MC_CHECK(open(other, k, nonce, ad) < 0, "forged", "an altered packet was opened");
      MC_CHECK(open(sealed, k, nonce, other_ad) < 0, "forged", "a packet with another header was opened");
      MC_CHECK(open(sealed, k, other_nonce, ad) < 0, "forged", "a packet with another number was opened");
      MC_CHECK(open(raw(sealed.begin(), sealed.end() - 1), k, nonce, ad) < 0, "forged", "a truncated packet was opened");
      MC_CHECK(open(raw(15), k, nonce, ad) < 0, "forged", "a packet that's too short was opened");
      mc::step(5);
    } else {
      MC_CHECK(n == NGTCP2_ERR_CALLBACK_FAILURE, "unnegotiated", "opening without a cipher suite returned %zd", n);
    }
  }
  {
    raw sample = fill(16, 5 + static_cast<int>(size % 7)), dest(16, 0xee);
    auto f = initial ? cb.in_hp_mask : cb.hp_mask;
    ssize_t n = f(c.conn, dest.data(), dest.size(), k.data(), k.size(), sample.data(), sample.size(), u);
    mc::step();
    if (usable) {
      MC_CHECK(n == NGTCP2_HP_MASKLEN, "mask-size", "the mask has %zd bytes", n);
      dest.resize(5);
      MC_CHECK(dest == ref::crypto::mask(used.aead, k, sample), "mask", "the header protection mask is wrong");
    } else {
      MC_CHECK(n == NGTCP2_ERR_CALLBACK_FAILURE, "unnegotiated", "a mask without a cipher suite returned %zd", n);
    }
  }
  mc::state(mc::hasher().add(static_cast<uint64_t>(chosen)).add(initial ? 1 : 0).add(negotiated ? 1 : 0).add(size).add(ad_size));
  mc::outcome(usable ? 1 : 0);
}

// Key updates

void
updates()
{
  peer p;
  p.picked = mc::pick(suites, "suite");
  quic::client c;
  p.c = &c;
  p.install();
  c.c->send();
  p.deliver(0, "server hello");
  p.deliver(2, "server finished");
  p.check("after the handshake");
  bytes rx = secret(p.picked.hash, 30), tx = secret(p.picked.hash, 31);
  int n = 1 + mc::choose(mc::thorough() ? 6 : 4, "updates");
  for (int i = 0; i < n; i++) {
    p.fail_call = mc::pick(std::vector<std::string>{ "", "install updated tx", "install updated rx" }, "fails");
    int rv = c.callbacks().update_key(c.conn, c.conn->user_data);
    mc::step();
    if (!p.fail_call.empty()) {
      MC_CHECK(rv == NGTCP2_ERR_CALLBACK_FAILURE, "unreported", "a failing key update returned %d", rv);
      mc::outcome(mc::hasher().add(static_cast<uint64_t>(i)).add(p.fail_call));
      return;
    }
    MC_CHECK(rv == 0, "update", "a key update returned %d", rv);
    rx = next_secret(p.picked.hash, rx);
    tx = next_secret(p.picked.hash, tx);
    installed(c, "updated tx", key(p.picked.aead, p.picked.hash, tx), false);
    installed(c, "updated rx", key(p.picked.aead, p.picked.hash, rx), false);
    MC_CHECK(c.conn->keys["updated tx"].installed == i + 1 && c.conn->keys["updated rx"].installed == i + 1, "update",
             "a key update installed other than one key per direction");
    mc::state(mc::hasher().add(p.picked.id).add(static_cast<uint64_t>(i)));
  }
  mc::outcome(static_cast<uint64_t>(n));
}

// Other callbacks

void
callbacks()
{
  quic::options o;
  bool v6 = mc::choose(2, "family") == 1;
  if (v6) {
    bnl::base::buffer_view local("\x20\x01\x0d\xb8\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01");
    o.local = bnl::ip::endpoint(bnl::ipv6::address(local), 1234);
    o.peer = o.local;
  }
  quic::client c(o);
  const ngtcp2_conn_callbacks &cb = c.callbacks();
  void *u = c.conn->user_data;
  switch (mc::choose(6, "callback")) {
    case 0: {
      size_t n = mc::pick(std::vector<size_t>{ 0, 1, 8, 32, 256 }, "size");
      std::vector<uint8_t> a(n), b(n);
      MC_CHECK(cb.rand(c.conn, a.data(), n, NGTCP2_RAND_CTX_NONE, u) == 0 &&
                 cb.rand(c.conn, b.data(), n, NGTCP2_RAND_CTX_PATH_CHALLENGE, u) == 0,
               "rand", "random bytes were refused");
      mc::step(2);
      MC_CHECK(n < 32 || a != b, "rand", "random bytes repeat");
      // The last byte of 64 draws isn't always the same.
      bool varies = n == 0;
      for (int i = 0; i < 64 && !varies; i++) {
        std::vector<uint8_t> d(n);
        cb.rand(c.conn, d.data(), n, NGTCP2_RAND_CTX_NONE, u);
        varies = d.back() != a.back();
      }
      MC_CHECK(varies, "rand", "not all of the bytes are random");
      std::vector<uint8_t> many(4096);
      MC_CHECK(cb.rand(c.conn, many.data(), many.size(), NGTCP2_RAND_CTX_NONE, u) == 0, "rand",
               "random bytes were refused");
      int set = 0, clear = 0;
      for (uint8_t byte : many) {
        set |= byte;
        clear |= ~byte & 0xff;
      }
      MC_CHECK(set == 0xff && clear == 0xff, "rand", "some bits are never random");
      break;
    }
    case 1: {
      size_t n = mc::pick(std::vector<size_t>{ 4, 8, NGTCP2_MAX_CIDLEN }, "size");
      std::vector<bytes> ids, tokens;
      for (int i = 0; i < 2; i++) {
        ngtcp2_cid id;
        memset(&id, 0xee, sizeof id);
        std::vector<uint8_t> token(NGTCP2_STATELESS_RESET_TOKENLEN);
        MC_CHECK(cb.get_new_connection_id(c.conn, &id, token.data(), n, u) == 0, "cid", "a connection id was refused");
        mc::step();
        MC_CHECK(id.datalen == n, "cid-size", "a connection id has %zu instead of %zu bytes", id.datalen, n);
        for (size_t k = n; k < NGTCP2_MAX_CIDLEN; k++) {
          MC_CHECK(id.data[k] == 0xee, "cid-overrun", "a connection id is longer than %zu bytes", n);
        }
        ids.push_back(bytes(reinterpret_cast<char *>(id.data), n));
        tokens.push_back(bytes(token.begin(), token.end()));
        MC_CHECK(cb.remove_connection_id(c.conn, &id, u) == 0, "cid", "removing a connection id was refused");
      }
      MC_CHECK(n < 8 || ids[0] != ids[1], "cid", "connection ids repeat");
      MC_CHECK(tokens[0] != tokens[1] && tokens[0] != bytes(tokens[0].size(), '\0'), "token", "reset tokens repeat");
      break;
    }
    case 2: {
      ngtcp2_path_storage path;
      uint8_t a[4] = { 1, 2, 3, 4 };
      ngtcp2_path_storage_init(&path, a, 4, nullptr, a, 4, nullptr);
      bool ok = mc::choose(2, "valid") == 1;
      int rv = cb.path_validation(
        c.conn, &path.path, ok ? NGTCP2_PATH_VALIDATION_RESULT_SUCCESS : NGTCP2_PATH_VALIDATION_RESULT_FAILURE, u);
      mc::step();
      MC_CHECK(ok ? rv == 0 : rv == NGTCP2_ERR_CALLBACK_FAILURE, "path", "a path's validation returned %d", rv);
      break;
    }
    case 3: {
      ngtcp2_preferred_addr preferred = {};
      for (int i = 0; i < 16; i++) {
        preferred.ipv6_addr[i] = static_cast<uint8_t>(i + 100);
        if (i < 4) {
          preferred.ipv4_addr[i] = static_cast<uint8_t>(i + 50);
        }
      }
      preferred.ipv4_port = 4;
      preferred.ipv6_port = 6;
      size_t n = v6 ? 16 : 4;
      std::vector<uint8_t> memory(n);
      ngtcp2_addr dest{ n, memory.data(), nullptr };
      int rv = cb.select_preferred_addr(c.conn, &dest, &preferred, u);
      mc::step();
      MC_CHECK(rv == 0, "preferred", "the preferred address was refused");
      MC_CHECK(memcmp(memory.data(), v6 ? preferred.ipv6_addr : preferred.ipv4_addr, n) == 0, "preferred",
               "the preferred address isn't the server's of the same family");
      break;
    }
    case 4: {
      std::vector<uint8_t> rand(static_cast<size_t>(mc::choose(3, "size")) * 30), token(NGTCP2_STATELESS_RESET_TOKENLEN);
      ngtcp2_pkt_stateless_reset reset{ token.data(), rand.data(), rand.size() };
      int rv = cb.recv_stateless_reset(c.conn, &reset, u);
      mc::step();
      MC_CHECK(rv == NGTCP2_ERR_CALLBACK_FAILURE, "stateless-reset", "a stateless reset is ignored");
      break;
    }
    case 5: {
      ngtcp2_pkt_hd hd = {};
      ngtcp2_pkt_retry retry = {};
      int rv = cb.recv_retry(c.conn, &hd, &retry, u);
      mc::step();
      MC_CHECK(rv == NGTCP2_ERR_CALLBACK_FAILURE, "retry", "a retry, which isn't implemented, is ignored");
      break;
    }
  }
  mc::outcome(1);
}

void
messages()
{
  quic::client c;
  std::vector<std::string> all;
  logger.messages = &all;
  struct restore {
    ~restore() { logger.messages = nullptr; }
  } restore;
  std::string text = mc::pick(std::vector<std::string>{ "plain", "{}", "{", "}", "{0} {1}", "{name}", "%d 100%", "{{}}",
                                                        std::string(200, 'x') + "{", "", std::string(480, 'a') + "b",
                                                        std::string(520, 'c') + "d", std::string(960, 'e') + "f" },
                              "text");
  int n = mc::pick(std::vector<int>{ 0, -1, 123456 }, "number");
  c.conn->settings.log_printf(c.conn->user_data, "I%08x %s %d", 7, text.c_str(), n);
  mc::step();
  std::string expected = "I00000007 " + text + " " + std::to_string(n);
  bool found = false;
  for (const std::string &m : all) {
    found = found || m.find(expected) != std::string::npos;
  }
  MC_CHECK(found, "log", "the message \"%s\" wasn't logged verbatim", expected.c_str());
  // Longer than any buffer.
  c.conn->settings.log_printf(c.conn->user_data, "%s", std::string(5000, 'y').c_str());
  mc::outcome(all.size());
}

}

int
main(int argc, char **argv)
{
  bnl::base::logger = &logger;
  return mc::run(
    argc, argv,
    { { "construction", "5 hosts x 2 families x equal or different addresses x 4 sets of parameters", construction, 2 },
      { "handshake",
        "histories of up to 6 (thorough: 8) sends, arrivals of (parts of) flights, acknowledgements per level and queued "
        "data x 3 suites x early data x size of the first flight",
        handshake, 4 },
      { "handshake faults", "14 faults x 3 suites x early data x 3 error queues x 2 ways to start", handshake_faults, 2 },
      { "sending",
        "3 (thorough: 4) sends on three streams with every answer of the transport for its own packets, opening and data, "
        "then drained and acknowledged",
        sending, 3 },
      { "receiving",
        "histories of up to 4 (thorough: 5) packets with up to one callback of 9 (thorough: 11) kinds, succeeding or "
        "failing, and events taken in between",
        receiving, 3 },
      { "bursts", "every sequence of up to 4 (thorough: 5) callbacks in one packet, succeeding or failing", bursts, 3 },
      { "many events", "16 numbers of callbacks up to 600, over 4 numbers of packets, on 4 kinds of streams, taken at once or last",
        many_events, 2 },
      { "many streams", "11 numbers of streams up to 257 x 4 answers of the transport x 3 orders of acknowledgement",
        many_streams, 2 },
      { "large handshake", "3 suites x early data x 7 sizes x acknowledged and delivered in parts of 4 and 3 sizes",
        large_handshake, 2 },
      { "timers", "5 times x 6 positions of either timer and of the expiry around the current time", timers, 2 },
      { "protection", "initial or negotiated keys x 3 suites, unknown or none x 4 sizes x 3 sizes of associated data",
        protection, 2 },
      { "updates", "3 suites x up to 4 (thorough: 6) key updates, failing at any of them", updates, 2 },
      { "callbacks", "the remaining callbacks with both families, every answer and boundary sizes", callbacks, 2 },
      { "messages", "10 texts x 3 numbers as messages of the transport", messages, 1 } });
}

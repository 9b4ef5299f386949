#include "fake_ngtcp2.hpp"

#include <explore.hpp>

#include <cstring>

#include <sanitizer/asan_interface.h>

namespace fake_ngtcp2 {

state transport;

void
reset()
{
  delete transport.connection;
  transport = state();
}

static bytes
take(const uint8_t *data, size_t size)
{
  return bytes(reinterpret_cast<const char *>(data), size);
}

static void
check(const char *when, const char *what, const std::vector<kept> &all)
{
  for (const kept &k : all) {
    if (k.copy.empty()) {
      continue;
    }
    MC_CHECK(__asan_region_is_poisoned(const_cast<uint8_t *>(k.data), k.copy.size()) == nullptr, "kept-freed",
             "%s: memory of %zu unacknowledged %s bytes is gone", when, k.copy.size(), what);
    MC_CHECK(memcmp(k.data, k.copy.data(), k.copy.size()) == 0, "kept-changed",
             "%s: %zu unacknowledged %s bytes changed", when, k.copy.size(), what);
  }
}

void
check_kept(const char *when)
{
  if (transport.connection == nullptr) {
    return;
  }
  for (const auto &entry : transport.connection->streams) {
    check(when, "stream", entry.second.accepted);
  }
  for (const auto &entry : transport.connection->crypto) {
    check(when, "handshake", entry.second);
  }
}

static void
drop(std::vector<kept> &all, size_t size)
{
  while (size > 0 && !all.empty()) {
    kept &k = all.front();
    size_t n = k.copy.size() < size ? k.copy.size() : size;
    k.copy.erase(0, n);
    k.data += n;
    size -= n;
    if (k.copy.empty()) {
      all.erase(all.begin());
    }
  }
}

int
ack_stream(int64_t id, size_t size, bool tell)
{
  ngtcp2_conn *c = transport.connection;
  stream &s = c->streams[id];
  uint64_t offset = s.acked_bytes;
  drop(s.accepted, size);
  s.acked_bytes += size;
  return tell ? c->callbacks.acked_stream_data_offset(c, id, offset, size, c->user_data, nullptr) : 0;
}

int
ack_crypto(int level, size_t size)
{
  ngtcp2_conn *c = transport.connection;
  drop(c->crypto[level], size);
  return c->callbacks.acked_crypto_offset(c, static_cast<ngtcp2_crypto_level>(level), 0, size, c->user_data);
}

void
forget()
{
  ngtcp2_conn *c = transport.connection;
  if (c != nullptr) {
    std::map<int64_t, stream>().swap(c->streams);
    std::map<int, std::vector<kept>>().swap(c->crypto);
    std::vector<std::pair<int, bytes>>().swap(c->submitted);
  }
  std::vector<std::string>().swap(transport.calls);
  std::vector<uint64_t>().swap(transport.timestamps);
  bytes().swap(transport.paths);
  bytes().swap(transport.path_remote);
}

// The parameters as draft-22 encodes them; those with default values are left out.
bytes
encode(const ngtcp2_settings &settings)
{
  bytes list;
  auto number = [](bytes &out, uint64_t value, int size) {
    for (int i = size - 1; i >= 0; i--) {
      out += static_cast<char>(value >> (8 * i));
    }
  };
  auto add = [&](int id, uint64_t value, uint64_t absent) {
    if (value == absent) {
      return;
    }
    int prefix = value < 64 ? 0 : value < 16384 ? 1 : value < (UINT64_C(1) << 30) ? 2 : 3;
    int size = 1 << prefix;
    number(list, id, 2);
    number(list, size, 2);
    number(list, value | (static_cast<uint64_t>(prefix) << (8 * size - 2)), size);
  };
  add(5, settings.max_stream_data_bidi_local, 0);
  add(6, settings.max_stream_data_bidi_remote, 0);
  add(7, settings.max_stream_data_uni, 0);
  add(4, settings.max_data, 0);
  add(8, settings.max_streams_bidi, 0);
  add(9, settings.max_streams_uni, 0);
  add(1, settings.idle_timeout, 0);
  add(3, settings.max_packet_size, 65527);
  add(10, settings.ack_delay_exponent, 3);
  if (settings.disable_migration != 0) {
    number(list, 12, 2);
    number(list, 0, 2);
  }
  add(11, settings.max_ack_delay, 25);
  bytes out;
  number(out, list.size(), 2);
  return out + list;
}

}

using fake_ngtcp2::bytes;
using fake_ngtcp2::transport;

namespace {

int
call(const std::string &what)
{
  transport.calls.push_back(what);
  return transport.call ? transport.call(what) : 0;
}

void
at(ngtcp2_tstamp ts)
{
  transport.timestamps.push_back(ts);
}

void
path(const ngtcp2_path *p)
{
  if (p != nullptr) {
    transport.paths = fake_ngtcp2::take(p->local.addr, p->local.addrlen);
    transport.path_remote = fake_ngtcp2::take(p->remote.addr, p->remote.addrlen);
  }
}

int
install(ngtcp2_conn *c, const char *name, const uint8_t *data, size_t data_size, const uint8_t *iv, size_t iv_size,
        const uint8_t *hp, size_t hp_size)
{
  int rv = call(std::string("install ") + name);
  if (rv != 0) {
    return rv;
  }
  fake_ngtcp2::key &k = c->keys[name];
  k.data = fake_ngtcp2::take(data, data_size);
  k.iv = fake_ngtcp2::take(iv, iv_size);
  k.hp = fake_ngtcp2::take(hp, hp_size);
  k.installed++;
  return 0;
}

}

extern "C" {

const char *
ngtcp2_strerror(int)
{
  return "error of the transport {}";
}

void
ngtcp2_settings_default(ngtcp2_settings *settings)
{
  memset(settings, 0, sizeof(*settings));
}

void
ngtcp2_path_storage_init(ngtcp2_path_storage *s, const void *local, size_t local_size, void *local_data,
                         const void *remote, size_t remote_size, void *remote_data)
{
  memcpy(s->local_addrbuf, local, local_size);
  memcpy(s->remote_addrbuf, remote, remote_size);
  s->path.local = { local_size, s->local_addrbuf, local_data };
  s->path.remote = { remote_size, s->remote_addrbuf, remote_data };
}

int
ngtcp2_conn_client_new(ngtcp2_conn **out, const ngtcp2_cid *dcid, const ngtcp2_cid *scid, const ngtcp2_path *p,
                       uint32_t version, const ngtcp2_conn_callbacks *callbacks, const ngtcp2_settings *settings,
                       const ngtcp2_mem *, void *user_data)
{
  auto c = new ngtcp2_conn();
  c->callbacks = *callbacks;
  c->settings = *settings;
  c->user_data = user_data;
  c->dcid = *dcid;
  c->scid = *scid;
  c->version = version;
  c->local = fake_ngtcp2::take(p->local.addr, p->local.addrlen);
  c->remote = fake_ngtcp2::take(p->remote.addr, p->remote.addrlen);
  at(settings->initial_ts);
  transport.created++;
  transport.connection = c;
  *out = c;
  return 0;
}

void
ngtcp2_conn_del(ngtcp2_conn *c)
{
  if (c != nullptr) {
    transport.deleted++;
    if (transport.connection == c) {
      transport.connection = nullptr;
    }
    delete c;
  }
}

void
ngtcp2_conn_set_aead_overhead(ngtcp2_conn *c, size_t overhead)
{
  c->overhead = overhead;
}

int
ngtcp2_conn_get_handshake_completed(ngtcp2_conn *c)
{
  return c->completed ? 1 : 0;
}

void
ngtcp2_conn_handshake_completed(ngtcp2_conn *c)
{
  c->completed = true;
  c->completions++;
}

void
ngtcp2_conn_get_local_transport_params(ngtcp2_conn *c, ngtcp2_transport_params *params)
{
  *params = {};
  params->settings = c->settings;
}

ssize_t
ngtcp2_encode_transport_params(uint8_t *dest, size_t size, ngtcp2_transport_params_type type,
                               const ngtcp2_transport_params *params)
{
  int rv = call("encode params");
  if (rv != 0) {
    return rv;
  }
  bytes text = type == NGTCP2_TRANSPORT_PARAMS_TYPE_CLIENT_HELLO ? fake_ngtcp2::encode(params->settings)
                                                                 : "server params " + std::to_string(params->value);
  if (text.size() > size) {
    return NGTCP2_ERR_NOBUF;
  }
  memcpy(dest, text.data(), text.size());
  return static_cast<ssize_t>(text.size());
}

int
ngtcp2_decode_transport_params(ngtcp2_transport_params *params, ngtcp2_transport_params_type type, const uint8_t *data,
                               size_t size)
{
  int rv = call("decode params");
  if (rv != 0) {
    return rv;
  }
  bytes text = fake_ngtcp2::take(data, size);
  bytes prefix = "server params ";
  if (type != NGTCP2_TRANSPORT_PARAMS_TYPE_ENCRYPTED_EXTENSIONS || text.compare(0, prefix.size(), prefix) != 0) {
    return NGTCP2_ERR_PROTO;
  }
  params->value = std::stoull(text.substr(prefix.size()));
  return 0;
}

int
ngtcp2_conn_set_remote_transport_params(ngtcp2_conn *c, const ngtcp2_transport_params *params)
{
  int rv = call("set params");
  if (rv == 0) {
    c->remote_params = std::to_string(params->value);
  }
  return rv;
}

#define INSTALL(function, name)                                                                                        \
  int function(ngtcp2_conn *c, const uint8_t *data, size_t data_size, const uint8_t *iv, size_t iv_size,               \
               const uint8_t *hp, size_t hp_size)                                                                      \
  {                                                                                                                    \
    return install(c, name, data, data_size, iv, iv_size, hp, hp_size);                                                \
  }

INSTALL(ngtcp2_conn_install_initial_tx_keys, "initial tx")
INSTALL(ngtcp2_conn_install_initial_rx_keys, "initial rx")
INSTALL(ngtcp2_conn_install_early_keys, "early tx")
INSTALL(ngtcp2_conn_install_handshake_tx_keys, "handshake tx")
INSTALL(ngtcp2_conn_install_handshake_rx_keys, "handshake rx")
INSTALL(ngtcp2_conn_install_tx_keys, "tx")
INSTALL(ngtcp2_conn_install_rx_keys, "rx")

int
ngtcp2_conn_update_tx_key(ngtcp2_conn *c, const uint8_t *data, size_t data_size, const uint8_t *iv, size_t iv_size)
{
  return install(c, "updated tx", data, data_size, iv, iv_size, nullptr, 0);
}

int
ngtcp2_conn_update_rx_key(ngtcp2_conn *c, const uint8_t *data, size_t data_size, const uint8_t *iv, size_t iv_size)
{
  return install(c, "updated rx", data, data_size, iv, iv_size, nullptr, 0);
}

int
ngtcp2_conn_submit_crypto_data(ngtcp2_conn *c, ngtcp2_crypto_level level, const uint8_t *data, size_t size)
{
  int rv = call("submit");
  if (rv != 0) {
    return rv;
  }
  c->crypto[level].push_back({ data, fake_ngtcp2::take(data, size) });
  c->submitted.push_back({ level, fake_ngtcp2::take(data, size) });
  return 0;
}

ssize_t
ngtcp2_conn_write_pkt(ngtcp2_conn *, ngtcp2_path *p, uint8_t *dest, size_t size, ngtcp2_tstamp ts)
{
  at(ts);
  path(p);
  return transport.write_pkt ? transport.write_pkt(dest, size) : 0;
}

ssize_t
ngtcp2_conn_write_stream(ngtcp2_conn *c, ngtcp2_path *p, uint8_t *dest, size_t size, ssize_t *taken, uint32_t,
                         int64_t id, uint8_t fin, const uint8_t *data, size_t data_size, ngtcp2_tstamp ts)
{
  at(ts);
  path(p);
  *taken = fake_ngtcp2::answer::NONE;
  auto it = c->streams.find(id);
  if (it == c->streams.end()) {
    transport.misuse.push_back("data of a stream that isn't open");
    return NGTCP2_ERR_STREAM_NOT_FOUND;
  }
  fake_ngtcp2::stream &s = it->second;
  if (s.fin) {
    transport.misuse.push_back("data after the end of a stream");
    return NGTCP2_ERR_STREAM_SHUT_WR;
  }
  fake_ngtcp2::offer offer{ id, fake_ngtcp2::take(data, data_size), fin != 0 };
  fake_ngtcp2::answer a;
  a.taken = static_cast<ssize_t>(data_size);
  a.packet = "packet";
  if (transport.write_stream) {
    a = transport.write_stream(offer);
  }
  if (a.error != 0) {
    return a.error;
  }
  if (a.taken >= 0 && !a.packet.empty()) {
    size_t n = static_cast<size_t>(a.taken);
    if (n > 0) {
      s.accepted.push_back({ data, offer.data.substr(0, n) });
      s.accepted_bytes += n;
    }
    s.fin = fin != 0 && n == data_size;
    *taken = a.taken;
  }
  if (a.packet.size() > size) {
    a.packet.resize(size);
  }
  memcpy(dest, a.packet.data(), a.packet.size());
  return static_cast<ssize_t>(a.packet.size());
}

int
ngtcp2_conn_read_pkt(ngtcp2_conn *, const ngtcp2_path *p, const uint8_t *data, size_t size, ngtcp2_tstamp ts)
{
  at(ts);
  path(p);
  return transport.read_pkt ? transport.read_pkt(fake_ngtcp2::take(data, size)) : 0;
}

const ngtcp2_cid *
ngtcp2_conn_get_dcid(ngtcp2_conn *c)
{
  return &c->dcid;
}

uint64_t
ngtcp2_conn_get_idle_timeout(ngtcp2_conn *)
{
  return transport.idle_timeout;
}

uint64_t
ngtcp2_conn_get_expiry(ngtcp2_conn *)
{
  return transport.expiry;
}

ngtcp2_tstamp
ngtcp2_conn_loss_detection_expiry(ngtcp2_conn *)
{
  return transport.loss_expiry;
}

ngtcp2_tstamp
ngtcp2_conn_ack_delay_expiry(ngtcp2_conn *)
{
  return transport.ack_expiry;
}

int
ngtcp2_conn_on_loss_detection_timer(ngtcp2_conn *, ngtcp2_tstamp ts)
{
  at(ts);
  return call("loss timer");
}

void
ngtcp2_conn_cancel_expired_ack_delay_timer(ngtcp2_conn *, ngtcp2_tstamp ts)
{
  at(ts);
  call("ack timer");
}

static int
open(ngtcp2_conn *c, int64_t *id, bool bidi)
{
  int rv = transport.open ? transport.open(bidi) : 0;
  if (rv == 0) {
    int64_t &next = bidi ? c->next_bidi : c->next_uni;
    *id = next;
    c->streams[next] = fake_ngtcp2::stream();
    next += 4;
  }
  return rv;
}

int
ngtcp2_conn_open_bidi_stream(ngtcp2_conn *c, int64_t *id, void *)
{
  return open(c, id, true);
}

int
ngtcp2_conn_open_uni_stream(ngtcp2_conn *c, int64_t *id, void *)
{
  return open(c, id, false);
}

int
ngtcp2_conn_shutdown_stream(ngtcp2_conn *, int64_t, uint64_t)
{
  return call("shutdown stream");
}

int
ngtcp2_conn_extend_max_stream_offset(ngtcp2_conn *, int64_t, uint64_t)
{
  return call("extend stream");
}

void
ngtcp2_conn_extend_max_offset(ngtcp2_conn *, uint64_t)
{
  call("extend");
}
}

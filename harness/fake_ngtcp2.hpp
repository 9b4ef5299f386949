// A model of the transport (ngtcp2): it records everything it is given, keeps the
// streams' and handshake's books and lets the harness answer.
#pragma once

#include <ngtcp2/ngtcp2.h>

#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace fake_ngtcp2 {

using bytes = std::string;

// Memory the transport was given to keep until it is acknowledged.
struct kept {
  const uint8_t *data;
  bytes copy;
};

struct key {
  bytes data;
  bytes iv;
  bytes hp;
  int installed = 0;
};

struct stream {
  std::vector<kept> accepted; // Not yet (wholly) acknowledged.
  uint64_t accepted_bytes = 0;
  uint64_t acked_bytes = 0;
  bool fin = false;
};

struct offer {
  int64_t id;
  bytes data;
  bool fin;
};

// Answer to an offer of stream data.
struct answer {
  // How much of the offer is taken: a size, or NONE when the packet has no room for
  // stream data, with `packet` as the packet made (empty: congested).
  static constexpr ssize_t NONE = -1;
  int error = 0;
  ssize_t taken = NONE;
  bytes packet;
};

}

struct ngtcp2_conn {
  ngtcp2_conn_callbacks callbacks;
  ngtcp2_settings settings;
  void *user_data = nullptr;
  ngtcp2_cid dcid;
  ngtcp2_cid scid;
  uint32_t version = 0;
  fake_ngtcp2::bytes local, remote;
  std::map<std::string, fake_ngtcp2::key> keys;
  bool completed = false;
  int completions = 0;
  size_t overhead = 0;
  std::map<int, std::vector<fake_ngtcp2::kept>> crypto; // By level.
  std::vector<std::pair<int, fake_ngtcp2::bytes>> submitted;
  fake_ngtcp2::bytes remote_params;
  std::map<int64_t, fake_ngtcp2::stream> streams;
  int64_t next_bidi = 0;
  int64_t next_uni = 2;
};

namespace fake_ngtcp2 {

struct state {
  ngtcp2_conn *connection = nullptr; // The one that exists.
  int created = 0;
  int deleted = 0;

  // Answers; without one the transport is idle and takes everything.
  std::function<ssize_t(uint8_t *dest, size_t size)> write_pkt;
  std::function<int(bool bidi)> open;
  std::function<answer(const offer &)> write_stream;
  std::function<int(const bytes &packet)> read_pkt;
  std::function<int(const std::string &what)> call; // Any other call: an error or 0.

  std::vector<uint64_t> timestamps; // Passed to any call.
  uint64_t expiry = UINT64_MAX;
  uint64_t loss_expiry = UINT64_MAX;
  uint64_t ack_expiry = UINT64_MAX;
  uint64_t idle_timeout = 0;
  std::vector<std::string> calls;
  std::vector<std::string> misuse;
  bytes paths; // The local and remote address of the last call with a path.
  bytes path_remote;
};

extern state transport;

void reset();

// The transport parameters of a client with the given settings.
bytes encode(const ngtcp2_settings &settings);

// Checks that kept memory is alive and unchanged.
void check_kept(const char *when);

// Acknowledges bytes of a stream: forgets them and tells the client. Returns what
// the callback returns.
int ack_stream(int64_t id, size_t size, bool tell = true);
int ack_crypto(int level, size_t size);

// Drops every record, so that the memory of the fake isn't counted.
void forget();

}

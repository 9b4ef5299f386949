// A model of the TLS library: it records how it is set up, and the harness plays the
// handshake.
#pragma once

#include <openssl/ssl.h>

#include <cstdint>
#include <functional>
#include <string>
#include <vector>

struct ssl_cipher_st {
  uint32_t id;
};

struct ssl_st {
  void *data = nullptr;
  std::string alpn;
  bool client = false;
  uint16_t min = 0;
  uint16_t max = 0;
  std::string host;
  std::string params;
  const SSL_QUIC_METHOD *method = nullptr;
  int error = SSL_ERROR_NONE; // Of the last SSL_do_handshake().
};

namespace fake_ssl {

struct state {
  SSL *ssl = nullptr; // The one that exists.
  int contexts = 0;
  int created = 0;
  int freed = 0;
  uint32_t cipher = 0; // 0: not negotiated.
  std::string peer_params = "server params 77";
  std::function<int(SSL *)> do_handshake; // An SSL_ERROR_*; none: waits for data.
  std::function<bool(SSL *, int level, const std::string &data)> provide;
  std::function<bool(SSL *)> post_handshake;
  std::vector<unsigned long> errors; // The error queue.
};

extern state tls;

void reset();

}

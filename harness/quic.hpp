// Drives the real QUIC client over the models of the transport and of TLS.
#pragma once

#include "fake_ngtcp2.hpp"
#include "fake_ssl.hpp"
#include "util.hpp"

#include <bnl/ip/host.hpp>
#include <bnl/quic/client/connection.hpp>

#include <memory>

namespace quic {

namespace q = bnl::quic;
using util::bytes;

struct options {
  const char *host = "example.org";
  bnl::ip::endpoint local{ bnl::ipv4::address(bnl::base::buffer_view("\xc0\x00\x02\x01")), 5000 };
  bnl::ip::endpoint peer{ bnl::ipv4::address(bnl::base::buffer_view("\xc6\x33\x64\x07")), 443 };
  q::params params;
};

class client {
public:
  explicit client(const options &o = options())
  {
    fake_ngtcp2::reset();
    fake_ssl::reset();
    now = 1000;
    c = std::make_unique<q::client::connection>(bnl::ip::host(o.host), q::path(o.local, o.peer), o.params,
                                                [this]() { return q::duration(now); });
    conn = fake_ngtcp2::transport.connection;
    ssl = fake_ssl::tls.ssl;
  }

  ~client()
  {
    c.reset();
    fake_ngtcp2::reset();
    fake_ssl::reset();
  }

  client(const client &) = delete;

  // As after a handshake.
  void complete()
  {
    fake_ssl::tls.do_handshake = [](SSL *) { return SSL_ERROR_NONE; };
    fake_ssl::tls.cipher = 0x03001301U;
    conn->completed = true;
  }

  q::result<void> add(uint64_t id, bnl::base::buffer piece, bool fin)
  {
    q::data data;
    data.id = id;
    data.fin = fin;
    data.buffer = std::move(piece);
    return c->add(q::event(std::move(data)));
  }

  const ngtcp2_conn_callbacks &callbacks() const { return conn->callbacks; }

  uint64_t now; // Microseconds.
  std::unique_ptr<q::client::connection> c;
  ngtcp2_conn *conn;
  SSL *ssl;
};

}

#include "fake_ssl.hpp"

#include <cstdio>
#include <cstring>

struct ssl_ctx_st {
  int references;
};

struct ssl_method_st {
  int unused;
};

namespace fake_ssl {

state tls;

void
reset()
{
  tls = state();
}

}

using fake_ssl::tls;

extern "C" {

const SSL_METHOD *
TLS_method(void)
{
  static const ssl_method_st method = {};
  return &method;
}

SSL_CTX *
SSL_CTX_new(const SSL_METHOD *)
{
  tls.contexts++;
  return new ssl_ctx_st{ 1 };
}

void
SSL_CTX_free(SSL_CTX *ctx)
{
  tls.contexts--;
  delete ctx;
}

int
SSL_CTX_set_default_verify_paths(SSL_CTX *)
{
  return 1;
}

SSL *
SSL_new(SSL_CTX *)
{
  tls.created++;
  tls.ssl = new ssl_st();
  return tls.ssl;
}

void
SSL_free(SSL *ssl)
{
  if (ssl != nullptr) {
    tls.freed++;
    if (tls.ssl == ssl) {
      tls.ssl = nullptr;
    }
    delete ssl;
  }
}

int
SSL_set_ex_data(SSL *ssl, int, void *data)
{
  ssl->data = data;
  return 1;
}

void *
SSL_get_ex_data(const SSL *ssl, int)
{
  return ssl->data;
}

// Returns 0 on success, unlike everything else.
int
SSL_set_alpn_protos(SSL *ssl, const uint8_t *data, unsigned size)
{
  ssl->alpn = std::string(reinterpret_cast<const char *>(data), size);
  return 0;
}

void
SSL_set_connect_state(SSL *ssl)
{
  ssl->client = true;
}

int
SSL_set_min_proto_version(SSL *ssl, uint16_t version)
{
  ssl->min = version;
  return 1;
}

int
SSL_set_max_proto_version(SSL *ssl, uint16_t version)
{
  ssl->max = version;
  return 1;
}

int
SSL_set_tlsext_host_name(SSL *ssl, const char *name)
{
  ssl->host = name;
  return 1;
}

int
SSL_set_quic_transport_params(SSL *ssl, const uint8_t *data, size_t size)
{
  ssl->params = std::string(reinterpret_cast<const char *>(data), size);
  return 1;
}

int
SSL_set_quic_method(SSL *ssl, const SSL_QUIC_METHOD *method)
{
  ssl->method = method;
  return 1;
}

int
SSL_do_handshake(SSL *ssl)
{
  ssl->error = tls.do_handshake ? tls.do_handshake(ssl) : SSL_ERROR_WANT_READ;
  return ssl->error == SSL_ERROR_NONE ? 1 : -1;
}

int
SSL_get_error(const SSL *ssl, int rv)
{
  return rv > 0 ? SSL_ERROR_NONE : ssl->error;
}

int
SSL_provide_quic_data(SSL *ssl, ssl_encryption_level_t level, const uint8_t *data, size_t size)
{
  return !tls.provide || tls.provide(ssl, level, std::string(reinterpret_cast<const char *>(data), size)) ? 1 : 0;
}

int
SSL_process_quic_post_handshake(SSL *ssl)
{
  return !tls.post_handshake || tls.post_handshake(ssl) ? 1 : 0;
}

void
SSL_get_peer_quic_transport_params(const SSL *, const uint8_t **data, size_t *size)
{
  *data = reinterpret_cast<const uint8_t *>(tls.peer_params.data());
  *size = tls.peer_params.size();
}

const SSL_CIPHER *
SSL_get_current_cipher(const SSL *)
{
  static ssl_cipher_st cipher;
  cipher.id = tls.cipher;
  return tls.cipher == 0 ? nullptr : &cipher;
}

uint32_t
SSL_CIPHER_get_id(const SSL_CIPHER *cipher)
{
  return cipher->id;
}

const char *
SSL_CIPHER_standard_name(const SSL_CIPHER *)
{
  return "a cipher suite {}";
}

unsigned long
fake_ERR_get_error(void)
{
  if (tls.errors.empty()) {
    return 0;
  }
  unsigned long e = tls.errors.front();
  tls.errors.erase(tls.errors.begin());
  return e;
}

void
fake_ERR_error_string_n(uint32_t error, char *out, size_t size)
{
  snprintf(out, size, "error:%08x:lib{0}:{reason}", error);
}
}

// The part of ngtcp2's API (mid 2019, draft-22) that bnl-quic uses. ngtcp2 isn't
// installed here, so harness/fake_ngtcp2.hpp implements these functions as a model of
// the transport whose answers are chosen by the explorer.
#pragma once

#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <sys/types.h>

#define NGTCP2_PROTO_VER 0xff000016u
#define NGTCP2_ALPN_H3 "\x5h3-22"
#define NGTCP2_INITIAL_SALT                                                    \
  "\x7f\xbc\xdb\x0e\x7c\x66\xbb\xe9\x19\x3a\x96\xcd\x21\x51\x9e\xbd\x7a\x02"   \
  "\x64\x4a"
#define NGTCP2_HP_MASKLEN 5
#define NGTCP2_MAX_CIDLEN 18
#define NGTCP2_STATELESS_RESET_TOKENLEN 16
#define NGTCP2_MAX_PKTLEN_IPV4 1252
#define NGTCP2_MAX_PKTLEN_IPV6 1232
#define NGTCP2_SECONDS ((uint64_t) 1000000000ULL)
#define NGTCP2_MILLISECONDS ((uint64_t) 1000000ULL)
#define NGTCP2_MICROSECONDS ((uint64_t) 1000ULL)
#define NGTCP2_NANOSECONDS ((uint64_t) 1ULL)

typedef uint64_t ngtcp2_tstamp;
typedef uint64_t ngtcp2_duration;

enum {
  NGTCP2_ERR_INVALID_ARGUMENT = -201,
  NGTCP2_ERR_NOBUF = -203,
  NGTCP2_ERR_PROTO = -205,
  NGTCP2_ERR_INVALID_STATE = -206,
  NGTCP2_ERR_STREAM_ID_BLOCKED = -208,
  NGTCP2_ERR_STREAM_DATA_BLOCKED = -210,
  NGTCP2_ERR_FLOW_CONTROL = -211,
  NGTCP2_ERR_CRYPTO = -219,
  NGTCP2_ERR_INTERNAL = -225,
  NGTCP2_ERR_STREAM_SHUT_WR = -230,
  NGTCP2_ERR_STREAM_NOT_FOUND = -231,
  NGTCP2_ERR_DRAINING = -233,
  NGTCP2_ERR_NOMEM = -501,
  NGTCP2_ERR_CALLBACK_FAILURE = -502
};

enum ngtcp2_crypto_level : int {
  NGTCP2_CRYPTO_LEVEL_INITIAL,
  NGTCP2_CRYPTO_LEVEL_HANDSHAKE,
  NGTCP2_CRYPTO_LEVEL_APP,
  NGTCP2_CRYPTO_LEVEL_EARLY
};

enum ngtcp2_rand_ctx : int { NGTCP2_RAND_CTX_NONE, NGTCP2_RAND_CTX_PATH_CHALLENGE };

enum ngtcp2_path_validation_result : int {
  NGTCP2_PATH_VALIDATION_RESULT_SUCCESS,
  NGTCP2_PATH_VALIDATION_RESULT_FAILURE
};

enum ngtcp2_transport_params_type {
  NGTCP2_TRANSPORT_PARAMS_TYPE_CLIENT_HELLO,
  NGTCP2_TRANSPORT_PARAMS_TYPE_ENCRYPTED_EXTENSIONS
};

enum ngtcp2_write_stream_flag {
  NGTCP2_WRITE_STREAM_FLAG_NONE = 0x00,
  NGTCP2_WRITE_STREAM_FLAG_MORE = 0x01
};

struct ngtcp2_conn;

struct ngtcp2_cid {
  size_t datalen;
  uint8_t data[NGTCP2_MAX_CIDLEN];
};

struct ngtcp2_addr {
  size_t addrlen;
  uint8_t *addr;
  void *user_data;
};

struct ngtcp2_path {
  ngtcp2_addr local;
  ngtcp2_addr remote;
};

struct ngtcp2_path_storage {
  uint8_t local_addrbuf[128];
  uint8_t remote_addrbuf[128];
  ngtcp2_path path;
};

struct ngtcp2_pkt_hd {
  ngtcp2_cid dcid;
  ngtcp2_cid scid;
  int64_t pkt_num;
  uint32_t version;
  uint8_t type;
};

struct ngtcp2_pkt_stateless_reset {
  const uint8_t *stateless_reset_token;
  const uint8_t *rand;
  size_t randlen;
};

struct ngtcp2_pkt_retry {
  ngtcp2_cid odcid;
  const uint8_t *token;
  size_t tokenlen;
};

struct ngtcp2_preferred_addr {
  ngtcp2_cid cid;
  uint16_t ipv4_port;
  uint16_t ipv6_port;
  uint8_t ipv4_addr[4];
  uint8_t ipv6_addr[16];
  uint8_t stateless_reset_token[NGTCP2_STATELESS_RESET_TOKENLEN];
};

typedef void (*ngtcp2_printf)(void *user_data, const char *format, ...);

struct ngtcp2_settings {
  ngtcp2_preferred_addr preferred_address;
  ngtcp2_tstamp initial_ts;
  ngtcp2_printf log_printf;
  uint64_t max_stream_data_bidi_local;
  uint64_t max_stream_data_bidi_remote;
  uint64_t max_stream_data_uni;
  uint64_t max_data;
  uint64_t max_streams_bidi;
  uint64_t max_streams_uni;
  uint64_t idle_timeout;
  uint64_t max_packet_size;
  uint8_t stateless_reset_token[NGTCP2_STATELESS_RESET_TOKENLEN];
  uint64_t ack_delay_exponent;
  uint8_t disable_migration;
  uint64_t max_ack_delay;
};

struct ngtcp2_transport_params {
  ngtcp2_settings settings; // of a client
  uint64_t value;           // of a server
};

struct ngtcp2_mem;

struct ngtcp2_conn_callbacks {
  int (*client_initial)(ngtcp2_conn *, void *);
  int (*recv_client_initial)(ngtcp2_conn *, const ngtcp2_cid *, void *);
  int (*recv_crypto_data)(ngtcp2_conn *, ngtcp2_crypto_level, uint64_t, const uint8_t *, size_t, void *);
  int (*handshake_completed)(ngtcp2_conn *, void *);
  int (*recv_version_negotiation)(ngtcp2_conn *, const ngtcp2_pkt_hd *, const uint32_t *, size_t, void *);
  ssize_t (*in_encrypt)(ngtcp2_conn *, uint8_t *, size_t, const uint8_t *, size_t, const uint8_t *, size_t,
                        const uint8_t *, size_t, const uint8_t *, size_t, void *);
  ssize_t (*in_decrypt)(ngtcp2_conn *, uint8_t *, size_t, const uint8_t *, size_t, const uint8_t *, size_t,
                        const uint8_t *, size_t, const uint8_t *, size_t, void *);
  ssize_t (*encrypt)(ngtcp2_conn *, uint8_t *, size_t, const uint8_t *, size_t, const uint8_t *, size_t,
                     const uint8_t *, size_t, const uint8_t *, size_t, void *);
  ssize_t (*decrypt)(ngtcp2_conn *, uint8_t *, size_t, const uint8_t *, size_t, const uint8_t *, size_t,
                     const uint8_t *, size_t, const uint8_t *, size_t, void *);
  ssize_t (*in_hp_mask)(ngtcp2_conn *, uint8_t *, size_t, const uint8_t *, size_t, const uint8_t *, size_t, void *);
  ssize_t (*hp_mask)(ngtcp2_conn *, uint8_t *, size_t, const uint8_t *, size_t, const uint8_t *, size_t, void *);
  int (*recv_stream_data)(ngtcp2_conn *, int64_t, int, uint64_t, const uint8_t *, size_t, void *, void *);
  int (*acked_crypto_offset)(ngtcp2_conn *, ngtcp2_crypto_level, uint64_t, size_t, void *);
  int (*acked_stream_data_offset)(ngtcp2_conn *, int64_t, uint64_t, size_t, void *, void *);
  int (*stream_open)(ngtcp2_conn *, int64_t, void *);
  int (*stream_close)(ngtcp2_conn *, int64_t, uint64_t, void *, void *);
  int (*recv_stateless_reset)(ngtcp2_conn *, const ngtcp2_pkt_stateless_reset *, void *);
  int (*recv_retry)(ngtcp2_conn *, const ngtcp2_pkt_hd *, const ngtcp2_pkt_retry *, void *);
  int (*extend_max_local_streams_bidi)(ngtcp2_conn *, uint64_t, void *);
  int (*extend_max_local_streams_uni)(ngtcp2_conn *, uint64_t, void *);
  int (*rand)(ngtcp2_conn *, uint8_t *, size_t, ngtcp2_rand_ctx, void *);
  int (*get_new_connection_id)(ngtcp2_conn *, ngtcp2_cid *, uint8_t *, size_t, void *);
  int (*remove_connection_id)(ngtcp2_conn *, const ngtcp2_cid *, void *);
  int (*update_key)(ngtcp2_conn *, void *);
  int (*path_validation)(ngtcp2_conn *, const ngtcp2_path *, ngtcp2_path_validation_result, void *);
  int (*select_preferred_addr)(ngtcp2_conn *, ngtcp2_addr *, const ngtcp2_preferred_addr *, void *);
  int (*stream_reset)(ngtcp2_conn *, int64_t, uint64_t, uint64_t, void *, void *);
  int (*extend_max_remote_streams_bidi)(ngtcp2_conn *, uint64_t, void *);
  int (*extend_max_remote_streams_uni)(ngtcp2_conn *, uint64_t, void *);
  int (*extend_max_stream_data)(ngtcp2_conn *, int64_t, uint64_t, void *, void *);
};

extern "C" {
const char *ngtcp2_strerror(int);
void ngtcp2_settings_default(ngtcp2_settings *);
void ngtcp2_path_storage_init(ngtcp2_path_storage *, const void *, size_t, void *, const void *, size_t, void *);
int ngtcp2_conn_client_new(ngtcp2_conn **, const ngtcp2_cid *, const ngtcp2_cid *, const ngtcp2_path *, uint32_t,
                           const ngtcp2_conn_callbacks *, const ngtcp2_settings *, const ngtcp2_mem *, void *);
void ngtcp2_conn_del(ngtcp2_conn *);
void ngtcp2_conn_set_aead_overhead(ngtcp2_conn *, size_t);
int ngtcp2_conn_get_handshake_completed(ngtcp2_conn *);
void ngtcp2_conn_handshake_completed(ngtcp2_conn *);
void ngtcp2_conn_get_local_transport_params(ngtcp2_conn *, ngtcp2_transport_params *);
ssize_t ngtcp2_encode_transport_params(uint8_t *, size_t, ngtcp2_transport_params_type, const ngtcp2_transport_params *);
int ngtcp2_decode_transport_params(ngtcp2_transport_params *, ngtcp2_transport_params_type, const uint8_t *, size_t);
int ngtcp2_conn_set_remote_transport_params(ngtcp2_conn *, const ngtcp2_transport_params *);
int ngtcp2_conn_install_initial_tx_keys(ngtcp2_conn *, const uint8_t *, size_t, const uint8_t *, size_t, const uint8_t *, size_t);
int ngtcp2_conn_install_initial_rx_keys(ngtcp2_conn *, const uint8_t *, size_t, const uint8_t *, size_t, const uint8_t *, size_t);
int ngtcp2_conn_install_early_keys(ngtcp2_conn *, const uint8_t *, size_t, const uint8_t *, size_t, const uint8_t *, size_t);
int ngtcp2_conn_install_handshake_tx_keys(ngtcp2_conn *, const uint8_t *, size_t, const uint8_t *, size_t, const uint8_t *, size_t);
int ngtcp2_conn_install_handshake_rx_keys(ngtcp2_conn *, const uint8_t *, size_t, const uint8_t *, size_t, const uint8_t *, size_t);
int ngtcp2_conn_install_tx_keys(ngtcp2_conn *, const uint8_t *, size_t, const uint8_t *, size_t, const uint8_t *, size_t);
int ngtcp2_conn_install_rx_keys(ngtcp2_conn *, const uint8_t *, size_t, const uint8_t *, size_t, const uint8_t *, size_t);
int ngtcp2_conn_update_tx_key(ngtcp2_conn *, const uint8_t *, size_t, const uint8_t *, size_t);
int ngtcp2_conn_update_rx_key(ngtcp2_conn *, const uint8_t *, size_t, const uint8_t *, size_t);
int ngtcp2_conn_submit_crypto_data(ngtcp2_conn *, ngtcp2_crypto_level, const uint8_t *, size_t);
ssize_t ngtcp2_conn_write_pkt(ngtcp2_conn *, ngtcp2_path *, uint8_t *, size_t, ngtcp2_tstamp);
ssize_t ngtcp2_conn_write_stream(ngtcp2_conn *, ngtcp2_path *, uint8_t *, size_t, ssize_t *, uint32_t, int64_t, uint8_t,
                                 const uint8_t *, size_t, ngtcp2_tstamp);
int ngtcp2_conn_read_pkt(ngtcp2_conn *, const ngtcp2_path *, const uint8_t *, size_t, ngtcp2_tstamp);
const ngtcp2_cid *ngtcp2_conn_get_dcid(ngtcp2_conn *);
uint64_t ngtcp2_conn_get_idle_timeout(ngtcp2_conn *);
uint64_t ngtcp2_conn_get_expiry(ngtcp2_conn *);
ngtcp2_tstamp ngtcp2_conn_loss_detection_expiry(ngtcp2_conn *);
ngtcp2_tstamp ngtcp2_conn_ack_delay_expiry(ngtcp2_conn *);
int ngtcp2_conn_on_loss_detection_timer(ngtcp2_conn *, ngtcp2_tstamp);
void ngtcp2_conn_cancel_expired_ack_delay_timer(ngtcp2_conn *, ngtcp2_tstamp);
int ngtcp2_conn_open_bidi_stream(ngtcp2_conn *, int64_t *, void *);
int ngtcp2_conn_open_uni_stream(ngtcp2_conn *, int64_t *, void *);
int ngtcp2_conn_shutdown_stream(ngtcp2_conn *, int64_t, uint64_t);
int ngtcp2_conn_extend_max_stream_offset(ngtcp2_conn *, int64_t, uint64_t);
void ngtcp2_conn_extend_max_offset(ngtcp2_conn *, uint64_t);
}

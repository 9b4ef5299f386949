// A connection under test: feeds it stream bytes and collects what it reports
// per stream.
#pragma once

#include "frames.hpp"
#include "util.hpp"

#include <ref/stream.hpp>

#include <bnl/http3/client/connection.hpp>
#include <bnl/http3/server/connection.hpp>

#include <map>
#include <memory>

namespace conn {

using namespace util;
using ref::role;
namespace h3 = bnl::http3;
namespace quic = bnl::quic;

// What was reported for one stream.
struct observed {
  std::vector<ref::field> headers;
  bool section_ended = false;
  bytes body;
  uint64_t body_events = 0;
  bool body_fin = false;
  bool finished = false;
  std::vector<ref::frame> settings;
  bool failed = false;
  uint64_t error = 0;

  bool operator==(const observed &o) const
  {
    return headers == o.headers && section_ended == o.section_ended && body == o.body &&
           finished == o.finished && settings == o.settings && failed == o.failed &&
           error == o.error;
  }
};

inline std::string
text(const std::vector<ref::field> &headers)
{
  std::string s = "[";
  for (const ref::field &f : headers) {
    s += (s.size() > 1 ? ", " : "") + f.first.substr(0, 20) + "=" + f.second.substr(0, 20);
    if (f.first.size() > 20 || f.second.size() > 20) {
      s += "(" + std::to_string(f.first.size()) + "," + std::to_string(f.second.size()) + ")";
    }
  }
  return s + "]";
}

inline std::string
text(const observed &o)
{
  std::string s = "headers " + text(o.headers) + (o.section_ended ? " complete" : "");
  s += ", body of " + std::to_string(o.body.size()) + " bytes " + mc::hex(o.body, 16);
  for (const ref::frame &f : o.settings) {
    s += ", settings " + frames::text(f);
  }
  if (o.finished) {
    s += ", finished";
  }
  if (o.failed) {
    s += ", error " + std::to_string(o.error);
  }
  return s;
}

inline std::string
text(const ref::expectation &e)
{
  observed o;
  o.headers = e.headers;
  o.section_ended = e.section_ended;
  o.body = e.body;
  o.settings = e.settings;
  std::string s = text(o) + ", then";
  if (e.open) {
    s += " open;";
  }
  if (e.finished) {
    s += " finished;";
  }
  if (e.any_error) {
    s += " any error;";
  }
  for (uint64_t error : e.errors) {
    s += " error " + std::to_string(error) + ";";
  }
  return s;
}

inline uint64_t
hash(const observed &o)
{
  mc::hasher h;
  for (const ref::field &f : o.headers) {
    h.add(f.first).add(f.second);
  }
  h.add(o.section_ended).add(o.body).add(o.finished).add(o.failed).add(o.error);
  h.add(o.settings.size());
  for (const ref::frame &f : o.settings) {
    h.add(f.max_header_list_size).add(f.num_placeholders).add(f.table_capacity);
    h.add(f.blocked_streams);
  }
  return h;
}

// Adds an event to what was observed for a stream.
inline void
add(uint64_t id, h3::event event, observed *o)
{
  MC_CHECK(!o->finished, "event-after-finished",
           "stream %lu: an event was reported after `finished`", id);
  switch (event) {
    case h3::event::type::settings:
      {
        ref::frame f;
        f.type = ref::SETTINGS;
        f.max_header_list_size = event.settings.max_header_list_size;
        f.num_placeholders = event.settings.num_placeholders;
        f.table_capacity = event.settings.qpack_max_table_capacity;
        f.blocked_streams = event.settings.qpack_blocked_streams;
        o->settings.push_back(f);
      }
      break;
    case h3::event::type::header: {
      MC_CHECK(event.header.id == id, "event-id", "stream %lu: header event for stream %lu", id,
               event.header.id);
      MC_CHECK(!o->section_ended, "header-after-section",
               "stream %lu: a header was reported after the header section ended", id);
      auto n = event.header.header.name();
      auto v = event.header.header.value();
      o->headers.push_back({ bytes(n.data(), n.size()), bytes(v.data(), v.size()) });
      o->section_ended = event.header.fin;
      break;
    }
    case h3::event::type::body:
      MC_CHECK(event.body.id == id, "event-id", "stream %lu: body event for stream %lu", id,
               event.body.id);
      MC_CHECK(o->section_ended, "body-before-headers",
               "stream %lu: body was reported before the header section ended", id);
      MC_CHECK(!o->body_fin, "body-after-end",
               "stream %lu: body was reported after its end", id);
      o->body += str(event.body.buffer);
      o->body_events++;
      o->body_fin = event.body.fin;
      break;
    case h3::event::type::finished:
      MC_CHECK(event.finished.id == id, "event-id",
               "stream %lu: finished event for stream %lu", id, event.finished.id);
      MC_CHECK(o->section_ended, "finished-early",
               "stream %lu: finished before the header section ended", id);
      MC_CHECK(o->body_fin || o->body_events == 0, "end-not-marked",
               "stream %lu: finished, but the last body event isn't marked as last", id);
      o->finished = true;
      break;
  }
}

// Takes all events there are, or some.
template<class Generator>
void
drain(Generator &generator, uint64_t id, size_t received, observed *o, uint64_t most = UINT64_MAX)
{
  uint64_t events = 0;
  while (events < most && generator.next()) {
    mc::step();
    auto r = generator.get();
    if (!r) {
      if (!o->failed) {
        o->failed = true;
        o->error = static_cast<uint64_t>(r.error());
        MC_CHECK(o->error != ref::INCOMPLETE, "incomplete-reported",
                 "stream %lu: incomplete was reported as an event", id);
      }
      return;
    }
    if (!o->failed) {
      add(id, std::move(r).value(), o);
    }
    events++;
    MC_CHECK(events <= 2 * received + 8, "unbounded-events",
             "stream %lu: %lu events for %zu bytes", id, events, received);
  }
}

// How bytes are stored.
inline bnl::base::buffer
store(const bytes &s, int style)
{
  return style == 0 ? buf(s) : heap(s);
}

class endpoint {
public:
  // A client gets `requests` requests, sent including their end if `ended`.
  explicit endpoint(role r, int requests = 1, bool ended = true)
    : role_(r)
  {
    if (r == role::server) {
      server.reset(new h3::server::connection());
      return;
    }
    client.reset(new h3::client::connection());
    for (int i = 0; i < requests; i++) {
      auto handle = client->request();
      bool ok = handle && handle.value().header({ ":method", "GET" }) && handle.value().start();
      if (ok && ended) {
        ok = static_cast<bool>(handle.value().fin());
      }
      MC_CHECK(ok, "setup", "a request could not be made");
    }
    flush();
  }

  void flush()
  {
    for (int i = 0; i < 4096; i++) {
      bool more = client ? static_cast<bool>(client->send()) : static_cast<bool>(server->send());
      if (!more) {
        return;
      }
    }
    mc::fail("send-forever", "send() never reports idle");
  }

  // Delivers a segment, and takes all events if `take`.
  void feed(uint64_t id, const bytes &segment, bool fin, bool take = true, int style = 0)
  {
    feed_some(id, segment, fin, take ? UINT64_MAX : 0, style);
  }

  // Delivers a segment, and takes up to `take` events.
  void feed_some(uint64_t id, const bytes &segment, bool fin, uint64_t take, int style = 0)
  {
    observed &o = streams[id];
    received_[id] += segment.size();
    quic::event event(quic::data{ id, fin, store(segment, style) });
    mc::step();
    int64_t before = static_cast<int64_t>(mc::memory::live_bytes());
    mc::memory::reset_peak();
    if (client) {
      deliver(*client, id, std::move(event), take, &o);
    } else {
      deliver(*server, id, std::move(event), take, &o);
    }
    peak = std::max(peak, held + static_cast<int64_t>(mc::memory::peak_bytes()) - before);
    held += static_cast<int64_t>(mc::memory::live_bytes()) - before;
  }

  // Bytes of memory held since the first segment, and the most there were
  // (including what was observed).
  int64_t held = 0, peak = 0;

  size_t received(uint64_t id) { return received_[id]; }

  std::unique_ptr<h3::client::connection> client;
  std::unique_ptr<h3::server::connection> server;
  std::map<uint64_t, observed> streams;

private:
  template<class Connection>
  void
  deliver(Connection &c, uint64_t id, quic::event event, uint64_t take, observed *o)
  {
    auto generator = c.recv(std::move(event));
    if (!generator) {
      if (!o->failed) {
        o->failed = true;
        o->error = static_cast<uint64_t>(generator.error());
      }
      return;
    }
    drain(generator.value(), id, received_[id], o, take);
  }

  role role_;
  std::map<uint64_t, size_t> received_;
};

// Whether what was observed is what the bytes so far call for.
inline void
compare(const observed &o, const ref::expectation &e, const char *when)
{
  if (o.failed) {
    MC_CHECK(e.any_error || e.errors.count(o.error) != 0,
             e.errors.empty() ? "error-on-valid" : "wrong-error",
             "%s: observed %s; expected %s", when, text(o).c_str(), text(e).c_str());
  } else if (o.finished) {
    MC_CHECK(e.finished, "finished-wrongly", "%s: observed %s; expected %s", when,
             text(o).c_str(), text(e).c_str());
  } else {
    MC_CHECK(e.open, e.finished ? "not-finished" : "no-error", "%s: observed %s; expected %s",
             when, text(o).c_str(), text(e).c_str());
    MC_CHECK(!o.body_fin, "end-marked-early",
             "%s: the body was marked as ended, but nothing ended it: %s", when,
             text(o).c_str());
  }
  MC_CHECK(o.headers == e.headers && o.section_ended == e.section_ended, "headers",
           "%s: observed %s; expected %s", when, text(o).c_str(), text(e).c_str());
  MC_CHECK(o.body == e.body, "body", "%s: observed %s; expected %s", when, text(o).c_str(),
           text(e).c_str());
  MC_CHECK(o.settings == e.settings || (e.partial && o.settings.empty()), "settings", "%s: observed %s; expected %s", when,
           text(o).c_str(), text(e).c_str());
}

inline ref::expectation
expected(role r, bool control, const bytes &s, bool fin)
{
  if (!control) {
    return ref::request_stream(r, s, fin);
  }
  ref::expectation e = ref::control_stream(r, s);
  if (fin) {
    // Refused whatever it carries; what came before may or may not have been
    // reported.
    e.open = e.any_error = false;
    e.errors = { ref::CLOSED_CRITICAL_STREAM };
    e.partial = true;
  }
  return e;
}

inline uint64_t
control_id(role r)
{
  return r == role::client ? 3 : 2;
}

inline const char *
name(role r)
{
  return r == role::client ? "client" : "server";
}

// ------------------------------------------------------------- building ---

inline bytes
frame(uint64_t type, const bytes &payload)
{
  return ref::varint(type) + ref::varint(payload.size()) + payload;
}

inline bytes
headers(const std::vector<ref::field> &fields)
{
  return frame(ref::HEADERS, ref::header_block(fields));
}

inline bytes
data(const bytes &body)
{
  return frame(ref::DATA, body);
}

// Distinct bytes, so that anything lost or moved shows.
inline bytes
body(size_t size, unsigned seed = 0)
{
  bytes s(size, 0);
  for (size_t i = 0; i < size; i++) {
    s[i] = static_cast<char>(i * 7 + i / 251 + seed * 31 + 1);
  }
  return s;
}

}

// C24: value types return exactly what they were made from, however they were
// copied, moved and assigned; equality is equality of contents.
#include "frames.hpp"
#include "util.hpp"

#include <bnl/base/string_view.hpp>
#include <bnl/http3/event.hpp>
#include <bnl/http3/header.hpp>
#include <bnl/http3/settings.hpp>
#include <bnl/ip/address.hpp>
#include <bnl/ip/endpoint.hpp>
#include <bnl/ip/host.hpp>
#include <bnl/quic/event.hpp>
#include <bnl/quic/path.hpp>

#include <functional>
#include <sstream>
#include <type_traits>

using namespace util;
namespace h3 = bnl::http3;
namespace ip = bnl::ip;
namespace ipv4 = bnl::ipv4;
namespace ipv6 = bnl::ipv6;
namespace quic = bnl::quic;
using bnl::base::buffer_view;
using bnl::base::string_view;

namespace {

// ------------------------------------------------------------------ keys ---
// Everything observable about a value, as a string.

bytes
raw(buffer_view v)
{
  return bytes(reinterpret_cast<const char *>(v.data()), v.size());
}

bytes
raw(string_view v)
{
  return bytes(v.data(), v.size());
}

buffer_view
view(const bytes &s)
{
  return { reinterpret_cast<const uint8_t *>(s.data()), s.size() };
}

std::string
num(uint64_t v)
{
  return std::to_string(v) + ",";
}

std::string
key(const ipv4::address &a)
{
  return mc::hex(raw(a.bytes()));
}

std::string
key(const ipv6::address &a)
{
  return mc::hex(raw(a.bytes()));
}

std::string
key(const ip::address &a)
{
  return (a == ip::address::type::ipv4 ? "4:" : "6:") + mc::hex(raw(a.bytes()));
}

std::string
key(const ip::endpoint &e)
{
  return key(e.address()) + "/" + num(e.port());
}

std::string
key(const ip::host &h)
{
  std::ostringstream printed;
  printed << h;
  bytes name = raw(h.name());
  return printed.str() == name ? name : name + " printed as " + printed.str();
}

std::string
key(const quic::path &p)
{
  return key(p.local()) + "->" + key(p.peer());
}

std::string
key(const h3::header &h)
{
  return num(h.name().size()) + raw(h.name()) + ":" + raw(h.value());
}

std::string
key(const h3::header_view &h)
{
  return num(h.name().size()) + raw(h.name()) + ":" + raw(h.value());
}

std::string
key(const h3::settings &s)
{
  std::string r = num(s.max_header_list_size) + num(s.num_placeholders) +
                  num(s.qpack_max_table_capacity) + num(s.qpack_blocked_streams);
  for (auto &p : s.array()) {
    uint64_t value = p.first == 6   ? s.max_header_list_size
                     : p.first == 9 ? s.num_placeholders
                     : p.first == 1 ? s.qpack_max_table_capacity
                     : p.first == 7 ? s.qpack_blocked_streams
                                    : ~p.second;
    r += value == p.second ? "" : "array differs for " + num(p.first);
  }
  return r;
}

std::string
key(const quic::data &d)
{
  return num(d.id) + num(d.fin) + mc::hex(str(d.buffer), 200);
}

std::string
key(const quic::event &e)
{
  switch (e) {
    case quic::event::type::data:
      return "data " + num(e.id()) + key(e.data);
    case quic::event::type::error:
      return "error " + num(e.id()) + num(e.error.type) + num(e.error.id) + num(e.error.value);
  }
  return "no type";
}

std::string
key(const h3::event &e)
{
  switch (e) {
    case h3::event::type::settings:
      return "settings " + key(e.settings);
    case h3::event::type::header:
      return "header " + num(e.header.id) + num(e.header.fin) + key(e.header.header);
    case h3::event::type::body:
      return "body " + key(e.body);
    case h3::event::type::finished:
      return "finished " + num(e.finished.id);
  }
  return "no type";
}

std::string
key(const h3::frame &f)
{
  return frames::text(frames::read(f));
}

std::string
key(const buffer_view &v)
{
  bytes r = raw(v);
  bytes again;
  for (size_t i = 0; i < v.size(); i++) {
    again += static_cast<char>(v[i]);
  }
  return num(v.size()) + num(v.empty()) + r + (r == again ? "" : "indexing differs");
}

std::string
key(const string_view &v)
{
  std::ostringstream printed;
  printed << v;
  bytes r = raw(v);
  bytes again;
  for (size_t i = 0; i < v.size(); i++) {
    again += v[i];
  }
  return num(v.size()) + num(v.empty()) + r + (r == again ? "" : "indexing differs") +
         (r == printed.str() ? "" : "printing differs");
}

// ---------------------------------------------------------------- values ---

template<class T>
struct value {
  std::function<T()> make;
  std::string expected;
};

template<class T>
using values = std::vector<value<T>>;

bytes
pattern(size_t n, uint8_t start, uint8_t step)
{
  bytes r;
  for (size_t i = 0; i < n; i++) {
    r += static_cast<char>(start + i * step);
  }
  return r;
}

std::vector<bytes>
address_bytes(size_t n)
{
  std::vector<bytes> all = { bytes(n, '\xff'), pattern(n, 1, 1), bytes(n, '\0') };
  for (size_t i = 0; i < n; i++) {
    bytes b(n, '\0');
    b[i] = static_cast<char>(0x80);
    all.push_back(b);
  }
  return all;
}

values<ipv4::address>
make(ipv4::address *)
{
  values<ipv4::address> r;
  for (const bytes &b : address_bytes(4)) {
    r.push_back({ [b] { return ipv4::address(view(b)); }, mc::hex(b) });
  }
  bytes b("\x7f\x00\x00\x01", 4);
  r.push_back({ [b] { return ipv4::address(reinterpret_cast<const uint8_t *>(b.data())); },
                mc::hex(b) });
  r.push_back({ [b] {
                 uint32_t n;
                 memcpy(&n, b.data(), 4);
                 return ipv4::address(n);
               },
                mc::hex(b) });
  r.push_back({ [] { return ipv4::address(); }, mc::hex(bytes(4, '\0')) });
  return r;
}

values<ipv6::address>
make(ipv6::address *)
{
  values<ipv6::address> r;
  for (const bytes &b : address_bytes(16)) {
    r.push_back({ [b] { return ipv6::address(view(b)); }, mc::hex(b) });
    r.push_back({ [b] { return ipv6::address(reinterpret_cast<const uint8_t *>(b.data())); },
                  mc::hex(b) });
  }
  r.push_back({ [] { return ipv6::address(); }, mc::hex(bytes(16, '\0')) });
  return r;
}

values<ip::address>
make(ip::address *)
{
  values<ip::address> r;
  r.push_back({ [] { return ip::address(ipv4::address(0x0100007f)); }, "4:7f000001" });
  r.push_back({ [] { return ip::address(ipv6::address(view(pattern(16, 1, 1)))); },
                "6:" + mc::hex(pattern(16, 1, 1)) });
  for (size_t n : { 4, 16 }) {
    for (const bytes &b : address_bytes(n)) {
      r.push_back({ [b] { return ip::address(view(b)); }, (n == 4 ? "4:" : "6:") + mc::hex(b) });
    }
  }
  // IPv4 mapped: not the same as the IPv4 address.
  bytes mapped = bytes(10, '\0') + bytes(2, '\xff') + bytes("\x7f\x00\x00\x01", 4);
  r.push_back({ [mapped] { return ip::address(view(mapped)); }, "6:" + mc::hex(mapped) });
  bytes first = bytes("\x7f\x00\x00\x01", 4) + bytes(12, '\0');
  r.push_back({ [first] { return ip::address(view(first)); }, "6:" + mc::hex(first) });
  r.push_back({ [] { return ip::address(); }, "4:00000000" });
  return r;
}

values<ip::endpoint>
make(ip::endpoint *)
{
  values<ip::endpoint> r;
  auto addresses = make(static_cast<ip::address *>(nullptr));
  for (size_t a : { 0, 1, 2, 9 }) {
    for (uint16_t port : { 443, 0, 65535, 256, 1 }) {
      auto &v = addresses[a];
      r.push_back({ [v, port] { return ip::endpoint(v.make(), port); },
                    v.expected + "/" + num(port) });
    }
  }
  r.push_back({ [] { return ip::endpoint(); }, "4:00000000/0," });
  return r;
}

std::vector<bytes>
texts()
{
  return { "", "a", "b", "content-type", "x-a-rather-long-name-that-is-not-stored-inline",
           bytes("nul\0byte", 8), "\x80\xff", bytes(300, 'n'), "content-typf", "content-typ" };
}

values<ip::host>
make(ip::host *)
{
  values<ip::host> r;
  for (const bytes &t : { bytes("localhost"), bytes(""), bytes(60, 'h'), bytes("[::1]") }) {
    r.push_back({ [t] { return ip::host(t.c_str()); }, t });
    r.push_back({ [t] { return ip::host(bnl::base::string(t)); }, t });
  }
  r.push_back({ [] { return ip::host(bnl::base::string(bytes("nul\0byte", 8))); },
                bytes("nul\0byte", 8) });
  r.push_back({ [] { return ip::host(); }, "" });
  return r;
}

values<quic::path>
make(quic::path *)
{
  values<quic::path> r;
  auto ends = make(static_cast<ip::endpoint *>(nullptr));
  for (size_t a : { 0, 5, 11 }) {
    for (size_t b : { 1, 0, 6 }) {
      auto x = ends[a], y = ends[b];
      r.push_back({ [x, y] { return quic::path(x.make(), y.make()); },
                    x.expected + "->" + y.expected });
    }
  }
  r.push_back({ [] { return quic::path(); }, "4:00000000/0,->4:00000000/0," });
  return r;
}

values<h3::header>
make(h3::header *)
{
  values<h3::header> r;
  for (const bytes &n : texts()) {
    for (const bytes &v : texts()) {
      r.push_back({ [n, v] { return h3::header(n, v); }, num(n.size()) + n + ":" + v });
    }
  }
  r.push_back({ [] { return h3::header(); }, "0,:" });
  return r;
}

values<h3::header_view>
make(h3::header_view *)
{
  static const std::vector<bytes> storage = texts();
  values<h3::header_view> r;
  for (const bytes &n : storage) {
    for (const bytes &v : storage) {
      r.push_back({ [&n, &v] {
                     return h3::header_view(string_view(n.data(), n.size()),
                                            string_view(v.data(), v.size()));
                   },
                    num(n.size()) + n + ":" + v });
    }
  }
  r.push_back({ [] { return h3::header_view(); }, "0,:" });
  return r;
}

values<h3::settings>
make(h3::settings *)
{
  values<h3::settings> r;
  uint64_t large = (uint64_t(1) << 62) - 1;
  r.push_back({ [] { return h3::settings(); }, num(large) + num(0) + num(0) + num(0) });
  uint64_t fields[][4] = { { 1, 2, 3, 4 },     { large, large, large, large }, { 0, 0, 0, 0 },
                           { 2, 1, 4, 3 },     { 1, 2, 3, 5 },                 { 1, 2, 4, 4 },
                           { 1, 3, 3, 4 },     { 2, 2, 3, 4 },                 { 63, 64, 16383, 16384 } };
  for (auto &f : fields) {
    uint64_t a = f[0], b = f[1], c = f[2], d = f[3];
    r.push_back({ [=] {
                   h3::settings s;
                   s.max_header_list_size = a;
                   s.num_placeholders = b;
                   s.qpack_max_table_capacity = c;
                   s.qpack_blocked_streams = d;
                   return s;
                 },
                  num(a) + num(b) + num(c) + num(d) });
  }
  return r;
}

std::vector<bytes>
payloads()
{
  return { "", "x", bytes(20, 'i'), bytes(21, 'h'), bytes(1000, 'l') };
}

values<quic::data>
make(quic::data *)
{
  values<quic::data> r;
  for (const bytes &p : payloads()) {
    for (bool fin : { false, true }) {
      uint64_t id = p.size() == 21 ? UINT64_MAX : p.size() * 4;
      r.push_back({ [=] { return quic::data{ id, fin, buf(p) }; },
                    num(id) + num(fin) + mc::hex(p, 200) });
    }
  }
  return r;
}

values<quic::event>
make(quic::event *)
{
  using error = quic::application::error;
  values<quic::event> r;
  r.push_back({ [] { return quic::event(error{ error::connection_close, 8, 9 }); },
                "error " + num(8) + num(error::connection_close) + num(8) + num(9) });
  r.push_back({ [] { return quic::event(error{ error::rst_stream, UINT64_MAX, 0 }); },
                "error " + num(UINT64_MAX) + num(error::rst_stream) + num(UINT64_MAX) + num(0) });
  r.push_back({ [] { return quic::event(error{ error::stop_sending, 0, UINT64_MAX }); },
                "error " + num(0) + num(error::stop_sending) + num(0) + num(UINT64_MAX) });
  for (auto &d : make(static_cast<quic::data *>(nullptr))) {
    auto v = d;
    std::string id = d.expected.substr(0, d.expected.find(',') + 1);
    r.insert(r.begin() + (r.size() > 6 ? 6 : 1),
             { [v] { return quic::event(v.make()); }, "data " + id + v.expected });
  }
  return r;
}

values<h3::event>
make(h3::event *)
{
  values<h3::event> r;
  r.push_back({ [] { return h3::event(h3::event::payload::finished{ 12 }); },
                "finished " + num(12) });
  for (auto &h : make(static_cast<h3::header *>(nullptr))) {
    auto v = h;
    bool fin = r.size() % 2 == 0;
    uint64_t id = r.size() * 4;
    r.push_back({ [=] { return h3::event(h3::event::payload::header{ id, fin, v.make() }); },
                  "header " + num(id) + num(fin) + v.expected });
  }
  size_t at = 1;
  for (auto &d : make(static_cast<quic::data *>(nullptr))) {
    auto v = d;
    r.insert(r.begin() + at, { [v] { return h3::event(v.make()); }, "body " + v.expected });
    at += 2;
  }
  for (auto &s : make(static_cast<h3::settings *>(nullptr))) {
    auto v = s;
    r.insert(r.begin() + 2, { [v] { return h3::event(v.make()); }, "settings " + v.expected });
  }
  return r;
}

values<h3::frame>
make(h3::frame *)
{
  values<h3::frame> r;
  std::vector<ref::frame> all;
  for (uint64_t type : { 2, 4, 5, 1, 0, 3, 7, 13, 14 }) {
    if (type == ref::PRIORITY) {
      for (int element : { 0, 3 }) {
        for (int dependency : { 1, 3 }) {
          for (uint64_t id : { 4, 5 }) {
            for (uint64_t on : { 6, 7 }) {
              for (int weight : { 0, 255 }) {
                ref::frame f;
                f.type = type;
                f.element = element;
                f.dependency = dependency;
                f.element_id = id;
                f.dependency_id = on;
                f.weight = static_cast<uint8_t>(weight);
                all.push_back(f);
              }
            }
          }
        }
      }
    } else if (type == ref::SETTINGS) {
      for (int bits = 0; bits < 16; bits++) {
        ref::frame f;
        f.type = type;
        f.max_header_list_size = bits & 1;
        f.num_placeholders = (bits >> 1) & 1;
        f.table_capacity = (bits >> 2) & 1;
        f.blocked_streams = (bits >> 3) & 1;
        all.push_back(f);
      }
    } else {
      for (uint64_t id : { uint64_t(0), uint64_t(1), (uint64_t(1) << 62) - 1, UINT64_MAX }) {
        for (uint64_t size : { 0, 1 }) {
          ref::frame f;
          f.type = type;
          f.id = id;
          if (type == ref::PUSH_PROMISE) {
            f.size = size;
          } else if (size != 0) {
            continue;
          }
          all.push_back(f);
        }
      }
    }
  }
  for (const ref::frame &f : all) {
    r.push_back({ [f] { return frames::make(f); }, frames::text(f) });
  }
  // The different kinds first.
  std::vector<value<h3::frame>> first = { r[0], r[32], r[49], r[r.size() - 1] };
  r.insert(r.begin(), first.begin(), first.end());
  return r;
}

values<buffer_view>
make(buffer_view *)
{
  static const std::vector<bytes> storage = texts();
  values<buffer_view> r;
  for (const bytes &s : storage) {
    r.push_back({ [&s] { return view(s); }, num(s.size()) + num(s.empty()) + s });
  }
  r.push_back({ [] { return buffer_view(); }, num(0) + num(1) });
  return r;
}

values<string_view>
make(string_view *)
{
  static const std::vector<bytes> storage = texts();
  values<string_view> r;
  for (const bytes &s : storage) {
    r.push_back({ [&s] { return string_view(s.data(), s.size()); },
                  num(s.size()) + num(s.empty()) + s });
    r.push_back({ [&s] { return string_view(s); }, num(s.size()) + num(s.empty()) + s });
    if (s.find('\0') == bytes::npos) {
      r.push_back({ [&s] { return string_view(s.c_str()); },
                    num(s.size()) + num(s.empty()) + s });
    }
  }
  r.push_back({ [] { return string_view(); }, num(0) + num(1) });
  return r;
}

template<class T>
const values<T> &
all_values()
{
  static const values<T> all = make(static_cast<T *>(nullptr));
  return all;
}

// --------------------------------------------------------------- machine ---

template<class T>
class machine {
public:
  machine()
  {
    memset(storage_, 0xa5, sizeof(storage_));
  }

  ~machine()
  {
    for (int i = 0; i < SLOTS; i++) {
      destroy(i);
    }
  }

  void run(int depth)
  {
    const values<T> &all = all_values<T>();
    int kinds = std::min<int>(4, static_cast<int>(all.size()));
    static constexpr bool assigns = std::is_copy_assignable<T>::value;
    static constexpr bool moves = std::is_move_assignable<T>::value;
    static constexpr bool copies = std::is_copy_constructible<T>::value;
    for (int d = 0; d < depth; d++) {
      struct op {
        char what;
        int to, from;
      };
      std::vector<op> ops;
      ops.push_back({ 'e', 0, 0 });
      for (int to = 0; to < SLOTS; to++) {
        if (!alive_[to]) {
          for (int k = 0; k < kinds; k++) {
            ops.push_back({ 'n', to, k });
          }
        } else if (d + 1 < depth) {
          ops.push_back({ 'd', to, 0 });
        }
        for (int from = 0; from < SLOTS; from++) {
          if (!alive_[from] || moved_[from]) {
            continue;
          }
          if (!alive_[to]) {
            if (copies) {
              ops.push_back({ 'c', to, from });
            }
            ops.push_back({ 'm', to, from });
          } else {
            if (assigns) {
              ops.push_back({ 'C', to, from });
            }
            if (moves && to != from) {
              ops.push_back({ 'M', to, from });
            }
          }
        }
        if (!alive_[to]) {
          break; // Slots are alike: only the first free one.
        }
      }
      op o = mc::pick(ops, "operation");
      if (o.what == 'e') {
        break;
      }
      mc::step();
      mc::log("%c to %d from %d", o.what, o.to, o.from);
      switch (o.what) {
        case 'n':
          new (slot(o.to)) T(all[static_cast<size_t>(o.from)].make());
          set(o.to, all[static_cast<size_t>(o.from)].expected);
          break;
        case 'd':
          destroy(o.to);
          break;
        case 'c':
          if constexpr (copies) {
            new (slot(o.to)) T(static_cast<const T &>(*slot(o.from)));
            set(o.to, key_[o.from]);
          }
          break;
        case 'm':
          new (slot(o.to)) T(std::move(*slot(o.from)));
          set(o.to, key_[o.from]);
          gone(o.from);
          break;
        case 'C':
          if constexpr (assigns) {
            *slot(o.to) = static_cast<const T &>(*slot(o.from));
            set(o.to, key_[o.from]);
          }
          break;
        case 'M':
          if constexpr (moves) {
            *slot(o.to) = std::move(*slot(o.from));
            set(o.to, key_[o.from]);
            gone(o.from);
          }
          break;
      }
      check();
    }
  }

private:
  static constexpr int SLOTS = 3;

  T *slot(int i) { return reinterpret_cast<T *>(storage_[i]); }

  void set(int i, const std::string &key)
  {
    alive_[i] = true;
    moved_[i] = false;
    key_[i] = key;
  }

  void gone(int i)
  {
    // What was moved from can only be assigned to and destroyed, unless moving
    // is copying.
    moved_[i] = !std::is_trivially_copyable<T>::value;
  }

  void destroy(int i)
  {
    if (alive_[i]) {
      slot(i)->~T();
      memset(storage_[i], 0x5a, sizeof(storage_[i]));
      alive_[i] = false;
    }
  }

  void check()
  {
    mc::hasher h;
    for (int i = 0; i < SLOTS; i++) {
      h.add(alive_[i] ? moved_[i] ? "moved" : key_[i] : "none");
      if (alive_[i] && !moved_[i]) {
        std::string k = key(static_cast<const T &>(*slot(i)));
        MC_CHECK(k == key_[i], "value", "slot %d holds %s instead of %s", i, k.c_str(),
                 key_[i].c_str());
      }
    }
    mc::state(h);
    mc::outcome(h);
  }

  alignas(T) unsigned char storage_[SLOTS][sizeof(T)];
  bool alive_[SLOTS] = {};
  bool moved_[SLOTS] = {};
  std::string key_[SLOTS];
};

template<class T>
void
operations()
{
  all_values<T>();
  int depth = mc::thorough() ? 6 : 5;
  uint64_t before = mc::memory::live_blocks();
  {
    machine<T> m;
    m.run(depth);
  }
  uint64_t after = mc::memory::live_blocks();
  MC_CHECK(before == after, "leak", "%lld blocks are left after all values are gone",
           static_cast<long long>(after - before));
}

// Every value, through a chain of moves or copies; every pair compared.
template<class T, class = void>
struct comparable : std::false_type {};

template<class T>
struct comparable<T, std::void_t<decltype(static_cast<bool>(std::declval<const T &>() ==
                                                            std::declval<const T &>()))>>
  : std::true_type {};

template<class T, bool Compare>
void
pairs_of(const values<T> &all)
{
  size_t a = static_cast<size_t>(mc::choose(static_cast<int>(all.size()), "first"));
  size_t n = Compare ? all.size() : 1;
  T x = all[a].make();
  MC_CHECK(key(x) == all[a].expected, "value", "%s instead of %s", key(x).c_str(),
           all[a].expected.c_str());
  T y(std::move(x));
  T z(std::move(y));
  MC_CHECK(key(z) == all[a].expected, "value", "%s after two moves instead of %s",
           key(z).c_str(), all[a].expected.c_str());
  mc::outcome(mc::hasher().add(all[a].expected));
  for (size_t b = 0; b < n; b++) {
    mc::step();
    if constexpr (Compare) {
      T other = all[b].make();
      bool same = all[a].expected == all[b].expected;
      MC_CHECK((z == other) == same, "equal", "%s and %s compare %s", all[a].expected.c_str(),
               all[b].expected.c_str(), same ? "different" : "equal");
      MC_CHECK((z != other) == !same, "unequal", "%s and %s compare %s with !=",
               all[a].expected.c_str(), all[b].expected.c_str(), same ? "different" : "equal");
    }
  }
}

template<class T, bool Compare>
void
pairs()
{
  const values<T> &all = all_values<T>();
  uint64_t before = mc::memory::live_blocks();
  pairs_of<T, Compare>(all);
  uint64_t after = mc::memory::live_blocks();
  MC_CHECK(before == after, "leak", "%lld blocks are left after all values are gone",
           static_cast<long long>(after - before));
}

// IPv4 addresses are printed in dotted decimal: each octet in each position.
void
printing()
{
  int position = mc::choose(4, "position");
  int value = mc::choose(256, "octet");
  for (int other : { 0, 9, 10, 255 }) {
    bytes b(4, static_cast<char>(other));
    b[static_cast<size_t>(position)] = static_cast<char>(value);
    std::string expected;
    for (char c : b) {
      expected += (expected.empty() ? "" : ".") + std::to_string(static_cast<uint8_t>(c));
    }
    uint32_t n;
    memcpy(&n, b.data(), 4);
    std::ostringstream s, t;
    s << ipv4::address(view(b)) << "|" << ipv4::address(n);
    t << ip::address(view(b)) << "|" << ip::address(ipv4::address(n));
    mc::step();
    MC_CHECK(s.str() == expected + "|" + expected && t.str() == s.str(), "printed",
             "%s is printed as %s and %s", expected.c_str(), s.str().c_str(), t.str().c_str());
    mc::outcome(mc::hasher().add(expected));
  }
}

// Every port and, in blocks, ids and headers of events.
void
ports()
{
  int block = mc::choose(256, "block");
  for (int i = 0; i < 256; i++) {
    uint16_t port = static_cast<uint16_t>(block * 256 + i);
    ip::endpoint e(ipv4::address(1), port);
    ip::endpoint copy(e), assigned;
    assigned = copy;
    quic::path p(assigned, ip::endpoint(ipv4::address(2), static_cast<uint16_t>(~port)));
    mc::step();
    MC_CHECK(e.port() == port && assigned.port() == port && p.local().port() == port &&
               p.peer().port() == static_cast<uint16_t>(~port),
             "port", "port %d is not kept", port);
  }
  mc::outcome(static_cast<uint64_t>(block));
}

// Header names with uppercase letters are recognized whatever surrounds them.
void
lowercase()
{
  int byte = mc::choose(256, "byte");
  int size = mc::choose(4, "size") + 1;
  for (int at = 0; at < size; at++) {
    for (char other : { 'a', '-', '\0', '\xff' }) {
      bytes name(static_cast<size_t>(size), other);
      name[static_cast<size_t>(at)] = static_cast<char>(byte);
      h3::header_view v(string_view(name.data(), name.size()), "VALUE");
      bool expected = !(byte >= 'A' && byte <= 'Z');
      mc::step();
      MC_CHECK(h3::header_is_lowercase(v) == expected, "lowercase", "%s is %sa lowercase name",
               hx(name).c_str(), expected ? "" : "not ");
    }
  }
  mc::outcome(mc::hasher().add(static_cast<uint64_t>(byte)).add(static_cast<uint64_t>(size)));
}

}

int
main(int argc, char **argv)
{
  std::vector<mc::scenario> all;
  std::string machine_bound =
    "all sequences of up to 5 (thorough: 6) operations out of construct from 4 values, copy, move, "
    "copy-assign (also to itself), move-assign and destroy on 3 slots of dirty memory";
#define TYPE(T, label, compare)                                                \
  all.push_back({ std::string("operations of ") + label, machine_bound,        \
                  operations<T>, 2 });                                         \
  all.push_back({ std::string("values of ") + label,                           \
                  compare ? "all pairs of values" : "all values",              \
                  pairs<T, compare>, 1 })
  TYPE(ipv4::address, "ipv4", false);
  TYPE(ipv6::address, "ipv6", false);
  TYPE(ip::address, "address", true);
  TYPE(ip::endpoint, "endpoint", false);
  TYPE(ip::host, "host", false);
  TYPE(quic::path, "path", false);
  TYPE(h3::header, "header", true);
  TYPE(h3::header_view, "header view", true);
  TYPE(h3::settings, "settings", false);
  TYPE(quic::data, "stream data", false);
  TYPE(quic::event, "quic event", false);
  TYPE(h3::event, "http3 event", false);
  TYPE(h3::frame, "frame", true);
  TYPE(buffer_view, "buffer view", true);
  TYPE(string_view, "string view", true);
  all.push_back({ "printing", "every octet in every position, 4 values of the others", printing, 2 });
  all.push_back({ "ports", "all 65536 ports", ports, 1 });
  all.push_back({ "lowercase", "every byte at every position of names of up to 4 bytes", lowercase,
                  2 });
  return mc::run(argc, argv, all);
}

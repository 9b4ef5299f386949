// C29: the example client's descriptors, sockets, resolver and event sources behave
// under every answer of the operating system.
#include "fake_os.hpp"
#include "fake_sd.hpp"
#include "util.hpp"

#include <os/dns.hpp>
#include <os/fd.hpp>
#include <os/ip/address.hpp>
#include <os/socket/udp.hpp>
#include <sd/event/loop.hpp>

#include <arpa/inet.h>
#include <cerrno>
#include <netdb.h>
#include <optional>

using namespace util;
using fake_os::sys;

namespace {

void
no_misuse()
{
  MC_CHECK(sys.misuse.empty(), "misuse", "%s", sys.misuse.front().c_str());
  MC_CHECK(fake_sd::sd.misuse.empty(), "misuse", "%s", fake_sd::sd.misuse.front().c_str());
}

// Open exactly when someone owns it; closed at most once.
void
check_descriptors(const std::vector<int> &owned)
{
  no_misuse();
  for (const auto &entry : sys.descriptors) {
    bool has_owner = std::find(owned.begin(), owned.end(), entry.first) != owned.end();
    MC_CHECK(entry.second.closes == (has_owner ? 0 : 1), "closed",
             "descriptor %d, which %s, was closed %d times", entry.first,
             has_owner ? "has an owner" : "has no owner any more", entry.second.closes);
  }
}

void
descriptors()
{
  fake_os::reset();
  int depth = mc::thorough() ? 5 : 4;
  const int n = 3;
  std::vector<int> model(n, -1);
  {
    std::vector<::os::fd> slots(n);
    for (int i = 0; i < depth; i++) {
      int op = mc::choose(1 + 3 + n * n + n + 3, "operation");
      mc::step();
      if (op == 0) {
        break;
      }
      op--;
      if (op < 3) { // A fresh descriptor is assigned.
        int fd = sys.create();
        mc::log("slot %d = new %d", op, fd);
        slots[op] = ::os::fd(fd);
        model[op] = fd;
      } else if ((op -= 3) < n * n) {
        int to = op / n, from = op % n;
        mc::log("slot %d = move(slot %d)", to, from);
        slots[to] = std::move(slots[from]);
        if (to != from) {
          model[to] = model[from];
          model[from] = -1;
        }
      } else if ((op -= n * n) < n) {
        mc::log("a temporary takes slot %d", op);
        ::os::fd temporary(std::move(slots[op]));
        MC_CHECK(static_cast<int>(temporary) == model[op], "moved", "the new owner has %d, not %d",
                 static_cast<int>(temporary), model[op]);
        MC_CHECK(static_cast<int>(slots[op]) == -1, "moved", "the old owner still has a descriptor");
        model[op] = -1;
      } else {
        op -= n;
        int a = op, b = (op + 1) % n;
        mc::log("swap %d %d", a, b);
        std::swap(slots[a], slots[b]);
        std::swap(model[a], model[b]);
      }
      for (int s = 0; s < n; s++) {
        MC_CHECK(static_cast<int>(slots[s]) == model[s], "owner", "slot %d has %d, not %d", s,
                 static_cast<int>(slots[s]), model[s]);
      }
      check_descriptors(model);
      mc::state(mc::hasher().add(model[0]).add(model[1]).add(model[2]).h);
    }
  }
  check_descriptors({});
}

ip::endpoint
endpoint(bool v6, int kind, uint16_t port)
{
  std::vector<uint8_t> b(v6 ? 16 : 4);
  for (size_t i = 0; i < b.size(); i++) {
    b[i] = static_cast<uint8_t>(kind == 0 ? 0x80 + 7 * i : kind == 1 ? 0xff : i + 1);
  }
  return { ip::address(base::buffer_view(b.data(), b.size())), port };
}

template<class V>
bytes
view_bytes(const V &v)
{
  return bytes(reinterpret_cast<const char *>(v.data()), v.size());
}

bytes
address_bytes(const ip::address &a)
{
  return view_bytes(a.bytes());
}

bool
is(const std::error_code &ec, int e)
{
  return ec == std::error_condition(e, std::generic_category());
}

// Answers of the operating system to a call that sends.
const std::vector<int> ANSWERS = { 0, EAGAIN, EINTR, ECONNREFUSED, ENETUNREACH };

void
sending()
{
  fake_os::reset();
  bool v6 = mc::choose(2, "family") == 1;
  int depth = mc::thorough() ? 7 : 5;
  const std::vector<bytes> datagrams = { bytes(1, 'a'), bytes(20, 'b'), bytes(21, 'c'), bytes(1200, 'd'),
                                         bytes(1, 'a') };
  int fd = -1;
  {
    std::optional<::os::socket::udp> udp(std::in_place, endpoint(v6, 0, 443));
    fd = udp->fd();
    int last = 0;
    int calls = 0;
    bool draining = false;
    sys.answer = [&](const char *call, int) {
      if (strcmp(call, "send") != 0) {
        return 0;
      }
      // Someone who retries after an interruption gets another answer, but not for
      // ever.
      last = draining || calls > 1 ? 0 : mc::pick(ANSWERS, "answer");
      calls++;
      return last;
    };
    std::vector<bytes> queued;
    auto send = [&]() {
      size_t before = sys.at(fd).sent.size();
      calls = 0;
      auto r = udp->send();
      mc::step();
      size_t sent = sys.at(fd).sent.size() - before;
      no_misuse();
      if (before == queued.size()) {
        MC_CHECK(calls == 0 && !r && r.error() == ::error::idle, "idle", "sending nothing wasn't idle");
        return;
      }
      MC_CHECK(calls > 0, "not-sent", "send() with %zu datagrams queued sent nothing", queued.size() - before);
      if (last == 0) {
        MC_CHECK(r.has_value(), "sent", "a datagram was sent, but send() failed");
        MC_CHECK(sent == 1, "sent", "one send() sent %zu datagrams", sent);
      } else {
        MC_CHECK(sent == 0, "sent", "the failing send() sent %zu datagrams", sent);
        MC_CHECK(!r, "error", "errno %d wasn't reported", last);
        MC_CHECK(is(r.error(), last), "error", "errno %d was reported as %d (%s)", last, r.error().value(),
                 r.error().message().c_str());
      }
      MC_CHECK(sys.at(fd).sent.size() <= queued.size(), "twice", "more datagrams were sent than queued");
      for (size_t i = before; i < sys.at(fd).sent.size(); i++) {
        MC_CHECK(sys.at(fd).sent[i] == queued[i], "datagram", "datagram %zu went out as %zu bytes %s, not %zu bytes", i,
                 sys.at(fd).sent[i].size(), hx(sys.at(fd).sent[i]).c_str(), queued[i].size());
      }
      mc::outcome(mc::hasher().add(last).add(sent).h);
    };
    for (int i = 0; i < depth; i++) {
      int op = mc::choose(static_cast<int>(datagrams.size()) + 4, "operation");
      if (op == 0) {
        break;
      }
      op--;
      if (op == 0) {
        mc::log("send");
        send();
      } else if (op == 1) {
        mc::log("move construct");
        ::os::socket::udp other(std::move(*udp));
        udp.reset();
        udp.emplace(std::move(other));
      } else if (op == 2) {
        mc::log("move assign over another socket");
        ::os::socket::udp other(endpoint(v6, 1, 1));
        int replaced = other.fd();
        other.add(buf("unsent"));
        other = std::move(*udp);
        udp.emplace(std::move(other));
        MC_CHECK(sys.at(replaced).closes == 1, "closed", "the overwritten socket was closed %d times",
                 sys.at(replaced).closes);
        MC_CHECK(sys.at(replaced).sent.empty(), "sent", "the overwritten socket sent something");
      } else {
        bytes d = datagrams[static_cast<size_t>(op - 3)];
        mc::log("add %zu bytes", d.size());
        udp->add(d.size() % 2 == 0 ? buf(d) : heap(d));
        queued.push_back(d);
        mc::step();
      }
      MC_CHECK(static_cast<int>(udp->fd()) == fd, "moved", "the socket lost its descriptor");
      mc::state(mc::hasher().add(queued.size()).add(sys.at(fd).sent.size()).h);
    }
    draining = true;
    while (sys.at(fd).sent.size() < queued.size()) {
      send();
    }
    send();
    sys.answer = nullptr;
    check_descriptors({ fd });
  }
  check_descriptors({});
}

void
receiving()
{
  fake_os::reset();
  int depth = mc::thorough() ? 5 : 4;
  const std::vector<size_t> sizes = { 1, 21, 1200, 0, 65507 };
  std::vector<bytes> arrived;
  size_t taken = 0;
  {
    ::os::socket::udp udp(endpoint(false, 0, 443));
    int fd = udp.fd();
    auto arrive = [&](int which) {
      size_t n = sizes[static_cast<size_t>(which)];
      bytes d(n, static_cast<char>('a' + arrived.size()));
      arrived.push_back(d);
      sys.at(fd).in.push_back(d);
      mc::log("a datagram of %zu bytes arrives", n);
    };
    bool inside = false;
    int raised = 0, interruptions = 0, races = 0;
    size_t waiting = 0; // What was there when the last call was made.
    sys.answer = [&](const char *call, int) {
      if (!inside) {
        return 0;
      }
      if (races < 2) {
        // What can happen just before any of the calls recv() makes.
        int what = mc::choose(4, call);
        races++;
        if (what == 1) {
          arrive(1);
        } else if (what == 2) {
          arrive(2);
        } else if (what == 3 && strcmp(call, "recv") == 0 && interruptions == 0) {
          interruptions++;
          raised = EINTR;
          return EINTR;
        }
      }
      waiting = sys.at(fd).in.size();
      raised = sys.at(fd).pending;
      return 0;
    };
    auto recv = [&](bool race) {
      inside = true;
      raised = 0;
      races = race ? 0 : 2;
      interruptions = 0;
      waiting = sys.at(fd).in.size();
      auto r = udp.recv();
      inside = false;
      mc::step();
      no_misuse();
      if (!r) {
        mc::log("recv: %s", r.error().message().c_str());
        if (is(r.error(), EAGAIN)) {
          MC_CHECK(waiting == 0, "lost", "recv() would block, although %zu datagrams waited", waiting);
          return false;
        }
        MC_CHECK(raised != 0 && is(r.error(), raised), "error", "recv() failed with %d (%s), which nothing raised",
                 r.error().value(), r.error().message().c_str());
        return true;
      }
      bytes got = str(r.value());
      mc::log("recv: %zu bytes", got.size());
      MC_CHECK(taken < arrived.size(), "invented", "recv() returned %zu bytes, but nothing arrived", got.size());
      MC_CHECK(got == arrived[taken], "datagram", "datagram %zu of %zu bytes was returned as %zu bytes", taken,
               arrived[taken].size(), got.size());
      taken++;
      mc::outcome(mc::hasher().add(got.size()).add(races).h);
      return true;
    };
    for (int i = 0; i < depth; i++) {
      int op = mc::choose(3 + static_cast<int>(sizes.size()), "operation");
      if (op == 0) {
        break;
      }
      if (op == 1) {
        recv(true);
      } else if (op == 2) {
        sys.at(fd).pending = ECONNREFUSED;
        mc::log("an error is pending");
      } else {
        arrive(op - 3);
      }
      mc::state(mc::hasher().add(arrived.size()).add(taken).add(sys.at(fd).pending).h);
    }
    while (recv(false)) {
    }
    MC_CHECK(taken == arrived.size(), "lost", "%zu datagrams arrived, %zu were returned", arrived.size(), taken);
    sys.answer = nullptr;
  }
  check_descriptors({});
}

void
sockets()
{
  fake_os::reset();
  bool v6 = mc::choose(2, "family") == 1;
  int kind = mc::choose(3, "address");
  uint16_t port = mc::pick(std::vector<uint16_t>{ 0, 1, 80, 255, 256, 443, 4433, 0x8000, 0xff00, 0xffff }, "port");
  // Which call fails, with what.
  const char *calls[] = { "", "socket", "connect", "setsockopt" };
  int which = mc::choose(4, "call");
  int e = which == 0 ? 0 : mc::pick(std::vector<int>{ EMFILE, ENETUNREACH, ENOMEM, EACCES }, "errno");
  sys.answer = [&](const char *call, int) { return which != 0 && strcmp(call, calls[which]) == 0 ? e : 0; };
  ip::endpoint peer = endpoint(v6, kind, port);
  bool made = false, threw = false;
  try {
    ::os::socket::udp udp(peer);
    made = true;
    mc::step();
    int fd = udp.fd();
    MC_CHECK(sys.descriptors.count(fd) == 1, "descriptor", "the socket has the descriptor %d, which nobody gave it", fd);
    auto &d = sys.at(fd);
    MC_CHECK(d.family == (v6 ? AF_INET6 : AF_INET), "family", "a socket of family %d", d.family);
    MC_CHECK(d.type == SOCK_DGRAM, "type", "a socket of type %d", d.type);
    MC_CHECK(d.nonblocking, "blocking", "the socket blocks");
    MC_CHECK(d.peer == address_bytes(peer.address()) && d.peer_port == port, "peer", "connected to %s port %u",
             hx(d.peer).c_str(), d.peer_port);

    sys.local = address_bytes(endpoint(v6, (kind + 1) % 3, 0).address());
    sys.local_port = static_cast<uint16_t>(port ^ 0x0ff1);
    ip::endpoint local = udp.local();
    ip::endpoint remote = udp.peer();
    mc::step(2);
    MC_CHECK(address_bytes(local.address()) == sys.local && local.port() == sys.local_port, "local",
             "local address %s port %u, not %s port %u", hx(address_bytes(local.address())).c_str(), local.port(),
             hx(sys.local).c_str(), sys.local_port);
    MC_CHECK(address_bytes(remote.address()) == address_bytes(peer.address()) && remote.port() == port, "peer",
             "peer address %s port %u", hx(address_bytes(remote.address())).c_str(), remote.port());
    MC_CHECK(local.address() == (v6 ? ip::address::type::ipv6 : ip::address::type::ipv4), "local", "wrong family");
    no_misuse();
  } catch (const std::system_error &error) {
    threw = true;
    MC_CHECK(is(error.code(), e), "error", "errno %d was thrown as %d", e, error.code().value());
  } catch (const std::exception &) {
    threw = true;
  }
  MC_CHECK(made || threw, "error", "neither a socket nor an error");
  if (which != 0 && strcmp(calls[which], "setsockopt") != 0) {
    MC_CHECK(threw, "error", "%s() failed with errno %d, but there is a socket", calls[which], e);
  }
  if (which == 0) {
    MC_CHECK(made, "failed", "no socket, although nothing failed");
  }
  sys.answer = nullptr;
  check_descriptors({});
  mc::state(mc::hasher().add(which).add(e).add(port).add(kind).add(v6).h);
  mc::outcome(mc::hasher().add(made).add(threw).h);
}

void
pending()
{
  fake_os::reset();
  {
    ::os::socket::udp udp(endpoint(false, 0, 443));
    int fd = udp.fd();
    const std::vector<int> errors = { 0, ECONNREFUSED, EHOSTUNREACH, ENETUNREACH, EMSGSIZE, EPERM };
    for (int i = 0; i < 3; i++) {
      int raised = mc::pick(errors, "pending error");
      int failing = mc::choose(2, "getsockopt") == 0 ? 0 : EBADF;
      sys.at(fd).pending = raised;
      sys.answer = [&](const char *call, int) { return strcmp(call, "getsockopt") == 0 ? failing : 0; };
      std::error_code ec = udp.error();
      mc::step();
      int expected = failing != 0 ? failing : raised;
      MC_CHECK(expected == 0 ? !ec : is(ec, expected), "pending", "the pending error %d is reported as %d (%s)",
               expected, ec.value(), ec.message().c_str());
      mc::outcome(mc::hasher().add(ec.value()).h);
      mc::state(mc::hasher().add(i).add(raised).add(failing).h);
    }
    sys.answer = nullptr;
  }
  check_descriptors({});
}

void
resolving()
{
  fake_os::reset();
  int failure = mc::choose(2, "failure");
  const char *names[] = { "example.com", "a-name-that-is-longer-than-any-inline-storage.example", "::1" };
  std::string name = names[mc::choose(3, "name")];
  if (failure == 1) {
    sys.resolve_error =
      mc::pick(std::vector<int>{ EAI_NONAME, EAI_AGAIN, EAI_FAIL, EAI_FAMILY, EAI_MEMORY, EAI_SERVICE, EAI_SYSTEM },
               "EAI");
    sys.resolve_errno = sys.resolve_error == EAI_SYSTEM ? mc::pick(std::vector<int>{ ECONNREFUSED, EMFILE }, "errno") : 0;
    auto r = ::os::dns::resolve(ip::host(name));
    mc::step();
    MC_CHECK(!r, "resolve-error", "resolving failed with %d, but there is a result", sys.resolve_error);
    MC_CHECK(static_cast<bool>(r.error()), "resolve-error", "resolving failed with an error that is none");
    if (sys.resolve_error == EAI_SYSTEM) {
      MC_CHECK(is(r.error(), sys.resolve_errno), "resolve-errno", "errno %d was reported as %d", sys.resolve_errno,
               r.error().value());
    } else {
      // The values of getaddrinfo() aren't those of the operating system.
      MC_CHECK(r.error().category() != std::system_category() && r.error().category() != std::generic_category(),
               "resolve-category", "the resolver's error %d (%s) is reported as the system's \"%s\"", sys.resolve_error,
               gai_strerror(sys.resolve_error), r.error().message().c_str());
    }
    mc::state(mc::hasher().add(sys.resolve_error).add(sys.resolve_errno).h);
    return;
  }
  const std::vector<fake_os::state::resolved> pool = {
    { AF_INET, bytes("\x0a\x00\x00\x01", 4) },
    { AF_INET, bytes("\x01\x00\x00\x0a", 4) },
    { AF_INET6, bytes("\x20\x01\x0d\xb8\0\0\0\0\0\0\0\0\0\0\0\x01", 16) },
    { AF_INET6, bytes("\0\0\0\0\0\0\0\0\0\0\xff\xff\x0a\0\0\x01", 16) },
  };
  int n = mc::choose(mc::thorough() ? 7 : 6, "results");
  std::vector<bytes> expected;
  for (int i = 0; i < n; i++) {
    const auto &a = mc::pick(pool, "address");
    sys.addresses.push_back(a);
    if (std::find(expected.begin(), expected.end(), a.bytes) == expected.end()) {
      expected.push_back(a.bytes);
    }
  }
  auto r = ::os::dns::resolve(ip::host(name));
  mc::step();
  MC_CHECK(r.has_value(), "resolve", "resolving failed");
  std::vector<bytes> got;
  for (const auto &a : r.value()) {
    got.push_back(address_bytes(a));
  }
  MC_CHECK(sys.resolved_name == name, "resolve-name", "resolved %s, not %s", sys.resolved_name.c_str(), name.c_str());
  MC_CHECK(got == expected, "resolve", "%zu addresses, not the %zu distinct ones given", got.size(), expected.size());
  MC_CHECK(sys.lists == 0, "resolve-free", "%d lists of addresses weren't freed", sys.lists);
  mc::outcome(mc::hasher().add(got.size()).h);
  mc::state(mc::hasher().add(n).add(got.size()).h);
}

void
addresses()
{
  int which = mc::choose(3, "form");
  mc::step();
  if (which == 0) {
    const std::vector<int> values = { 0, 1, 9, 10, 99, 100, 127, 128, 199, 200, 255 };
    bytes expected;
    std::string text;
    for (int i = 0; i < 4; i++) {
      int v = i < 2 || mc::thorough() ? mc::pick(values, "octet") : values[static_cast<size_t>(4 * i - 3)];
      expected += static_cast<char>(v);
      text += (i == 0 ? "" : ".") + std::to_string(v);
    }
    auto r = ::os::make_address(base::string_view(text.data(), text.size()));
    MC_CHECK(r.has_value() && address_bytes(r.value()) == expected, "ipv4", "%s", text.c_str());
    return;
  }
  if (which == 1) {
    // Every way to write an address with one run of zeros.
    int zeros = mc::choose(9, "zeros");
    int at = mc::choose(9 - zeros, "place");
    int elide = mc::choose(2, "elide");
    bytes expected;
    std::string text;
    for (int i = 0; i < 8; i++) {
      bool zero = i >= at && i < at + zeros;
      unsigned v = zero ? 0 : 0x1020U * static_cast<unsigned>(i + 1) + 1;
      expected += static_cast<char>(v >> 8);
      expected += static_cast<char>(v & 0xff);
      if (zero && elide == 1 && zeros > 1) {
        if (i == at) {
          text += at == 0 ? "::" : ":";
        }
        continue;
      }
      char part[8];
      snprintf(part, sizeof(part), "%x", v);
      text += part;
      if (i != 7) {
        text += ":";
      }
    }
    auto r = ::os::make_address(base::string_view(text.data(), text.size()));
    MC_CHECK(r.has_value() && address_bytes(r.value()) == expected, "ipv6", "%s", text.c_str());
    return;
  }
  const std::vector<std::string> bad = { "",          "1",        "1.2.3",      "1.2.3.4.5", "256.1.1.1", "1.2.3.4 ",
                                         "a.b.c.d",   "1..2.3",   ":",          ":::",       "1:2",       "::12345",
                                         "1:2:3::4::5", "::1%lo", "example.com", "1.2.3.-4",  "[::1]",     "::1/64" };
  std::string text = mc::pick(bad, "malformed");
  errno = mc::pick(std::vector<int>{ 0, ENOENT, EAGAIN }, "errno left by an earlier call");
  int stale = errno;
  auto r = ::os::make_address(base::string_view(text.data(), text.size()));
  MC_CHECK(!r, "malformed", "\"%s\" is taken for an address", text.c_str());
  MC_CHECK(static_cast<bool>(r.error()), "malformed-error", "\"%s\" is refused with an error that is none",
           text.c_str());
  MC_CHECK(stale == 0 || !is(r.error(), stale), "malformed-error",
           "\"%s\" is refused with the errno of an earlier call (%s)", text.c_str(), r.error().message().c_str());
}

// Names with very many addresses, each several times.
void
resolving_many()
{
  fake_os::reset();
  static const std::vector<int> counts = { 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 1000 };
  int n = mc::pick(counts, "addresses");
  int family = mc::choose(3, "family");
  int times = 1 + mc::choose(3, "times");
  int order = mc::choose(2, "repeated: at once, all again");
  std::vector<bytes> expected;
  auto address = [&](int i) {
    bool v6 = family == 1 || (family == 2 && i % 2 == 1);
    bytes b(v6 ? 16 : 4, '\0');
    b[b.size() - 2] = static_cast<char>(i >> 8);
    b[b.size() - 1] = static_cast<char>(i);
    b[0] = 10;
    return b;
  };
  for (int i = 0; i < n; i++) {
    expected.push_back(address(i));
  }
  for (int i = 0; i < n * times; i++) {
    bytes b = address(order == 0 ? i / times : i % n);
    sys.addresses.push_back({ b.size() == 4 ? AF_INET : AF_INET6, b });
  }
  auto r = ::os::dns::resolve(ip::host("many.example"));
  mc::step();
  MC_CHECK(r.has_value(), "resolve", "resolving failed");
  std::vector<bytes> got;
  for (const auto &a : r.value()) {
    got.push_back(address_bytes(a));
  }
  MC_CHECK(got == expected, "resolve", "%zu addresses, not the %d distinct ones given", got.size(), n);
  MC_CHECK(sys.lists == 0, "resolve-free", "%d lists of addresses weren't freed", sys.lists);
  mc::state(mc::hasher().add(n).add(family).add(times).add(order).h);
  mc::outcome(mc::hasher().add(got.size()).h);
}

// Every error the operating system can give for a datagram is reported as it is,
// and nothing is lost.
void
errors()
{
  fake_os::reset();
  int e = 1 + mc::choose(133, "errno");
  bool sends = mc::choose(2, "send or receive") == 0;
  {
    ::os::socket::udp udp(endpoint(false, 0, 443));
    int fd = udp.fd();
    int left = 1;
    sys.answer = [&](const char *call, int) {
      bool this_one = strcmp(call, sends ? "send" : "recv") == 0;
      return this_one && left-- > 0 ? e : 0;
    };
    auto check = [&](bool failed, std::error_code code) {
      mc::step();
      if (e == EINTR && !failed) {
        return; // It was retried.
      }
      bool same = is(code, e) || code == std::error_code(e, std::system_category()) ||
                  code == std::error_code(e, std::generic_category());
      MC_CHECK(failed && same, "error", "errno %d was reported as %d (%s)", e, code.value(),
               code.message().c_str());
    };
    if (sends) {
      udp.add(buf("first"));
      udp.add(buf("second"));
      auto r = udp.send();
      check(!r, r ? std::error_code() : r.error());
      for (int i = 0; i < 4 && sys.at(fd).sent.size() < 2; i++) {
        udp.send();
      }
      MC_CHECK(sys.at(fd).sent.size() == 2 && sys.at(fd).sent[0] == "first" && sys.at(fd).sent[1] == "second", "lost",
               "after errno %d, %zu of 2 datagrams were sent", e, sys.at(fd).sent.size());
    } else {
      sys.at(fd).in.push_back("first");
      auto r = udp.recv();
      check(!r, r ? std::error_code() : r.error());
      if (!r) {
        r = udp.recv();
      }
      MC_CHECK(r && str(r.value()) == "first", "lost", "after errno %d, the datagram is lost", e);
    }
    no_misuse();
    sys.answer = nullptr;
  }
  check_descriptors({});
  mc::state(mc::hasher().add(e).add(sends).h);
  mc::outcome(mc::hasher().add(e).h);
}

// Watches of the event loop keep their handler when they move and are released once.
void
sources()
{
  using sd::event::io;
  using sd::event::timer;
  fake_os::reset();
  fake_sd::reset();
  std::vector<int> handled; // Which handler ran, in order.
  uint64_t argument = 0;
  {
    sd::event::loop loop;
    int depth = mc::thorough() ? 6 : 5;
    bool timers = mc::choose(2, "kind") == 0;
    ::os::fd fd(sys.create());
    struct slot {
      std::unique_ptr<timer> t;
      std::unique_ptr<io> i;
      int handler = -1; // -1: empty
      sd_event_source *source = nullptr;
    };
    std::vector<slot> slots(2);
    int handlers = 0;
    auto count_references = [&]() {
      for (const auto &source : fake_sd::sd.sources) {
        bool owned = false;
        for (auto &s : slots) {
          owned = owned || (s.handler != -1 && s.source == source.get());
        }
        MC_CHECK(source->references == (owned ? 1 : 0), "source", "an event source %s has %d references",
                 owned ? "with an owner" : "without an owner", source->references);
      }
      no_misuse();
    };
    for (int i = 0; i < depth; i++) {
      int op = mc::choose(9, "operation");
      mc::step();
      if (op == 0) {
        break;
      }
      op--;
      slot &s = slots[static_cast<size_t>(op % 2)];
      slot &other = slots[static_cast<size_t>(1 - op % 2)];
      switch (op / 2) {
        case 0: { // A new source, over an old one or in an empty place.
          int id = handlers++;
          mc::log("slot %d: new source %d", op % 2, id);
          if (timers) {
            timer fresh = loop.timer().value();
            fresh.on_expire([&, id](sd::event::duration at) -> result<void> {
              handled.push_back(id);
              argument = at.count();
              return base::success();
            });
            if (s.t) {
              *s.t = std::move(fresh);
            } else {
              s.t = std::make_unique<timer>(std::move(fresh));
            }
          } else {
            io fresh = loop.io(fd).value();
            fresh.on_io([&, id](uint32_t events) -> result<void> {
              handled.push_back(id);
              argument = events;
              return base::success();
            });
            if (s.i) {
              *s.i = std::move(fresh);
            } else {
              s.i = std::make_unique<io>(std::move(fresh));
            }
          }
          s.handler = id;
          s.source = fake_sd::sd.sources.back().get();
          break;
        }
        case 1: // Moved into the other place.
          if (s.handler == -1) {
            break;
          }
          mc::log("slot %d moves", op % 2);
          if (timers) {
            if (other.t) {
              *other.t = std::move(*s.t);
            } else {
              other.t = std::make_unique<timer>(std::move(*s.t));
            }
            s.t.reset();
          } else {
            if (other.i) {
              *other.i = std::move(*s.i);
            } else {
              other.i = std::make_unique<io>(std::move(*s.i));
            }
            s.i.reset();
          }
          other.handler = s.handler;
          other.source = s.source;
          s.handler = -1;
          break;
        case 2: // Destroyed.
          mc::log("slot %d is destroyed", op % 2);
          s.t.reset();
          s.i.reset();
          s.handler = -1;
          break;
        default: { // It happens.
          if (s.handler == -1) {
            break;
          }
          mc::log("slot %d fires", op % 2);
          size_t before = handled.size();
          if (timers) {
            // Later and later, up to the end of time.
            static const uint64_t bases[] = { 5000, UINT32_MAX, uint64_t(1) << 48, UINT64_MAX / 2, UINT64_MAX - 100 };
            uint64_t at = bases[handled.size() % 5] + handled.size();
            s.t->update(sd::event::duration(at));
            MC_CHECK(s.source->at == at && s.source->enabled == SD_EVENT_ONESHOT, "timer",
                     "the timer isn't armed for its time");
            fake_sd::dispatch_time(s.source);
            MC_CHECK(argument == at, "timer", "the timer's handler got another time");
          } else {
            MC_CHECK(s.source->fd == static_cast<int>(fd) && (s.source->events & (EPOLLIN | EPOLLOUT)) ==
                                                               (EPOLLIN | EPOLLOUT),
                     "io", "the source doesn't watch the descriptor");
            fake_sd::dispatch_io(s.source, EPOLLIN | EPOLLERR);
            MC_CHECK(argument == (EPOLLIN | EPOLLERR), "io", "the handler got other events");
          }
          MC_CHECK(handled.size() == before + 1 && handled.back() == s.handler, "handler",
                   "handler %d ran instead of handler %d", handled.size() > before ? handled.back() : -1, s.handler);
        }
      }
      for (auto &each : slots) {
        if (each.handler != -1) {
          bool there = timers ? static_cast<bool>(*each.t) : static_cast<bool>(*each.i);
          MC_CHECK(there, "source-bool", "a source that is there tests as missing");
        }
      }
      count_references();
      mc::state(mc::hasher().add(slots[0].handler).add(slots[1].handler).add(handled.size()).h);
    }
    for (auto &s : slots) {
      s = slot();
    }
    count_references();
  }
  MC_CHECK(fake_sd::sd.loops == 0, "loop", "the loop has %d references left", fake_sd::sd.loops);
  no_misuse();
}

// What run() returns for every way to end the loop.
void
loops()
{
  fake_os::reset();
  fake_sd::reset();
  sd::event::loop loop;
  int how = mc::choose(5, "end");
  std::error_code ec;
  std::vector<std::error_code> several;
  if (how == 0) {
    fake_sd::sd.turn = [&]() { MC_CHECK(loop.exit().has_value(), "exit", "exit() failed"); };
  } else if (how == 1) {
    const std::vector<std::error_code> codes = { ::error::timeout, ::error::finished,
                                                 { ECONNREFUSED, std::system_category() },
                                                 { EAGAIN, std::generic_category() } };
    ec = mc::pick(codes, "code");
    fake_sd::sd.turn = [&]() { MC_CHECK(loop.exit(ec).has_value(), "exit", "exit() failed"); };
  } else if (how == 4) {
    // Several requests to end in one turn: an error among them isn't lost.
    const std::vector<std::error_code> codes = { {}, ::error::timeout, { ECONNREFUSED, std::system_category() } };
    for (int i = 0; i < 3; i++) {
      int c = mc::choose(4, "exit");
      if (c == 0) {
        break;
      }
      several.push_back(codes[static_cast<size_t>(c - 1)]);
    }
    if (several.empty()) {
      return;
    }
    fake_sd::sd.turn = [&]() {
      for (std::error_code each : several) {
        MC_CHECK((each ? loop.exit(each) : loop.exit()).has_value(), "exit", "exit() failed");
      }
    };
  } else if (how == 2) {
    fake_sd::sd.fail_loop = ENOMEM;
    ec = { ENOMEM, std::system_category() };
  } else {
    fake_sd::sd.fail_add = EPERM;
    ::os::fd fd(sys.create());
    auto t = loop.timer();
    auto i = loop.io(fd);
    mc::step(2);
    MC_CHECK(!t && is(t.error(), EPERM), "add", "adding a timer didn't fail with EPERM");
    MC_CHECK(!i && is(i.error(), EPERM), "add", "adding a watch didn't fail with EPERM");
    fake_sd::sd.fail_add = 0;
    fake_sd::sd.turn = [&]() { MC_CHECK(loop.exit().has_value(), "exit", "exit() failed"); };
  }
  fake_sd::sd.now = mc::pick(std::vector<uint64_t>{ 0, 1, UINT32_MAX, UINT64_MAX / 2 }, "time");
  MC_CHECK(loop.now().count() == fake_sd::sd.now, "now", "now() isn't the loop's time");
  MC_CHECK(loop.clock()().count() == fake_sd::sd.now, "now", "clock() isn't the loop's time");
  auto r = loop.run();
  mc::step();
  bool failed = std::any_of(several.begin(), several.end(), [](std::error_code each) { return static_cast<bool>(each); });
  if (failed) {
    MC_CHECK(!r && std::find(several.begin(), several.end(), r.error()) != several.end(), "run",
             "run() didn't return an error it was ended with");
  } else if (ec) {
    MC_CHECK(!r && r.error() == ec, "run", "run() didn't return the error it ended with");
  } else {
    MC_CHECK(r.has_value(), "run", "run() failed");
  }
  no_misuse();
}

}

int
main(int argc, char **argv)
{
  return mc::run(
    argc, argv,
    { { "descriptors",
        "histories of up to 4 (thorough: 5) creations, move constructions, move assignments (self included) and swaps of "
        "three owners",
        descriptors, 2 },
      { "sending",
        "histories of up to 5 (thorough: 7) datagrams queued, moves of the socket and sends, with every answer (sent, would "
        "block, interrupted, refused, unreachable) to every call",
        sending, 3 },
      { "receiving",
        "histories of up to 4 (thorough: 5) arrivals (0 to 65507 bytes), pending errors and receives, with a datagram "
        "arriving or an interruption before each system call of a receive",
        receiving, 3 },
      { "sockets", "2 families x 3 addresses x 10 ports x every system call failing", sockets, 2 },
      { "pending", "sequences of three pending errors, or failures to read them", pending, 1 },
      { "resolving", "every list of up to 5 (thorough: 6) results of 4 addresses, and every failure of the resolver",
        resolving, 3 },
      { "resolving many", "8 to 1000 addresses of either family or both, each up to three times", resolving_many, 1 },
      { "errors", "every errno for a send or a receive, which then goes on", errors, 1 },
      { "addresses", "textual addresses: octet values, every run of zeros, malformed texts after earlier errors",
        addresses, 2 },
      { "sources",
        "histories of up to 5 (thorough: 6) creations, moves, destructions and firings of two watches or timers", sources,
        2 },
      { "loops", "every way the event loop can end", loops, 1 } });
}

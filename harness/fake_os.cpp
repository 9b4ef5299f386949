#include "fake_os.hpp"

#include <arpa/inet.h>
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace fake_os {

state sys;

void
reset()
{
  sys = state();
}

int
state::create()
{
  int fd = next++;
  descriptors[fd] = descriptor();
  return fd;
}

}

using fake_os::sys;

namespace {

// True when fd is the fake's; *d is nullptr when it isn't open.
bool
mine(const char *call, int fd, fake_os::descriptor **d)
{
  *d = nullptr;
  if (fd >= 0 && fd < fake_os::FIRST) {
    return false;
  }
  auto it = sys.descriptors.find(fd);
  if (it == sys.descriptors.end() || !it->second.open) {
    sys.misuse.push_back(std::string(call) + " on a descriptor that isn't open");
    errno = EBADF;
    return true;
  }
  *d = &it->second;
  return true;
}

int
ask(const char *call, int fd)
{
  return sys.answer ? sys.answer(call, fd) : 0;
}

void
parse(const sockaddr *address, std::string *bytes, uint16_t *port, int *family)
{
  *family = address->sa_family;
  if (address->sa_family == AF_INET) {
    auto in = reinterpret_cast<const sockaddr_in *>(address);
    *bytes = std::string(reinterpret_cast<const char *>(&in->sin_addr), 4);
    *port = static_cast<uint16_t>(reinterpret_cast<const uint8_t *>(&in->sin_port)[0] << 8 |
                                  reinterpret_cast<const uint8_t *>(&in->sin_port)[1]);
  } else if (address->sa_family == AF_INET6) {
    auto in = reinterpret_cast<const sockaddr_in6 *>(address);
    *bytes = std::string(reinterpret_cast<const char *>(&in->sin6_addr), 16);
    *port = static_cast<uint16_t>(reinterpret_cast<const uint8_t *>(&in->sin6_port)[0] << 8 |
                                  reinterpret_cast<const uint8_t *>(&in->sin6_port)[1]);
  }
}

socklen_t
make(sockaddr_storage *out, int family, const std::string &bytes, uint16_t port)
{
  memset(out, 0, sizeof(*out));
  uint8_t p[2] = { static_cast<uint8_t>(port >> 8), static_cast<uint8_t>(port) };
  if (family == AF_INET) {
    auto in = reinterpret_cast<sockaddr_in *>(out);
    in->sin_family = AF_INET;
    memcpy(&in->sin_addr, bytes.data(), 4);
    memcpy(&in->sin_port, p, 2);
    return sizeof(sockaddr_in);
  }
  auto in = reinterpret_cast<sockaddr_in6 *>(out);
  in->sin6_family = AF_INET6;
  memcpy(&in->sin6_addr, bytes.data(), 16);
  memcpy(&in->sin6_port, p, 2);
  return sizeof(sockaddr_in6);
}

ssize_t
do_send(const char *call, int fd, const void *data, size_t size)
{
  fake_os::descriptor *d;
  mine(call, fd, &d);
  if (d == nullptr) {
    return -1;
  }
  if (int e = ask("send", fd)) {
    errno = e;
    return -1;
  }
  d->sent.push_back(std::string(static_cast<const char *>(data), size));
  return static_cast<ssize_t>(size);
}

ssize_t
do_recv(const char *call, int fd, void *data, size_t size, int flags)
{
  fake_os::descriptor *d;
  mine(call, fd, &d);
  if (d == nullptr) {
    return -1;
  }
  if (int e = ask("recv", fd)) {
    errno = e;
    return -1;
  }
  if (d->pending != 0) {
    errno = d->pending;
    d->pending = 0;
    return -1;
  }
  if (d->in.empty()) {
    errno = EAGAIN;
    return -1;
  }
  std::string datagram = d->in.front();
  size_t n = datagram.size() < size ? datagram.size() : size;
  if (n != 0) {
    memcpy(data, datagram.data(), n);
  }
  if ((flags & MSG_PEEK) == 0) {
    d->in.pop_front();
  }
  return static_cast<ssize_t>((flags & MSG_TRUNC) != 0 ? datagram.size() : n);
}

}

extern "C" {

int
socket(int domain, int type, int protocol) noexcept
{
  (void) protocol;
  if (int e = ask("socket", -1)) {
    errno = e;
    return -1;
  }
  int fd = sys.create();
  sys.at(fd).family = domain;
  sys.at(fd).type = type & 0xf;
  sys.at(fd).nonblocking = (type & SOCK_NONBLOCK) != 0;
  return fd;
}

int
connect(int fd, const sockaddr *address, socklen_t size)
{
  fake_os::descriptor *d;
  if (!mine("connect", fd, &d)) {
    return static_cast<int>(syscall(SYS_connect, fd, address, size));
  }
  if (d == nullptr) {
    return -1;
  }
  if (int e = ask("connect", fd)) {
    errno = e;
    return -1;
  }
  int family = 0;
  parse(address, &d->peer, &d->peer_port, &family);
  socklen_t least = family == AF_INET ? sizeof(sockaddr_in) : sizeof(sockaddr_in6);
  if (family != d->family || size < least) {
    sys.misuse.push_back("connect() with an address of another family or size");
  }
  return 0;
}

int
setsockopt(int fd, int level, int name, const void *value, socklen_t size) noexcept
{
  fake_os::descriptor *d;
  if (!mine("setsockopt", fd, &d)) {
    return static_cast<int>(syscall(SYS_setsockopt, fd, level, name, value, size));
  }
  if (d == nullptr) {
    return -1;
  }
  if (int e = ask("setsockopt", fd)) {
    errno = e;
    return -1;
  }
  return 0;
}

int
getsockopt(int fd, int level, int name, void *value, socklen_t *size) noexcept
{
  fake_os::descriptor *d;
  if (!mine("getsockopt", fd, &d)) {
    return static_cast<int>(syscall(SYS_getsockopt, fd, level, name, value, size));
  }
  if (d == nullptr) {
    return -1;
  }
  if (int e = ask("getsockopt", fd)) {
    errno = e;
    return -1;
  }
  if (level == SOL_SOCKET && name == SO_ERROR && *size >= sizeof(int)) {
    memcpy(value, &d->pending, sizeof(int));
    *size = sizeof(int);
    d->pending = 0; // Reading it clears it.
    return 0;
  }
  errno = ENOPROTOOPT;
  return -1;
}

static int
name_of(const char *call, int fd, sockaddr *address, socklen_t *size, bool local)
{
  fake_os::descriptor *d;
  mine(call, fd, &d);
  if (d == nullptr) {
    return -1;
  }
  if (int e = ask(call, fd)) {
    errno = e;
    return -1;
  }
  sockaddr_storage storage;
  socklen_t n =
    make(&storage, d->family, local ? sys.local : d->peer, local ? sys.local_port : d->peer_port);
  memcpy(address, &storage, n < *size ? n : *size);
  *size = n;
  return 0;
}

int
getsockname(int fd, sockaddr *address, socklen_t *size) noexcept
{
  return name_of("getsockname", fd, address, size, true);
}

int
getpeername(int fd, sockaddr *address, socklen_t *size) noexcept
{
  return name_of("getpeername", fd, address, size, false);
}

ssize_t
send(int fd, const void *data, size_t size, int flags)
{
  (void) flags;
  return do_send("send", fd, data, size);
}

ssize_t
sendto(int fd, const void *data, size_t size, int flags, const sockaddr *address, socklen_t n)
{
  (void) flags;
  (void) address;
  (void) n;
  return do_send("sendto", fd, data, size);
}

ssize_t
sendmsg(int fd, const msghdr *message, int flags)
{
  (void) flags;
  std::string data;
  for (size_t i = 0; i < message->msg_iovlen; i++) {
    data.append(static_cast<const char *>(message->msg_iov[i].iov_base), message->msg_iov[i].iov_len);
  }
  return do_send("sendmsg", fd, data.data(), data.size());
}

ssize_t
recv(int fd, void *data, size_t size, int flags)
{
  return do_recv("recv", fd, data, size, flags);
}

ssize_t
recvfrom(int fd, void *data, size_t size, int flags, sockaddr *address, socklen_t *n)
{
  (void) address;
  (void) n;
  return do_recv("recvfrom", fd, data, size, flags);
}

int
ioctl(int fd, unsigned long request, ...) noexcept
{
  va_list list;
  va_start(list, request);
  void *argument = va_arg(list, void *);
  va_end(list);
  fake_os::descriptor *d;
  if (!mine("ioctl", fd, &d)) {
    return static_cast<int>(syscall(SYS_ioctl, fd, request, argument));
  }
  if (d == nullptr) {
    return -1;
  }
  if (int e = ask("ioctl", fd)) {
    errno = e;
    return -1;
  }
  if (request == FIONREAD) {
    *static_cast<int *>(argument) = d->in.empty() ? 0 : static_cast<int>(d->in.front().size());
    return 0;
  }
  errno = EINVAL;
  return -1;
}

int
fcntl(int fd, int command, ...)
{
  va_list list;
  va_start(list, command);
  long argument = va_arg(list, long);
  va_end(list);
  fake_os::descriptor *d;
  if (!mine("fcntl", fd, &d)) {
    return static_cast<int>(syscall(SYS_fcntl, fd, command, argument));
  }
  if (d == nullptr) {
    return -1;
  }
  if (command == F_GETFL) {
    return O_RDWR | (d->nonblocking ? O_NONBLOCK : 0);
  }
  if (command == F_SETFL) {
    d->nonblocking = (argument & O_NONBLOCK) != 0;
  }
  return 0;
}

int
close(int fd)
{
  if (fd >= 0 && fd < fake_os::FIRST) {
    return static_cast<int>(syscall(SYS_close, fd));
  }
  auto it = sys.descriptors.find(fd);
  if (it == sys.descriptors.end()) {
    sys.misuse.push_back("close(" + std::to_string(fd) + "), which was never a descriptor");
    errno = EBADF;
    return -1;
  }
  it->second.closes++;
  it->second.open = false;
  return 0;
}

int
getaddrinfo(const char *name, const char *service, const addrinfo *hints, addrinfo **results)
{
  (void) service;
  (void) hints;
  sys.resolved_name = name;
  if (sys.resolve_error != 0) {
    errno = sys.resolve_errno;
    return sys.resolve_error;
  }
  addrinfo **next = results;
  *next = nullptr;
  for (const auto &r : sys.addresses) {
    auto info = static_cast<addrinfo *>(calloc(1, sizeof(addrinfo)));
    auto storage = static_cast<sockaddr_storage *>(calloc(1, sizeof(sockaddr_storage)));
    info->ai_family = r.family;
    info->ai_addrlen = make(storage, r.family, r.bytes, 0);
    info->ai_addr = reinterpret_cast<sockaddr *>(storage);
    *next = info;
    next = &info->ai_next;
  }
  sys.lists++;
  return 0;
}

void
freeaddrinfo(addrinfo *info) noexcept
{
  sys.lists--;
  while (info != nullptr) {
    addrinfo *next = info->ai_next;
    free(info->ai_addr);
    free(info);
    info = next;
  }
}
}

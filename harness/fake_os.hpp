// Stand-ins for the system calls of the example client. Descriptors from FIRST on
// belong to the fake (nothing real has numbers that large); everything else goes to
// the real system call.
#pragma once

#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <string>
#include <sys/socket.h>
#include <vector>

namespace fake_os {

constexpr int FIRST = 5000;

struct descriptor {
  bool open = true;
  int closes = 0;
  int family = 0;
  int type = 0;
  bool nonblocking = false;
  std::string peer;  // Bytes of the address it was connected to.
  uint16_t peer_port = 0;
  std::deque<std::string> in;
  std::vector<std::string> sent;
  int pending = 0; // SO_ERROR
};

struct state {
  std::map<int, descriptor> descriptors;
  int next = FIRST;
  std::vector<std::string> misuse; // Anything a program must not do.

  // Asked before the call takes effect; an errno other than 0 makes it fail.
  std::function<int(const char *call, int fd)> answer;

  std::string local;
  uint16_t local_port = 0;

  struct resolved {
    int family;
    std::string bytes;
  };
  std::vector<resolved> addresses;
  int resolve_error = 0; // EAI_*
  int resolve_errno = 0;
  std::string resolved_name;
  int lists = 0; // Results of getaddrinfo() not yet freed.

  int create(); // A descriptor that isn't a socket.
  descriptor &at(int fd) { return descriptors.at(fd); }
};

extern state sys;

void reset();

}

// A model of sd-event: sources, virtual time and a loop that runs whatever the
// harness picks among what can happen.
#pragma once

#include <systemd/sd-event.h>

#include <functional>
#include <memory>
#include <string>
#include <vector>

struct sd_event_source {
  enum kind_t { io, time, signal } kind;
  int fd = -1;
  uint32_t events = 0;
  uint64_t at = 0;
  int enabled = 0;
  sd_event_io_handler_t on_io = nullptr;
  sd_event_time_handler_t on_time = nullptr;
  void *userdata = nullptr;
  int references = 1;
  bool failed = false; // Its handler failed, so it was switched off.
};

namespace fake_sd {

struct state {
  std::vector<std::unique_ptr<sd_event_source>> sources; // Never freed, to see misuse.
  uint64_t now = 1000000;
  int loops = 0; // References to the default loop.
  bool exiting = false;
  int code = 0;
  std::vector<std::string> misuse;
  std::function<void()> turn; // One turn of the loop, until an exit is asked for.
  int fail_add = 0;           // An errno: adding a source fails.
  int fail_loop = 0;
};

extern state sd;

void reset();

bool dispatch_io(sd_event_source *source, uint32_t events);
bool dispatch_time(sd_event_source *source);

}

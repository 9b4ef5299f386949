#include "fake_sd.hpp"

#include <cerrno>

struct sd_event {
  int unused;
};

namespace fake_sd {

state sd;

static sd_event the_loop;

void
reset()
{
  sd = state();
}

static bool
alive(const char *call, sd_event_source *source)
{
  if (source == nullptr) {
    return false;
  }
  if (source->references <= 0) {
    sd.misuse.push_back(std::string(call) + " on a source that was released");
    return false;
  }
  return true;
}

// A handler that fails has its source switched off.
static bool
after(sd_event_source *source, int rv)
{
  if (rv < 0) {
    source->enabled = SD_EVENT_OFF;
    source->failed = true;
  }
  return rv >= 0;
}

bool
dispatch_io(sd_event_source *source, uint32_t events)
{
  return after(source, source->on_io(source, source->fd, events, source->userdata));
}

bool
dispatch_time(sd_event_source *source)
{
  if (source->enabled == SD_EVENT_ONESHOT) {
    source->enabled = SD_EVENT_OFF;
  }
  return after(source, source->on_time(source, source->at, source->userdata));
}

}

using fake_sd::sd;

static sd_event_source *
add(sd_event_source **out)
{
  sd.sources.push_back(std::make_unique<sd_event_source>());
  sd_event_source *source = sd.sources.back().get();
  if (out != nullptr) {
    *out = source;
  }
  return source;
}

extern "C" {

int
sd_event_default(sd_event **event)
{
  sd.loops++;
  *event = &fake_sd::the_loop;
  return 1;
}

sd_event *
sd_event_ref(sd_event *event)
{
  sd.loops++;
  return event;
}

sd_event *
sd_event_unref(sd_event *event)
{
  if (event != nullptr && --sd.loops < 0) {
    sd.misuse.push_back("the loop was released once too often");
  }
  return nullptr;
}

int
sd_event_now(sd_event *event, clockid_t clock, uint64_t *now)
{
  if (event != &fake_sd::the_loop || clock != CLOCK_MONOTONIC) {
    sd.misuse.push_back("sd_event_now() of no loop or another clock");
    return -EINVAL;
  }
  *now = sd.now;
  return 0;
}

int
sd_event_add_io(sd_event *, sd_event_source **out, int fd, uint32_t events, sd_event_io_handler_t handler,
                void *userdata)
{
  if (sd.fail_add != 0) {
    return -sd.fail_add;
  }
  sd_event_source *source = add(out);
  source->kind = sd_event_source::io;
  source->fd = fd;
  source->events = events;
  source->enabled = SD_EVENT_ON;
  source->on_io = handler;
  source->userdata = userdata;
  return 0;
}

int
sd_event_add_time(sd_event *, sd_event_source **out, clockid_t clock, uint64_t at, uint64_t,
                  sd_event_time_handler_t handler, void *userdata)
{
  if (sd.fail_add != 0) {
    return -sd.fail_add;
  }
  if (clock != CLOCK_MONOTONIC) {
    sd.misuse.push_back("a timer on another clock");
  }
  sd_event_source *source = add(out);
  source->kind = sd_event_source::time;
  source->at = at;
  source->enabled = SD_EVENT_ONESHOT;
  source->on_time = handler;
  source->userdata = userdata;
  return 0;
}

int
sd_event_add_signal(sd_event *, sd_event_source **out, int, sd_event_signal_handler_t, void *userdata)
{
  if (sd.fail_add != 0) {
    return -sd.fail_add;
  }
  sd_event_source *source = add(out);
  source->kind = sd_event_source::signal;
  source->enabled = SD_EVENT_ON;
  source->userdata = userdata;
  return 0;
}

int
sd_event_loop(sd_event *)
{
  if (sd.fail_loop != 0) {
    return -sd.fail_loop;
  }
  while (!sd.exiting) {
    sd.turn();
  }
  sd.exiting = false;
  return sd.code;
}

int
sd_event_exit(sd_event *, int code)
{
  sd.exiting = true;
  sd.code = code;
  return 0;
}

sd_event_source *
sd_event_source_unref(sd_event_source *source)
{
  if (source != nullptr && --source->references < 0) {
    sd.misuse.push_back("a source was released twice");
  }
  if (source != nullptr) {
    source->enabled = SD_EVENT_OFF;
  }
  return nullptr;
}

void *
sd_event_source_set_userdata(sd_event_source *source, void *userdata)
{
  if (!fake_sd::alive("sd_event_source_set_userdata()", source)) {
    return nullptr;
  }
  void *before = source->userdata;
  source->userdata = userdata;
  return before;
}

void *
sd_event_source_get_userdata(sd_event_source *source)
{
  return fake_sd::alive("sd_event_source_get_userdata()", source) ? source->userdata : nullptr;
}

int
sd_event_source_set_time(sd_event_source *source, uint64_t at)
{
  if (!fake_sd::alive("sd_event_source_set_time()", source)) {
    return -EINVAL;
  }
  source->at = at;
  return 0;
}

int
sd_event_source_set_enabled(sd_event_source *source, int enabled)
{
  if (!fake_sd::alive("sd_event_source_set_enabled()", source)) {
    return -EINVAL;
  }
  source->enabled = enabled;
  return 0;
}
}

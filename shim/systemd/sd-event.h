// The part of sd-event that the example client uses (systemd's headers aren't
// installed here). harness/fake_sd.hpp implements it as a model.
#pragma once

#include <csignal>
#include <cstdint>
#include <sys/epoll.h>
#include <sys/signalfd.h>
#include <time.h>

typedef struct sd_event sd_event;
typedef struct sd_event_source sd_event_source;

enum { SD_EVENT_OFF = 0, SD_EVENT_ON = 1, SD_EVENT_ONESHOT = -1 };

extern "C" {
typedef int (*sd_event_io_handler_t)(sd_event_source *, int, uint32_t, void *);
typedef int (*sd_event_time_handler_t)(sd_event_source *, uint64_t, void *);
typedef int (*sd_event_signal_handler_t)(sd_event_source *, const struct signalfd_siginfo *, void *);

int sd_event_default(sd_event **);
sd_event *sd_event_ref(sd_event *);
sd_event *sd_event_unref(sd_event *);
int sd_event_now(sd_event *, clockid_t, uint64_t *);
int sd_event_add_io(sd_event *, sd_event_source **, int, uint32_t, sd_event_io_handler_t, void *);
int sd_event_add_time(sd_event *, sd_event_source **, clockid_t, uint64_t, uint64_t, sd_event_time_handler_t, void *);
int sd_event_add_signal(sd_event *, sd_event_source **, int, sd_event_signal_handler_t, void *);
int sd_event_loop(sd_event *);
int sd_event_exit(sd_event *, int);
sd_event_source *sd_event_source_unref(sd_event_source *);
void *sd_event_source_set_userdata(sd_event_source *, void *);
void *sd_event_source_get_userdata(sd_event_source *);
int sd_event_source_set_time(sd_event_source *, uint64_t);
int sd_event_source_set_enabled(sd_event_source *, int);
}

// Bounded exhaustive exploration of the real implementation.
//
// A scenario is a function that drives the implementation and takes every
// nondeterministic decision (which operation comes next, which argument it
// gets, how the transport answers, ...) through mc::choose(). The explorer
// re-executes the scenario until every sequence of choices has been taken
// once (depth-first, stateless), spread over several processes.
#pragma once

#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace mc {

// True when running the thorough tier (deeper bounds).
bool thorough();

// Takes one of n alternatives; every alternative is explored.
int choose(int n, const char *label = "");

template<class C>
const typename C::value_type &
pick(const C &c, const char *label = "")
{
  return c[static_cast<size_t>(choose(static_cast<int>(c.size()), label))];
}

// Counts one operation executed on the implementation (a transition).
void step(uint64_t n = 1);

// Records the state (of the reference model) that was reached.
void state(uint64_t hash);

// Records an observed outcome, to show that executions really differ.
void outcome(uint64_t hash);

// True when the textual log of the execution is wanted (replay, samples).
bool logging();
void log(const char *format, ...) __attribute__((format(printf, 1, 2)));

// The property is violated in this execution. `key` identifies the kind of
// violation (matched against the known findings), the rest explains it.
[[noreturn]] void fail(const char *key, const char *format, ...)
  __attribute__((format(printf, 2, 3)));

#define MC_CHECK(cond, key, ...)                                               \
  do {                                                                         \
    if (!(cond)) {                                                             \
      ::mc::fail(key, __VA_ARGS__);                                            \
    }                                                                          \
  } while (0)

struct scenario {
  std::string name;
  std::string bound; // What is enumerated, in words.
  std::function<void()> body;
  int split = 2; // Number of leading choices over which work is distributed.
};

// Allocation accounting (global operator new / delete).
struct memory {
  static uint64_t live_blocks();
  static uint64_t live_bytes();
  static uint64_t peak_bytes(); // Since the last reset.
  static void reset_peak();
  static void fill(uint8_t byte); // Content of fresh memory.
};

int run(int argc, char **argv, const std::vector<scenario> &scenarios);

// FNV-1a style hashing helpers.
struct hasher {
  uint64_t h = 1469598103934665603ULL;
  hasher &add(uint64_t v)
  {
    for (int i = 0; i < 8; i++) {
      h = (h ^ ((v >> (8 * i)) & 0xff)) * 1099511628211ULL;
    }
    return *this;
  }
  hasher &add(const std::string &s)
  {
    add(s.size());
    for (char c : s) {
      h = (h ^ static_cast<uint8_t>(c)) * 1099511628211ULL;
    }
    return *this;
  }
  operator uint64_t() const { return h; }
};

std::string hex(const std::string &bytes, size_t max = 64);

}

#include "explore.hpp"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>

#include <fcntl.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <new>

// ---------------------------------------------------------------- memory ---

static uint64_t g_live_blocks, g_live_bytes, g_peak_bytes;
static uint8_t g_fill = 0xa5;

static void *
counted_new(size_t size)
{
  void *p = malloc(size == 0 ? 1 : size);
  if (p == nullptr) {
    throw std::bad_alloc();
  }
  size_t usable = malloc_usable_size(p);
  memset(p, g_fill, size);
  g_live_blocks++;
  g_live_bytes += usable;
  if (g_live_bytes > g_peak_bytes) {
    g_peak_bytes = g_live_bytes;
  }
  return p;
}

static void
counted_delete(void *p)
{
  if (p == nullptr) {
    return;
  }
  g_live_blocks--;
  g_live_bytes -= malloc_usable_size(p);
  free(p);
}

void *operator new(size_t size) { return counted_new(size); }
void *operator new[](size_t size) { return counted_new(size); }
void *operator new(size_t size, const std::nothrow_t &) noexcept { return counted_new(size); }
void *operator new[](size_t size, const std::nothrow_t &) noexcept { return counted_new(size); }
void operator delete(void *p) noexcept { counted_delete(p); }
void operator delete[](void *p) noexcept { counted_delete(p); }
void operator delete(void *p, size_t) noexcept { counted_delete(p); }
void operator delete[](void *p, size_t) noexcept { counted_delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { counted_delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { counted_delete(p); }

namespace mc {

uint64_t memory::live_blocks() { return g_live_blocks; }
uint64_t memory::live_bytes() { return g_live_bytes; }
uint64_t memory::peak_bytes() { return g_peak_bytes; }
void memory::reset_peak() { g_peak_bytes = g_live_bytes; }
void memory::fill(uint8_t byte) { g_fill = byte; }

// -------------------------------------------------------------- explorer ---

static constexpr size_t MAX_CHOICES = 1 << 16;
static constexpr size_t MAX_MESSAGE = 6000;
static constexpr int KEEP = 3;

enum status { RUNNING, DONE, FAILED, CAPPED, BROKEN };
static constexpr size_t MAX_TICKETS = 1 << 18;

struct slot { // One per worker, in shared memory.
  std::atomic<uint64_t> executions, transitions, heartbeat, known;
  std::atomic<uint64_t> max_choices;
  std::atomic<int> status;
  std::atomic<uint32_t> length;
  uint32_t n[MAX_CHOICES], v[MAX_CHOICES];
  char key[200];
  char message[MAX_MESSAGE];
  // Choice sequences of a few executions, to be written out as samples.
  uint32_t kept_length[KEEP];
  uint32_t kept[KEEP][2000];
  // Prefixes taken, in order; reproduces everything the worker did.
  std::atomic<uint32_t> taken;
  uint64_t tickets[MAX_TICKETS];
  // Known findings met.
  char known_keys[2000];
};

struct table { // Set of 64-bit hashes, in shared memory.
  std::atomic<uint64_t> *cells = nullptr;
  uint64_t mask = 0;
  std::atomic<uint64_t> *count = nullptr;
  std::atomic<uint64_t> *lost = nullptr;

  void create(int bits)
  {
    size_t bytes = (size_t(1) << bits) * 8 + 64;
    void *p = mmap(nullptr, bytes, PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
      perror("mmap");
      _exit(2);
    }
    count = static_cast<std::atomic<uint64_t> *>(p);
    lost = count + 1;
    cells = count + 8;
    mask = (uint64_t(1) << bits) - 1;
  }

  void insert(uint64_t h)
  {
    if (h == 0) {
      h = 1;
    }
    uint64_t mixed = h * 0x9E3779B97F4A7C15ULL;
    uint64_t i = (mixed >> 20) & mask;
    for (int probe = 0; probe < 64; probe++, i = (i + 1) & mask) {
      uint64_t cur = cells[i].load(std::memory_order_relaxed);
      if (cur == h) {
        return;
      }
      if (cur == 0) {
        uint64_t expected = 0;
        if (cells[i].compare_exchange_strong(expected, h)) {
          count->fetch_add(1);
          return;
        }
        if (expected == h) {
          return;
        }
      }
    }
    lost->fetch_add(1);
  }
};

struct known_finding {};

static bool g_thorough;
static bool g_logging;
static slot *g_slot;
static table g_states, g_outcomes;
static uint64_t g_scenario_hash;
static std::set<std::string> g_known;

// Depth-first search state of this process.
static std::vector<uint32_t> path;   // Choices to repeat, then zeroes.
static std::vector<uint32_t> widths; // Alternatives seen at each position.
static size_t position;
static bool replaying;     // Follow `path` only; ignore ownership.
static int workers;
static int split_depth;
static uint64_t prefix_base; // Index of the first prefix below this parent.
static uint64_t mine;        // Index of the prefix this worker explores next.
static std::atomic<uint64_t> *g_ticket; // Shared: next prefix nobody took.
static bool owned;
static uint64_t g_steps; // Transitions of the current execution.

static const std::vector<uint64_t> *g_script; // Prefixes to repeat, in order.

// The next prefix this worker explores.
static uint64_t
take()
{
  uint32_t i = g_slot->taken;
  uint64_t t;
  if (g_script != nullptr) {
    t = i < g_script->size() ? (*g_script)[i] : UINT64_MAX / 2;
  } else {
    t = g_ticket->fetch_add(1);
  }
  if (i < MAX_TICKETS) {
    g_slot->tickets[i] = t;
    g_slot->taken = i + 1;
  }
  return t;
}

bool thorough() { return g_thorough; }
bool logging() { return g_logging; }

static void
put_message(slot *s, const std::string &text)
{
  size_t size = std::min(text.size(), MAX_MESSAGE - 1);
  memcpy(s->message, text.data(), size);
  s->message[size] = 0;
}

// The implementation behaved differently when given the same calls again.
static void
diverged(const char *format, ...)
{
  va_list args;
  va_start(args, format);
  vsnprintf(g_slot->message, MAX_MESSAGE, format, args);
  va_end(args);
  snprintf(g_slot->key, sizeof(g_slot->key), "diverged");
  g_slot->status = FAILED;
  _exit(0);
}

static void
broken(const char *format, ...)
{
  va_list args;
  va_start(args, format);
  vsnprintf(g_slot->message, MAX_MESSAGE, format, args);
  va_end(args);
  g_slot->status = BROKEN;
  _exit(0);
}

int
choose(int n, const char *label)
{
  if (n <= 0) {
    broken("choose(%d) at %s", n, label);
  }

  uint32_t value = 0;

  if (position < path.size()) {
    value = path[position];
    if (position < widths.size() && widths[position] != 0 &&
        widths[position] != static_cast<uint32_t>(n)) {
      diverged("not deterministic: choice %zu (%s) had %u alternatives, now %d",
             position, label, widths[position], n);
    }
    if (value >= static_cast<uint32_t>(n)) {
      diverged("not deterministic: choice %zu (%s) is %u of %d", position, label,
             value, n);
    }
    if (position >= widths.size()) {
      widths.resize(position + 1, 0);
    }
    widths[position] = static_cast<uint32_t>(n);
  } else {
    if (!replaying && static_cast<int>(position) == split_depth - 1) {
      // First visit below this parent: start at the first owned alternative.
      uint64_t first = mine - prefix_base;
      if (first < static_cast<uint64_t>(n)) {
        value = static_cast<uint32_t>(first);
        owned = true;
      } else {
        owned = false;
      }
    }
    path.push_back(value);
    widths.resize(position, 1);
    widths.push_back(static_cast<uint32_t>(n));
  }

  if (position < MAX_CHOICES) {
    g_slot->n[position] = static_cast<uint32_t>(n);
    g_slot->v[position] = value;
    g_slot->length = static_cast<uint32_t>(position + 1);
  } else {
    broken("too many choices in one execution");
  }

  position++;

  return static_cast<int>(value);
}

void
step(uint64_t n)
{
  g_steps += n;
}

void
state(uint64_t hash)
{
  g_states.insert(hash ^ g_scenario_hash);
}

void
outcome(uint64_t hash)
{
  g_outcomes.insert(hash ^ g_scenario_hash);
}

void
log(const char *format, ...)
{
  if (!g_logging) {
    return;
  }
  va_list args;
  va_start(args, format);
  vprintf(format, args);
  va_end(args);
  printf("\n");
  fflush(stdout);
}

void
fail(const char *key, const char *format, ...)
{
  char text[MAX_MESSAGE];
  va_list args;
  va_start(args, format);
  vsnprintf(text, sizeof(text), format, args);
  va_end(args);

  if (g_known.count(key) != 0) {
    g_slot->known++;
    size_t used = strlen(g_slot->known_keys);
    std::string line = std::string(key) + "\n";
    if (strstr(g_slot->known_keys, line.c_str()) == nullptr &&
        used + line.size() < sizeof(g_slot->known_keys)) {
      strcat(g_slot->known_keys, line.c_str());
    }
    if (g_logging) {
      log("KNOWN %s: %s", key, text);
    }
    throw known_finding();
  }

  snprintf(g_slot->key, sizeof(g_slot->key), "%s", key);
  put_message(g_slot, text);
  if (g_logging) {
    log("FAILED [%s] %s", key, text);
  }
  g_slot->status = FAILED;
  _exit(0);
}

static void
execute(const scenario &s)
{
  position = 0;
  owned = replaying;
  g_steps = 0;
  g_slot->length = 0;
  // Prefixes re-executed from `path` were made owned when chosen.
  if (!replaying && static_cast<int>(path.size()) >= split_depth) {
    owned = true;
  }

  try {
    s.body();
  } catch (const known_finding &) {
  } catch (const std::exception &e) {
    fail("exception", "an exception escaped: %s", e.what());
  } catch (...) {
    fail("exception", "an exception of unknown type escaped");
  }

  if (position < path.size()) {
    diverged("not deterministic: execution took %zu of %zu choices", position,
           path.size());
  }
}

// Moves `path` to the next sequence owned by this worker; false at the end.
static bool
advance()
{
  while (!path.empty()) {
    size_t last = path.size() - 1;
    uint32_t value = path[last];
    uint32_t n = widths[last];
    if (static_cast<int>(last) == split_depth - 1) {
      // The current prefix is done: take the next one.
      if (prefix_base + value == mine) {
        mine = take();
      }
      uint64_t next = mine - prefix_base;
      if (next < n) {
        path[last] = static_cast<uint32_t>(next);
        widths.resize(path.size());
        return true;
      }
      prefix_base += n;
    } else if (value + 1 < n) {
      path[last]++;
      widths.resize(path.size());
      return true;
    }
    path.pop_back();
    widths.resize(path.size());
  }
  return false;
}

static double
now()
{
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
}

static void
explore(const scenario &s, double deadline)
{
  path.clear();
  path.reserve(MAX_CHOICES);
  widths.reserve(MAX_CHOICES);
  widths.clear();
  prefix_base = 0;
  replaying = false;
  split_depth = std::max(1, s.split);
  mine = take();

  uint64_t count = 0;
  uint64_t next_kept = 1;
  int kept = 0;

  while (true) {
    g_slot->heartbeat.fetch_add(1, std::memory_order_relaxed);
    execute(s);

    // Executions with fewer choices than the split depth form one prefix.
    if (static_cast<int>(path.size()) < split_depth) {
      owned = prefix_base == mine;
      if (owned) {
        mine = take();
      }
      prefix_base++;
    }

    if (owned) {
      count++;
      g_slot->executions.store(count, std::memory_order_relaxed);
      g_slot->transitions.fetch_add(g_steps, std::memory_order_relaxed);
      if (path.size() > g_slot->max_choices) {
        g_slot->max_choices = path.size();
      }
      if (count == next_kept && kept < KEEP && path.size() < 2000) {
        std::copy(path.begin(), path.end(), g_slot->kept[kept]);
        g_slot->kept_length[kept] = static_cast<uint32_t>(path.size());
        kept++;
        next_kept = next_kept * 37 + 5;
      }
    } else if (static_cast<int>(path.size()) >= split_depth) {
      // No alternative at the split position is ours: skip them all.
      path.resize(static_cast<size_t>(split_depth));
      widths.resize(path.size());
      prefix_base += widths.back();
      path.pop_back();
      widths.pop_back();
    }

    if (!advance()) {
      break;
    }
    if (now() > deadline) {
      g_slot->status = CAPPED;
      _exit(0);
    }
  }

  g_slot->status = DONE;
  _exit(0);
}

static slot *
new_slots(int n)
{
  void *p = mmap(nullptr, sizeof(slot) * static_cast<size_t>(n),
                 PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    _exit(2);
  }
  return static_cast<slot *>(p);
}

static std::string
slurp(const std::string &file, size_t max)
{
  std::string text;
  FILE *f = fopen(file.c_str(), "rb");
  if (f == nullptr) {
    return text;
  }
  char chunk[4096];
  size_t got;
  while ((got = fread(chunk, 1, sizeof(chunk), f)) > 0 && text.size() < max) {
    text.append(chunk, got);
  }
  fclose(f);
  if (text.size() > max) {
    text.resize(max);
  }
  return text;
}

static std::string
escape(const std::string &text)
{
  std::string out;
  for (char ch : text) {
    unsigned char c = static_cast<unsigned char>(ch);
    if (c == '"' || c == '\\') {
      out += '\\';
      out += ch;
    } else if (c == '\n') {
      out += "\\n";
    } else if (c < 0x20 || c >= 0x7f) {
      char code[8];
      snprintf(code, sizeof(code), "\\u%04x", c);
      out += code;
    } else {
      out += ch;
    }
  }
  return out;
}

std::string
hex(const std::string &bytes, size_t max)
{
  std::string out;
  char two[4];
  for (size_t i = 0; i < bytes.size() && i < max; i++) {
    snprintf(two, sizeof(two), "%02x", static_cast<uint8_t>(bytes[i]));
    out += two;
  }
  if (bytes.size() > max) {
    out += "...(" + std::to_string(bytes.size()) + " bytes)";
  }
  return out;
}

struct verdict {
  enum { ok, failed, crashed, hung, broken } kind = ok;
  std::string key, message, log;
};

// Runs one choice sequence in a fresh process; or, if a script is given, all
// executions of the prefixes it lists.
static verdict
run_alone(const scenario &s, const std::vector<uint32_t> &choices,
          double limit, const std::string &scratch,
          const std::vector<uint64_t> *script = nullptr)
{
  slot *shared = new_slots(1);
  std::string out = scratch + "/alone.out", err = scratch + "/alone.err";
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 1);
    fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 2);
    g_slot = shared;
    if (script != nullptr) {
      g_script = script;
      explore(s, now() + 1e6);
      _exit(0);
    }
    g_logging = true;
    replaying = true;
    path = choices;
    widths.clear();
    split_depth = 0;
    execute(s);
    g_slot->status = DONE;
    _exit(0);
  }
  double start = now();
  int wstatus = 0;
  bool hung = false;
  uint64_t last_beat = 0;
  while (waitpid(pid, &wstatus, WNOHANG) == 0) {
    uint64_t beat = shared->heartbeat;
    if (beat != last_beat) {
      last_beat = beat;
      start = now();
    }
    if (now() - start > limit) {
      kill(pid, SIGKILL);
      waitpid(pid, &wstatus, 0);
      hung = true;
      break;
    }
    usleep(1000);
  }
  verdict v;
  v.log = slurp(out, 20000);
  int st = shared->status;
  if (hung) {
    v.kind = verdict::hung;
    v.key = "hang";
    v.message = "the execution does not terminate";
  } else if (st == FAILED) {
    v.kind = verdict::failed;
    v.key = shared->key;
    v.message = shared->message;
  } else if (st == BROKEN) {
    v.kind = verdict::broken;
    v.message = shared->message;
  } else if (st == DONE) {
    v.kind = verdict::ok;
  } else {
    v.kind = verdict::crashed;
    v.key = "crash";
    v.message = "the process died (" +
                (WIFSIGNALED(wstatus)
                   ? "signal " + std::to_string(WTERMSIG(wstatus))
                   : "exit " + std::to_string(WEXITSTATUS(wstatus))) +
                "): " + slurp(err, 2500);
  }
  munmap(shared, sizeof(slot));
  return v;
}

template<class T>
static std::string
seq(const std::vector<T> &choices)
{
  std::string s;
  for (T c : choices) {
    s += (s.empty() ? "" : ",") + std::to_string(c);
  }
  return s;
}

int
run(int argc, char **argv, const std::vector<scenario> &scenarios)
{
  std::string scratch = "/tmp", only, replay_choices, replay_prefixes, out_file;
  bool replay = false;
  double budget = 600;
  double hang_limit = 40;
  workers = 8;
  int state_bits = 22;

  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") {
      g_thorough = next() == "thorough";
    } else if (a == "--scratch") {
      scratch = next();
    } else if (a == "--only") {
      only = next();
    } else if (a == "--choices") {
      replay = true;
      replay_choices = next();
    } else if (a == "--prefixes") {
      replay_prefixes = next();
    } else if (a == "--workers") {
      workers = atoi(next().c_str());
    } else if (a == "--budget") {
      budget = atof(next().c_str());
    } else if (a == "--out") {
      out_file = next();
    } else if (a == "--known") {
      std::string text = next();
      size_t at = 0;
      while (at < text.size()) {
        size_t end = text.find('\n', at);
        if (end == std::string::npos) {
          end = text.size();
        }
        if (end > at) {
          g_known.insert(text.substr(at, end - at));
        }
        at = end + 1;
      }
    }
  }

  if (g_thorough) {
    state_bits = 26;
  }
  g_states.create(state_bits);
  g_outcomes.create(state_bits);
  g_ticket = static_cast<std::atomic<uint64_t> *>(
    mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1,
         0));

  double start = now();
  double deadline = start + budget;

  FILE *out = out_file.empty() ? stdout : fopen(out_file.c_str(), "w");
  if (out == nullptr) {
    perror("open output");
    return 2;
  }

  if (replay) {
    auto numbers = [](const std::string &text) {
      std::vector<uint64_t> result;
      const char *p = text.c_str();
      while (*p != 0) {
        result.push_back(strtoull(p, const_cast<char **>(&p), 10));
        p += *p != 0;
      }
      return result;
    };
    std::vector<uint64_t> script = numbers(replay_prefixes);
    std::vector<uint32_t> choices;
    for (uint64_t c : numbers(replay_choices)) {
      choices.push_back(static_cast<uint32_t>(c));
    }
    for (const scenario &s : scenarios) {
      if (s.name == only) {
        g_scenario_hash = hasher().add(s.name);
        verdict v = run_alone(s, choices, 120, scratch,
                              script.empty() ? nullptr : &script);
        printf("%s", v.log.c_str());
        printf("result: %s %s\n%s\n",
               v.kind == verdict::ok ? "no violation"
               : v.kind == verdict::broken ? "replay failed" : "violation",
               v.key.c_str(), v.message.c_str());
        return v.kind == verdict::ok ? 0 : v.kind == verdict::broken ? 2 : 1;
      }
    }
    fprintf(stderr, "unknown scenario %s\n", only.c_str());
    return 2;
  }

  fprintf(out, "{\"scenarios\":[");
  bool first = true;
  int exit_code = 0;

  for (const scenario &s : scenarios) {
    if (!only.empty() && s.name != only) {
      continue;
    }
    g_scenario_hash = hasher().add(s.name);
    uint64_t states_before = g_states.count->load();
    uint64_t outcomes_before = g_outcomes.count->load();
    slot *slots = new_slots(workers);
    g_ticket->store(0);
    std::vector<pid_t> pids;
    double s_start = now();
    fflush(out);
    fflush(stdout);
    fflush(stderr);

    for (int w = 0; w < workers; w++) {
      pid_t pid = fork();
      if (pid == 0) {
        g_slot = &slots[w];
        std::string err = scratch + "/w" + std::to_string(w) + ".err";
        int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(fd, 2);
        fd = open("/dev/null", O_WRONLY);
        dup2(fd, 1);
        explore(s, deadline);
        _exit(0);
      }
      pids.push_back(pid);
    }

    std::vector<uint64_t> beat(pids.size(), 0);
    std::vector<double> beat_at(pids.size(), now());
    std::vector<bool> alive(pids.size(), true);
    int bad = -1;
    bool suspect_hang = false;
    size_t running = pids.size();

    while (running > 0 && bad < 0) {
      bool progress = false;
      for (size_t w = 0; w < pids.size() && bad < 0; w++) {
        if (!alive[w]) {
          continue;
        }
        int wstatus = 0;
        pid_t r = waitpid(pids[w], &wstatus, WNOHANG);
        if (r == pids[w]) {
          alive[w] = false;
          running--;
          progress = true;
          int st = slots[w].status;
          if (st != DONE && st != CAPPED) {
            bad = static_cast<int>(w);
          }
          continue;
        }
        uint64_t b = slots[w].heartbeat;
        if (b != beat[w]) {
          beat[w] = b;
          beat_at[w] = now();
        } else if (now() - beat_at[w] > hang_limit) {
          bad = static_cast<int>(w);
          suspect_hang = true;
        }
      }
      if (!progress) {
        usleep(2000);
      }
    }

    std::string problem_key, problem, problem_log, problem_seq;
    std::vector<uint64_t> problem_script;
    bool capped = false;

    if (bad >= 0) {
      for (size_t w = 0; w < pids.size(); w++) {
        if (alive[w]) {
          kill(pids[w], SIGKILL);
          waitpid(pids[w], nullptr, 0);
        }
      }
      slot &b = slots[bad];
      if (b.status == BROKEN) {
        fprintf(stderr, "harness error in %s: %s\n", s.name.c_str(), b.message);
        return 2;
      }
      std::vector<uint32_t> choices(b.v, b.v + b.length);
      // The same choices must fail again, twice, before anything is reported.
      // If they do not, the failure may depend on what the implementation
      // remembers from earlier executions: repeat all of those.
      double limit = suspect_hang ? 90 : 120;
      const std::vector<uint64_t> *script = nullptr;
      std::vector<uint64_t> taken(b.tickets, b.tickets + b.taken);
      verdict v1, v2;
      while (true) {
        v1 = run_alone(s, choices, limit, scratch, script);
        v2 = run_alone(s, choices, limit, scratch, script);
        bool same = v1.kind != verdict::ok && v1.kind != verdict::broken &&
                    v1.kind == v2.kind && v1.key == v2.key;
        if (same) {
          break;
        }
        if (script == nullptr && b.taken < MAX_TICKETS &&
            !(suspect_hang && v1.kind == verdict::ok)) {
          script = &taken;
          continue;
        }
        fprintf(stderr,
                "%s: a failure did not reproduce (%d/%d): %s / %s / %s\n%s\n",
                s.name.c_str(), v1.kind, v2.kind, b.key, b.message,
                v1.message.c_str(),
                slurp(scratch + "/w" + std::to_string(bad) + ".err", 3000).c_str());
        return 2;
      }
      if (script != nullptr) {
        v1.message += " (only after the earlier executions with prefixes";
        for (uint64_t t : taken) {
          v1.message += " " + std::to_string(t);
        }
        v1.message += ")";
        problem_script = taken;
      }
      problem_key = v1.key;
      problem = v1.message;
      problem_log = v1.log;
      problem_seq = seq(choices);
      exit_code = 1;
    }

    uint64_t executions = 0, transitions = 0, max_choices = 0, known = 0;
    std::set<std::string> known_keys;
    for (int w = 0; w < workers; w++) {
      executions += slots[w].executions;
      transitions += slots[w].transitions;
      known += slots[w].known;
      max_choices = std::max<uint64_t>(max_choices, slots[w].max_choices);
      capped = capped || slots[w].status == CAPPED;
      std::string keys = slots[w].known_keys;
      size_t at = 0;
      while (at < keys.size()) {
        size_t end = keys.find('\n', at);
        known_keys.insert(keys.substr(at, end - at));
        at = end + 1;
      }
    }

    fprintf(out,
            "%s\n{\"name\":\"%s\",\"bound\":\"%s\",\"executions\":%llu,"
            "\"transitions\":%llu,\"states\":%llu,\"outcomes\":%llu,"
            "\"max_choices\":%llu,\"capped\":%s,\"lost_hashes\":%llu,"
            "\"known\":%llu,\"seconds\":%.2f",
            first ? "" : ",",
            escape(s.name).c_str(), escape(s.bound).c_str(),
            static_cast<unsigned long long>(executions),
            static_cast<unsigned long long>(transitions),
            static_cast<unsigned long long>(g_states.count->load() - states_before),
            static_cast<unsigned long long>(g_outcomes.count->load() - outcomes_before),
            static_cast<unsigned long long>(max_choices),
            capped ? "true" : "false",
            static_cast<unsigned long long>(g_states.lost->load()),
            static_cast<unsigned long long>(known), now() - s_start);
    first = false;

    fprintf(out, ",\"known_keys\":[");
    bool fk = true;
    for (const std::string &k : known_keys) {
      fprintf(out, "%s\"%s\"", fk ? "" : ",", escape(k).c_str());
      fk = false;
    }
    fprintf(out, "]");

    // Samples: written out from a re-execution.
    fprintf(out, ",\"samples\":[");
    bool fs = true;
    for (int w = 0; w < workers && exit_code == 0; w += 5) {
      for (int k = 0; k < KEEP; k++) {
        if (slots[w].kept_length[k] == 0 || (k != 1 && w != 0)) {
          continue;
        }
        if (w == 0 && k == 0) {
          continue;
        }
        std::vector<uint32_t> choices(slots[w].kept[k],
                                      slots[w].kept[k] + slots[w].kept_length[k]);
        verdict v = run_alone(s, choices, 120, scratch);
        fprintf(out, "%s{\"choices\":\"%s\",\"log\":\"%s\"}", fs ? "" : ",",
                seq(choices).c_str(), escape(v.log.substr(0, 900)).c_str());
        fs = false;
      }
    }
    fprintf(out, "]");

    if (exit_code == 1) {
      fprintf(out,
              ",\"violation\":{\"key\":\"%s\",\"message\":\"%s\",\"choices\":"
              "\"%s\",\"prefixes\":\"%s\",\"log\":\"%s\"}",
              escape(problem_key).c_str(), escape(problem).c_str(),
              problem_seq.c_str(), seq(problem_script).c_str(),
              escape(problem_log).c_str());
    }
    fprintf(out, "}");
    munmap(slots, sizeof(slot) * static_cast<size_t>(workers));
    if (exit_code != 0) {
      break;
    }
  }

  fprintf(out, "],\"states\":%llu,\"outcomes\":%llu,\"seconds\":%.2f}\n",
          static_cast<unsigned long long>(g_states.count->load()),
          static_cast<unsigned long long>(g_outcomes.count->load()),
          now() - start);
  fclose(out);
  return exit_code;
}

}

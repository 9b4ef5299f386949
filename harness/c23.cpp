// C23: logging never changes behaviour, and the console logger writes each
// record as one complete line to the stream of its severity.
#include "util.hpp"

#include <ref/frame.hpp>
#include <ref/qpack.hpp>

#include <bnl/base/log.hpp>
#include <bnl/http3/client/connection.hpp>
#include <bnl/http3/codec/body.hpp>
#include <bnl/http3/codec/frame.hpp>
#include <bnl/http3/codec/headers.hpp>
#include <bnl/http3/codec/qpack.hpp>
#include <bnl/http3/server/connection.hpp>
#include <bnl/log/console.hpp>

#include <cstdio>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

using namespace util;
namespace h3 = bnl::http3;
namespace quic = bnl::quic;
namespace log_ = bnl::base::log;
using level = log_::level;

namespace {

// ------------------------------------------------------------- capturing ---

// Redirects the standard streams (to memory, or to a device that is always
// full) while it lives.
class capture {
public:
  explicit capture(bool full = false)
  {
    fflush(stdout);
    fflush(stderr);
    for (int i = 0; i < 2; i++) {
      saved_[i] = dup(i + 1);
      if (full) {
        int fd = open("/dev/full", O_WRONLY);
        dup2(fd, i + 1);
        close(fd);
      } else {
        if (memory_[i] == -1) {
          memory_[i] = memfd_create("captured", 0);
        }
        if (ftruncate(memory_[i], 0) != 0) {
          perror("ftruncate");
        }
        lseek(memory_[i], 0, SEEK_SET);
        dup2(memory_[i], i + 1);
      }
    }
    full_ = full;
  }

  void stop()
  {
    if (stopped_) {
      return;
    }
    stopped_ = true;
    fflush(stdout);
    fflush(stderr);
    for (int i = 0; i < 2; i++) {
      if (!full_) {
        off_t size = lseek(memory_[i], 0, SEEK_END);
        written_[i].resize(static_cast<size_t>(size));
        if (pread(memory_[i], &written_[i][0], written_[i].size(), 0) != size) {
          perror("pread");
        }
      }
      dup2(saved_[i], i + 1);
      close(saved_[i]);
    }
    // What could not be written is lost, not written later.
    clearerr(stdout);
    clearerr(stderr);
  }

  ~capture() { stop(); }

  const std::string &out() const { return written_[0]; }
  const std::string &err() const { return written_[1]; }

private:
  static int memory_[2];
  int saved_[2];
  std::string written_[2];
  bool stopped_ = false;
  bool full_ = false;
};

int capture::memory_[2] = { -1, -1 };

// Without the escape sequences that select colors.
std::string
plain(const std::string &s)
{
  std::string r;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '\x1b' && i + 1 < s.size() && s[i + 1] == '[') {
      size_t j = i + 2;
      while (j < s.size() && (isdigit(static_cast<unsigned char>(s[j])) || s[j] == ';')) {
        j++;
      }
      if (j < s.size() && s[j] == 'm') {
        i = j;
        continue;
      }
    }
    r += s[i];
  }
  return r;
}

struct record {
  level severity;
  std::string text;
  std::string source; // Empty when not logged.
};

bool
to_stderr(level l)
{
  return l == level::warning || l == level::error;
}

const char *
name(level l)
{
  static const char *names[] = { "TRACE", "DEBUG", "INFO", "WARN", "ERROR" };
  return names[static_cast<int>(l)];
}

// Whether `content` is exactly these records' lines, in order.
void
check_records(const std::string &content, const std::vector<record> &records, bool err,
              const char *stream)
{
  std::string s = plain(content);
  size_t at = 0;
  for (const record &r : records) {
    if (to_stderr(r.severity) != err) {
      continue;
    }
    std::string text = plain(r.text);
    size_t lines = 1;
    for (char c : text) {
      lines += c == '\n';
    }
    size_t end = at;
    for (size_t i = 0; i < lines; i++) {
      end = s.find('\n', end);
      MC_CHECK(end != std::string::npos, "incomplete-line",
               "%s: no complete line for '%s', but '%s'", stream, mc::hex(text).c_str(),
               s.substr(at, 200).c_str());
      end++;
    }
    std::string line = s.substr(at, end - 1 - at);
    MC_CHECK(line.size() >= text.size() &&
               line.compare(line.size() - text.size(), text.size(), text) == 0,
             "text", "%s: line '%s' instead of '%s'", stream, line.c_str(), text.c_str());
    std::string prefix = line.substr(0, line.size() - text.size());
    MC_CHECK(prefix.find('\n') == std::string::npos, "line", "%s: newline in '%s'", stream,
             prefix.c_str());
    MC_CHECK(prefix.find(name(r.severity)) != std::string::npos, "level",
             "%s: '%s' does not name level %s", stream, prefix.c_str(), name(r.severity));
    if (!r.source.empty()) {
      MC_CHECK(prefix.find(r.source) != std::string::npos, "source", "%s: '%s' does not name %s",
               stream, prefix.c_str(), r.source.c_str());
    }
    at = end;
  }
  MC_CHECK(at == s.size(), "extra", "%s: '%s' belongs to no record of this stream", stream,
           s.substr(at, 200).c_str());
}

// --------------------------------------------------------------- loggers ---

class silent : public log_::api {};

class collector : public log_::api {
public:
  mutable std::vector<record> records;

protected:
  void log(level severity, const char *file, const char *function, int line,
           const char *format, const fmt::format_args &args) const override
  {
    (void) function;
    records.push_back({ severity, fmt::vformat(format, args),
                        std::string(file) + ":" + std::to_string(line) });
  }
};

struct with_logger {
  explicit with_logger(const log_::api *logger)
  {
    bnl::base::logger = const_cast<log_::api *>(logger);
  }
  ~with_logger() { bnl::base::logger = nullptr; }
};

// ------------------------------------------------------- records scenario ---

const std::string LONG(5000, 'l');

void
emit(level l, int message)
{
#define EACH(...)                                                              \
  switch (l) {                                                                 \
    case level::trace:                                                         \
      BNL_LOG_T(__VA_ARGS__);                                                  \
      break;                                                                   \
    case level::debug:                                                         \
      BNL_LOG_D(__VA_ARGS__);                                                  \
      break;                                                                   \
    case level::info:                                                          \
      BNL_LOG_I(__VA_ARGS__);                                                  \
      break;                                                                   \
    case level::warning:                                                       \
      BNL_LOG_W(__VA_ARGS__);                                                  \
      break;                                                                   \
    case level::error:                                                         \
      BNL_LOG_E(__VA_ARGS__);                                                  \
      break;                                                                   \
  }
  switch (message) {
    case 0:
      EACH("plain");
      break;
    case 1:
      EACH("number {} and {}", 42, -7);
      break;
    case 2:
      EACH("{} {}", std::string("braces {} {0}"), "100% %s %n");
      break;
    case 3:
      EACH("");
      break;
    case 4:
      EACH("{}", LONG);
      break;
    case 5:
      EACH("two\nlines {}", 2);
      break;
    case 6:
      EACH("{}", std::string("nul \0 byte", 10));
      break;
    case 7:
      EACH("header {}", h3::header_view("name", "value"));
      break;
    case 8:
      EACH("%s %d %n {{}}");
      break;
  }
}

void
expect(level l, int message, std::vector<record> *records)
{
  static const std::vector<std::string> texts = {
    "plain", "number 42 and -7", "braces {} {0} 100% %s %n", "",
    LONG, "two\nlines 2", std::string("nul \0 byte", 10), "header name: value",
    "%s %d %n {}",
  };
  records->push_back({ l, texts[static_cast<size_t>(message)], "" });
}

void
records()
{
  int most = mc::thorough() ? 4 : 3;
  int messages = mc::thorough() ? 9 : 9;
  bool source = mc::choose(2, "source") != 0;
  int n = mc::choose(most + 1, "records");
  std::vector<std::pair<int, int>> sent;
  for (int i = 0; i < n; i++) {
    int l = mc::choose(5, "level");
    // The last records take every message, the first ones the distinct kinds.
    int m = i >= 2 ? mc::choose(3, "message") * 3 : mc::choose(messages, "message");
    sent.emplace_back(l, m);
  }
  bnl::log::console console(source);
  collector copy;
  std::vector<record> expected;
  std::string out, err;
  {
    capture c;
    with_logger w(&console);
    for (auto &s : sent) {
      emit(static_cast<level>(s.first), s.second);
    }
    c.stop();
    out = c.out();
    err = c.err();
  }
  {
    with_logger w(&copy);
    for (auto &s : sent) {
      emit(static_cast<level>(s.first), s.second);
    }
  }
  mc::step(sent.size());
  for (auto &s : sent) {
    expect(static_cast<level>(s.first), s.second, &expected);
  }
  MC_CHECK(copy.records.size() == expected.size(), "lost", "%zu of %zu records logged",
           copy.records.size(), expected.size());
  for (size_t i = 0; i < expected.size(); i++) {
    MC_CHECK(copy.records[i].severity == expected[i].severity, "macro-level",
             "record %zu is logged as %s instead of %s", i, name(copy.records[i].severity),
             name(expected[i].severity));
    MC_CHECK(copy.records[i].text == expected[i].text, "macro-text",
             "record %zu is '%s' instead of '%s'", i, copy.records[i].text.c_str(),
             expected[i].text.c_str());
    if (source) {
      expected[i].source = copy.records[i].source;
    }
  }
  mc::log("stdout: %s", out.c_str());
  mc::log("stderr: %s", err.c_str());
  check_records(out, expected, false, "stdout");
  check_records(err, expected, true, "stderr");
  mc::outcome(mc::hasher().add(plain(out).size()).add(plain(err).size()));
  mc::state(mc::hasher().add(out.size()).add(err.size()));
}

// Files, lines and formats of every size.
void
sources()
{
  static const std::vector<int> lines = { 0, 1, 99, 255, 256, 9999, 10000, 65535, 65536, 99999, 1000000, 2147483647 };
  static const std::vector<std::string> files = { "f.cpp", "/a/b.c/d e.cpp", "{}%s{0}.hpp", std::string(300, 'd') + "/x",
                                                  std::string(5000, 'f') };
  static const std::vector<size_t> sizes = { 0, 1, 127, 128, 255, 256, 499, 500, 501, 1000, 4095, 4096, 70000 };
  bool source = mc::choose(2, "source") != 0;
  level l = static_cast<level>(mc::choose(5, "level"));
  const std::string &file = mc::pick(files, "file");
  int line = mc::pick(lines, "line");
  size_t n = mc::pick(sizes, "size");
  int where = mc::choose(3, "what is large: the format, an argument, many arguments");
  std::string format, text, argument(where == 1 ? n : 3, 'a');
  if (where == 0) {
    format = std::string(n, 'm') + "{}";
    text = std::string(n, 'm') + argument;
  } else if (where == 1) {
    format = "x{}y";
    text = "x" + argument + "y";
  } else {
    for (size_t i = 0; i < std::min<size_t>(n, 5000); i++) {
      format += "{0}";
      text += argument;
    }
  }
  bnl::log::console console(source);
  std::string out, err;
  {
    capture c;
    static_cast<const log_::api &>(console)(l, file.c_str(), "function", line, format.c_str(), argument);
    c.stop();
    out = c.out();
    err = c.err();
  }
  mc::step();
  if (source) {
    std::string all = plain(out + err), key = file + ":" + std::to_string(line);
    size_t at = all.find(key);
    MC_CHECK(at != std::string::npos && (at + key.size() == all.size() || !isdigit(all[at + key.size()])),
             "line-number", "line %d isn't in '%s'", line, all.substr(0, 200).c_str());
  }
  std::vector<record> expected = { { l, text, source ? file + ":" + std::to_string(line) : "" } };
  check_records(out, expected, false, "stdout");
  check_records(err, expected, true, "stderr");
  mc::state(mc::hasher().add(out.size()).add(err.size()));
  mc::outcome(mc::hasher().add(plain(out).size()).add(plain(err).size()));
}

// ------------------------------------------------------- library scenario ---

struct input {
  const char *label;
  bytes data;
};

bytes
frame_of(uint64_t type, const bytes &payload)
{
  return ref::varint(type) + ref::varint(payload.size()) + payload;
}

const std::vector<input> &
request_inputs()
{
  using ref::field;
  static const std::vector<input> all = {
    { "headers", frame_of(1, bytes(2, '\0') + ref::field_line({ ":method", "GET" })) },
    { "uppercase literal", frame_of(1, bytes(2, '\0') + ref::literal_name({ "UpPer", "v" })) },
    { "uppercase literal with format characters",
      frame_of(1, bytes(2, '\0') + ref::literal_name({ "U{}%n\n", "{0}" })) },
    { "dynamic index", frame_of(1, bytes("\0\0\x80", 3)) },
    { "index outside the table", frame_of(1, bytes(2, '\0') + ref::indexed(120)) },
    { "dynamic name", frame_of(1, bytes("\0\0\x40\x00", 4)) },
    { "name index outside the table", frame_of(1, bytes(2, '\0') + ref::name_reference(99, "v")) },
    { "post-base", frame_of(1, bytes("\0\0\x10\x00", 4)) },
    { "data", frame_of(0, "body") },
    { "empty data", frame_of(0, "") },
    { "settings", frame_of(4, bytes()) },
    { "push promise", frame_of(5, bytes("\x01", 1)) },
    { "goaway", frame_of(7, bytes(1, '\0')) },
    { "priority", frame_of(2, bytes(4, '\0')) },
    { "malformed priority", frame_of(2, bytes(2, '\0')) },
    { "malformed goaway", frame_of(7, bytes(3, '\0')) },
    { "unknown", frame_of(0x21, "xyz") },
    { "partial", bytes("\x01", 1) },
  };
  return all;
}

const std::vector<input> &
control_inputs()
{
  static const std::vector<input> all = {
    { "type", ref::varint(0) },
    { "other type", ref::varint(1) },
    { "settings", frame_of(4, ref::setting(6, 100)) },
    { "unknown", frame_of(0x21, "xyz") },
    { "goaway", frame_of(7, bytes(1, '\0')) },
    { "data", frame_of(0, "x") },
    { "headers", frame_of(1, "x") },
    { "priority", frame_of(2, bytes(4, '\0')) },
    { "cancel push", frame_of(3, bytes(1, '\0')) },
    { "push promise", frame_of(5, bytes(1, '\0')) },
    { "max push id", frame_of(13, bytes(1, '\0')) },
    { "duplicate push", frame_of(14, bytes(1, '\0')) },
    { "malformed settings", frame_of(4, bytes(1, '\x06')) },
  };
  return all;
}

std::string
num(uint64_t v)
{
  return std::to_string(v) + " ";
}

template<class Connection>
std::string
receive(Connection &c, quic::event event)
{
  std::string s;
  auto generator = c.recv(std::move(event));
  if (!generator) {
    return "recv " + num(static_cast<uint64_t>(generator.error()));
  }
  for (int i = 0; i < 64 && generator.value().next(); i++) {
    auto r = generator.value().get();
    if (!r) {
      s += "error " + num(static_cast<uint64_t>(r.error()));
      break;
    }
    h3::event &e = r.value();
    switch (e) {
      case h3::event::type::settings:
        s += "settings " + num(e.settings.max_header_list_size);
        break;
      case h3::event::type::header: {
        auto n = e.header.header.name();
        auto v = e.header.header.value();
        s += "header " + num(e.header.id) + num(e.header.fin) + bytes(n.data(), n.size()) + "=" +
             bytes(v.data(), v.size()) + " ";
        break;
      }
      case h3::event::type::body:
        s += "body " + num(e.body.id) + num(e.body.fin) + str(e.body.buffer) + " ";
        break;
      case h3::event::type::finished:
        s += "finished " + num(e.finished.id);
        break;
    }
  }
  return s;
}

template<class Connection>
std::string
emitted(Connection &c)
{
  std::string s;
  for (int i = 0; i < 64; i++) {
    auto r = c.send();
    if (!r) {
      return s + "end " + num(static_cast<uint64_t>(r.error()));
    }
    s += num(r.value().data.id) + num(r.value().data.fin) + mc::hex(str(r.value().data.buffer), 1000) +
         " ";
  }
  return s;
}

struct step {
  int stream; // 0 request, 1 control, 2 an error event
  const input *in;
  bool fin;
};

std::string
code(uint64_t c)
{
  return num(c);
}

template<class R>
std::string
outcome(const R &r)
{
  return r ? "ok " : "error " + num(static_cast<uint64_t>(r.error()));
}

template<class Handle>
std::string
write(Handle &h)
{
  std::string s;
  s += outcome(h.header({ "NOT-lower", "{}%s" }));
  s += outcome(h.header({ "x-lower", "v" }));
  s += outcome(h.header({ "Not-Lower", "again" }));
  s += outcome(h.start());
  s += outcome(h.start());
  s += outcome(h.body(buf("body")));
  s += outcome(h.fin());
  s += outcome(h.body(buf("late")));
  return s;
}

std::string
run_connection(bool client, const std::vector<step> &steps)
{
  std::string s;
  auto drive = [&](auto &c, uint64_t control) {
    for (const step &t : steps) {
      if (t.stream == 2) {
        s += receive(c, quic::event(quic::application::error{ quic::application::error::rst_stream,
                                                              0, 7 }));
      } else {
        s += receive(c, quic::event(quic::data{ t.stream == 0 ? 0 : control, t.fin,
                                                buf(t.in->data) }));
      }
      s += "| ";
    }
  };
  if (client) {
    h3::client::connection c;
    auto handle = c.request();
    s += write(handle.value());
    s += emitted(c);
    drive(c, 3);
    s += emitted(c);
  } else {
    h3::server::connection c;
    s += emitted(c);
    drive(c, 2);
    auto handle = c.response(0);
    s += outcome(handle);
    if (handle) {
      s += write(handle.value());
    }
    s += emitted(c);
  }
  return s;
}

// Runs the same thing with every logger.
template<class F>
void
same_with_every_logger(F f)
{
  std::string expected = f();
  collector copy;
  for (int l = 0; l < 5; l++) {
    static const char *names[] = { "a silent logger", "a recording logger", "the console logger",
                                   "the console logger without source",
                                   "the console logger on a full device" };
    silent quiet;
    bnl::log::console console;
    bnl::log::console brief(false);
    std::string got, out, err, thrown;
    {
      capture c(l == 4);
      const log_::api *loggers[] = { &quiet, &copy, &console, &brief, &console };
      with_logger w(loggers[l]);
      try {
        got = f();
      } catch (const std::exception &e) {
        thrown = e.what();
      }
      c.stop();
      out = c.out();
      err = c.err();
    }
    mc::step();
    MC_CHECK(thrown.empty(), "thrown", "with %s: throws %s", names[l], thrown.c_str());
    MC_CHECK(got == expected, "different", "with %s: %s\ninstead of: %s", names[l], got.c_str(),
             expected.c_str());
    if (l < 2) {
      MC_CHECK(out.empty() && err.empty(), "printed", "with %s something is printed: %s%s",
               names[l], out.c_str(), err.c_str());
    } else if (l < 4) {
      std::vector<record> records = copy.records;
      if (l == 3) {
        for (record &r : records) {
          r.source.clear();
        }
      }
      check_records(out, records, false, "stdout");
      check_records(err, records, true, "stderr");
    }
  }
  mc::log("%s", expected.c_str());
  mc::log("%zu records", copy.records.size());
  mc::outcome(mc::hasher().add(expected).add(copy.records.size()));
  mc::state(mc::hasher().add(expected));
}

void
connections()
{
  bool client = mc::choose(2, "role") == 0;
  int n = mc::choose(mc::thorough() ? 4 : 3, "segments") + 1;
  std::vector<step> steps;
  for (int i = 0; i < n; i++) {
    size_t total = request_inputs().size() + control_inputs().size();
    int s = mc::choose(static_cast<int>(total) * 2 + 1, "segment");
    step t{ 2, nullptr, false };
    size_t k = static_cast<size_t>(s / 2);
    if (k < request_inputs().size()) {
      t = { 0, &request_inputs()[k], s % 2 != 0 };
    } else if (k < total) {
      t = { 1, &control_inputs()[k - request_inputs().size()], s % 2 != 0 };
    }
    // A third segment only after ones that do not end the stream.
    if (n >= 3 && i < n - 1 && (t.stream == 2 || t.fin)) {
      return;
    }
    steps.push_back(t);
    mc::log("%s: %s%s", t.stream == 0 ? "request" : t.stream == 1 ? "control" : "error event",
            t.in == nullptr ? "" : t.in->label, t.fin ? " (end)" : "");
  }
  same_with_every_logger([&] { return run_connection(client, steps); });
}

// Every short byte string through the decoders that log.
void
decoders()
{
  static const std::vector<uint8_t> alphabet = { 0x00, 0x01, 0x02, 0x04, 0x10, 0x21, 0x22, 0x40, 0x50,
                                                 0x5f, 0x7f, 0x80, 0xc0, 0xff, 'A',  'a' };
  int which = mc::choose(2, "decoder");
  int n = mc::choose((mc::thorough() ? 5 : 4) + 1, "length");
  bytes in;
  for (int i = 0; i < n; i++) {
    in += static_cast<char>(mc::pick(alphabet, "byte"));
  }
  mc::log("%s", hx(in).c_str());
  same_with_every_logger([&] {
    buffers b;
    b.push(buf((which == 0 ? bytes(2, '\0') : bytes()) + in));
    std::string s;
    if (which == 0) {
      h3::qpack::decoder d;
      for (int i = 0; i < 8; i++) {
        auto r = d.decode(b);
        s += outcome(r) + num(d.count()) + num(b.size());
        if (!r) {
          break;
        }
        auto name = r.value().name();
        auto value = r.value().value();
        s += bytes(name.data(), name.size()) + "=" + bytes(value.data(), value.size()) + " ";
      }
    } else {
      for (int i = 0; i < 8; i++) {
        auto r = h3::frame::decode(b);
        s += outcome(r) + num(b.size());
        if (!r) {
          break;
        }
        s += num(static_cast<uint64_t>(static_cast<h3::frame::type>(r.value())));
      }
    }
    return s;
  });
}

// The encoder, which logs refused names.
void
encoders()
{
  static const std::vector<std::pair<bytes, bytes>> fields = {
    { ":method", "GET" }, { "x", "" }, { "Upper", "v" }, { "uppeR", "{}%s" },
    { "", "" }, { "x\n{}", "\x80\xff" }, { "A\n{0}%n", "\n" },
  };
  int n = mc::choose(4, "fields");
  bool in_place = mc::choose(2, "in place") != 0;
  std::vector<std::pair<bytes, bytes>> in;
  for (int i = 0; i < n; i++) {
    in.push_back(mc::pick(fields, "field"));
  }
  same_with_every_logger([&] {
    h3::qpack::encoder e;
    std::string s;
    for (auto &f : in) {
      h3::header_view v(bnl::base::string_view(f.first.data(), f.first.size()),
                        bnl::base::string_view(f.second.data(), f.second.size()));
      if (in_place) {
        uint8_t place[64] = {};
        auto r = e.encode(place, v);
        s += outcome(r) + num(e.count()) +
             mc::hex(bytes(reinterpret_cast<char *>(place), sizeof(place)), 64);
      } else {
        auto r = e.encode(v);
        s += outcome(r) + num(e.count()) + (r ? mc::hex(str(r.value())) : "");
      }
    }
    return s;
  });
}

}

int
main(int argc, char **argv)
{
  bool deep = false;
  for (int i = 1; i + 1 < argc; i++) {
    deep = deep || std::string(argv[i + 1]) == "thorough";
  }
  return mc::run(
    argc, argv,
    { { "records",
        deep ? "up to 4 records: 5 severities x 9 messages (3 after the second), with and without source"
             : "up to 3 records: 5 severities x 9 messages (3 after the second), with and without source",
        records, 3 },
      { "sources", "5 severities x 5 files x 12 lines x 13 sizes of the format, an argument or the number of arguments",
        sources, 3 },
      { "connections",
        deep ? "client and server: up to 4 segments out of 62 (18 request stream pieces, 13 control "
               "stream pieces, each with and without end) and an error event; all but the last "
               "without end when there are more than 2; with each of 6 loggers"
             : "client and server: up to 3 segments out of 62 (18 request stream pieces, 13 control "
               "stream pieces, each with and without end) and an error event; all but the last "
               "without end when there are more than 2; with each of 6 loggers",
        connections, 3 },
      { "decoders",
        deep ? "frame and QPACK decoders: all strings of up to 5 bytes out of 16; each of 6 loggers"
             : "frame and QPACK decoders: all strings of up to 4 bytes out of 16; each of 6 loggers",
        decoders, 3 },
      { "encoders", "QPACK encoder: up to 3 fields out of 7; each of 6 loggers", encoders, 2 } });
}

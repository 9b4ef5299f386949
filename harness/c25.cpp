// C25: the QPACK interop tools reproduce every header list.
#include "util.hpp"

#include <ref/qpack.hpp>

#include <cstdio>
#include <exception>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

// The main functions of the tools.
int qpack_interop_encode_main(int argc, char *argv[]);
int qpack_interop_decode_main(int argc, char *argv[]);

using namespace util;
using ref::field;

namespace {

// Files in memory, which programs open by name.
struct files {
  std::string in, mid, out;
  files()
  {
    static int fds[3] = { -1, -1, -1 };
    std::string *names[3] = { &in, &mid, &out };
    for (int i = 0; i < 3; i++) {
      if (fds[i] == -1) {
        fds[i] = memfd_create("qpack", 0);
      }
      *names[i] = "/proc/self/fd/" + std::to_string(fds[i]);
      if (ftruncate(fds[i], 0) != 0) {
        mc::fail("harness", "cannot empty a file");
      }
    }
  }
};

void
put(const std::string &path, const bytes &content)
{
  int fd = open(path.c_str(), O_TRUNC | O_WRONLY);
  if (fd == -1 || write(fd, content.data(), content.size()) != ssize_t(content.size())) {
    mc::fail("harness", "cannot write %s", path.c_str());
  }
  close(fd);
}

bytes
get(const std::string &path)
{
  bytes content;
  int fd = open(path.c_str(), O_RDONLY);
  if (fd == -1) {
    return content;
  }
  struct stat st;
  fstat(fd, &st);
  content.resize(static_cast<size_t>(st.st_size));
  ssize_t n = read(fd, &content[0], content.size());
  content.resize(n < 0 ? 0 : static_cast<size_t>(n));
  close(fd);
  return content;
}

// Whether the program ended with success.
bool
run(int (*program)(int, char *[]), std::vector<std::string> args)
{
  args.insert(args.begin(), "tool");
  std::vector<char *> argv;
  for (auto &a : args) {
    argv.push_back(&a[0]);
  }
  argv.push_back(nullptr);
  mc::step();
  try {
    return program(static_cast<int>(args.size()), argv.data()) == 0;
  } catch (const std::exception &) {
    return false; // An uncaught exception ends a program, not with success.
  }
}

using lists = std::vector<std::vector<field>>;

// The lists a text stands for, up to the first that is malformed.
bool
parse_text(const bytes &text, lists *result)
{
  std::vector<field> current;
  bool valid = true, list_valid = true;
  size_t at = 0;
  auto finish = [&] {
    if (!current.empty()) {
      if (!list_valid) {
        valid = false;
        return;
      }
      result->push_back(current);
      current.clear();
    }
  };
  while (at < text.size() && valid) {
    size_t end = text.find('\n', at);
    bytes line = text.substr(at, end == bytes::npos ? bytes::npos : end - at);
    at = end == bytes::npos ? text.size() : end + 1;
    if (line.empty()) {
      finish();
    } else if (line[0] != '#') {
      size_t tab = line.find('\t');
      if (tab == bytes::npos) {
        return false;
      }
      field f{ line.substr(0, tab), line.substr(tab + 1) };
      list_valid = list_valid && !ref::has_uppercase(f.first);
      current.push_back(f);
    }
  }
  if (valid) {
    finish();
  }
  return valid;
}

bytes
to_text(const lists &all)
{
  bytes text;
  for (auto &list : all) {
    for (auto &f : list) {
      text += f.first + "\t" + f.second + "\n";
    }
    text += "\n";
  }
  return text;
}

// The lists an interop file stands for, up to the first malformed one.
bool
parse_interop(const bytes &in, lists *result, std::vector<uint64_t> *ids, bool *usual = nullptr)
{
  size_t at = 0;
  while (at < in.size()) {
    if (in.size() - at < 12) {
      return false;
    }
    uint64_t id = 0, size = 0;
    for (int i = 0; i < 8; i++) {
      id = id << 8 | static_cast<uint8_t>(in[at + static_cast<size_t>(i)]);
    }
    for (int i = 8; i < 12; i++) {
      size = size << 8 | static_cast<uint8_t>(in[at + static_cast<size_t>(i)]);
    }
    at += 12;
    if (usual != nullptr && (size <= 2 || in.size() - at < 2 || in[at] != 0 || in[at + 1] != 0)) {
      // No headers, or a prefix that refers to a dynamic table.
      *usual = false;
      return false;
    }
    if (size < 2 || in.size() - at < size) {
      return false;
    }
    bytes block = in.substr(at, size);
    std::vector<field> list;
    size_t p = 2;
    while (p < block.size()) {
      ref::field_read f = ref::read_field(block, p);
      if (f.status != ref::field_read::ok) {
        return false;
      }
      list.push_back(f.value);
      p = f.end;
    }
    result->push_back(list);
    ids->push_back(id);
    at += size;
  }
  return true;
}

// Runs the encoder on a text, and the decoder on what it wrote.
void
round_trip(const bytes &text)
{
  files f;
  put(f.in, text);
  put(f.mid, "previous content"); // Overwritten.
  lists expected;
  bool valid = parse_text(text, &expected);
  bool encoded = run(qpack_interop_encode_main, { f.in, f.mid });
  bytes interop = get(f.mid);
  mc::log("text:\n%s", text.substr(0, 400).c_str());
  mc::log("encoder: %s, %s", encoded ? "success" : "failure", hx(interop).c_str());
  MC_CHECK(encoded == valid, "encoder-exit", "the encoder exits with %s for %s text:\n%s",
           encoded ? "success" : "failure", valid ? "a valid" : "a malformed",
           text.substr(0, 300).c_str());
  lists got;
  std::vector<uint64_t> ids;
  bool parsed = parse_interop(interop, &got, &ids);
  MC_CHECK(parsed, "encoder-format", "the encoder writes %s", hx(interop).c_str());
  if (valid) {
    MC_CHECK(got == expected, "encoder-lists", "the encoder writes %zu lists instead of %zu: %s",
             got.size(), expected.size(), to_text(got).substr(0, 300).c_str());
  } else {
    MC_CHECK(got.size() <= expected.size() &&
               std::equal(got.begin(), got.end(), expected.begin()),
             "encoder-lists", "the encoder writes a wrong list for a malformed text: %s",
             to_text(got).substr(0, 300).c_str());
  }
  for (size_t i = 0; i < ids.size(); i++) {
    MC_CHECK(ids[i] == i + 1, "encoder-numbering", "list %zu is numbered %llu", i + 1,
             static_cast<unsigned long long>(ids[i]));
  }
  mc::outcome(mc::hasher().add(interop).add(encoded));
  mc::state(mc::hasher().add(interop));

  put(f.out, "previous content");
  bool decoded = run(qpack_interop_decode_main, { f.mid, f.out });
  bytes out = get(f.out);
  MC_CHECK(decoded, "decoder-exit", "the decoder fails for what the encoder wrote: %s",
           hx(interop).c_str());
  MC_CHECK(out == to_text(got), "decoder-text", "the decoder writes\n%s\ninstead of\n%s",
           out.substr(0, 300).c_str(), to_text(got).substr(0, 300).c_str());
}

struct line {
  const char *label;
  bytes text;
};

const std::vector<line> &
alphabet()
{
  static const std::vector<line> all = {
    { "blank", "" },
    { "static", ":method\tGET" },
    { "name reference", ":path\t/a/b" },
    { "literal", "x-name\tvalue" },
    { "empty value", "x\t" },
    { "empty name and value", "\t" },
    { "comment", "# comment\twith tab" },
    { "tab, number sign and bytes in value", bytes("b\t#\t\x80\xff\0 ", 9) },
    { "no tab", "no-tab" },
    { "uppercase", "X-Upper\tv" },
    { "uppercase value", "cookie\tVALUE=1" },
    { "long", "x-long\t" + bytes(300, 'l') },
    { "value ends in carriage return", "x\tv\r" },
    { "name with number sign and space", " #\tv" },
    { "space", " " },
    { "carriage return", "\r" },
  };
  return all;
}

void
texts()
{
  int most = mc::thorough() ? 5 : 4;
  int n = mc::choose(most + 1, "lines");
  bytes text;
  for (int i = 0; i < n; i++) {
    const line &l = mc::pick(alphabet(), "line");
    text += l.text;
    text += "\n";
  }
  if (n > 0 && mc::choose(2, "final newline") == 0) {
    text.pop_back();
  }
  round_trip(text);
}

// Longer files, over the lines that decide about the structure.
void
structures()
{
  int most = mc::thorough() ? 10 : 8;
  int n = mc::choose(most + 1, "lines");
  static const std::vector<bytes> lines = { "", "a\tb", "#", ":path\t/" };
  bytes text;
  for (int i = 0; i < n; i++) {
    text += mc::pick(lines, "line") + "\n";
  }
  if (n > 0 && mc::choose(2, "final newline") == 0) {
    text.pop_back();
  }
  round_trip(text);
}

// Many lists, and lists of many and large headers.
void
sizes()
{
  static const std::vector<int> counts = { 1, 2, 255, 256, 257, 300, 4097, 65537 };
  static const std::vector<int> lengths = { 0, 1, 126, 127, 128, 254, 255, 1000, 70000 };
  int kind = mc::choose(3, "kind");
  bytes text;
  if (kind == 0) {
    int lists = mc::pick(counts, "lists");
    for (int i = 0; i < lists; i++) {
      text += "x-" + std::to_string(i) + "\tv" + std::to_string(i * 31L % 99991) + "\n\n";
    }
  } else if (kind == 1) {
    int headers = mc::pick(counts, "headers");
    for (int i = 0; i < headers; i++) {
      text += "x-" + std::to_string(i) + "\tv" + std::to_string(i * 31L % 99991) + "\n";
    }
  } else {
    int name = mc::pick(lengths, "name");
    int value = mc::pick(lengths, "value");
    char c = mc::choose(2, "byte") == 0 ? 'a' : '~';
    text = bytes(static_cast<size_t>(name), c) + "\t" + bytes(static_cast<size_t>(value), c) +
           "\n\na\tb\n";
  }
  round_trip(text);
}

// Whatever the decoder is given, it writes the lists before the first
// malformed one, and no others, and fails when there is one.
void
decode_all(const bytes &in)
{
  files f;
  put(f.mid, in);
  put(f.out, "previous content");
  lists expected;
  std::vector<uint64_t> ids;
  bool usual = true;
  bool valid = parse_interop(in, &expected, &ids, &usual);
  bool decoded = run(qpack_interop_decode_main, { f.mid, f.out });
  bytes out = get(f.out);
  mc::log("%s: decoder %s", hx(in).c_str(), decoded ? "success" : "failure");
  mc::log("%s", out.c_str());
  mc::outcome(mc::hasher().add(out).add(decoded));
  mc::state(mc::hasher().add(out).add(decoded));
  bytes text = to_text(expected);
  if (!usual) {
    // The lists before it are written all the same.
    MC_CHECK(out.compare(0, text.size(), text) == 0, "decoder-text",
             "the decoder writes\n%s\ninstead of\n%s", out.c_str(), text.c_str());
    return;
  }
  MC_CHECK(decoded == valid, "decoder-exit", "the decoder exits with %s for %s file %s",
           decoded ? "success" : "failure", valid ? "a valid" : "a malformed",
           hx(in).c_str());
  if (valid) {
    MC_CHECK(out == text, "decoder-text", "the decoder writes\n%s\ninstead of\n%s", out.c_str(),
             text.c_str());
  } else {
    MC_CHECK(out.size() <= text.size() && text.compare(0, out.size(), out) == 0,
             "decoder-wrong-list", "the decoder writes\n%s\nfor a malformed file with\n%s",
             out.c_str(), text.c_str());
  }
}

bytes
interop(uint64_t id, const bytes &block)
{
  return be(id, 8) + be(block.size(), 4) + block;
}

const std::vector<bytes> &
originals()
{
  static const std::vector<bytes> all = {
    interop(1, ref::header_block({ { ":method", "GET" }, { "x", "value" } })) +
      interop(2, ref::header_block({ { ":path", "/a" } })),
    interop(1, ref::header_block({ { "ab", "\x01\x02" } })) +
      interop(2, ref::header_block({ { "cookie", "" }, { "", "" } })) +
      interop(3, ref::header_block({ { ":status", "200" } })),
    interop(uint64_t(1) << 40, ref::header_block({ { "x", bytes(300, 'v') } })),
  };
  return all;
}

void
changed_bytes()
{
  const bytes &original = mc::pick(originals(), "file");
  size_t most = std::min<size_t>(original.size(), 120);
  size_t at = static_cast<size_t>(mc::choose(static_cast<int>(most), "position"));
  int value = mc::choose(256, "byte");
  bytes in = original;
  in[at] = static_cast<char>(value);
  if (mc::thorough() && original.size() < 120) {
    size_t other = static_cast<size_t>(mc::choose(static_cast<int>(most), "other position"));
    static const std::vector<int> values = { 0, 1, 2, 0x20, 0x51, 0x7f, 0x80, 0xc0, 0xff };
    if (other != at) {
      in[other] = static_cast<char>(mc::pick(values, "other byte"));
    }
  }
  decode_all(in);
}

void
truncated()
{
  const bytes &original = mc::pick(originals(), "file");
  size_t size = static_cast<size_t>(mc::choose(static_cast<int>(original.size()) + 1, "size"));
  int how = mc::choose(4, "then");
  bytes in = original.substr(0, size);
  switch (how) {
    case 1: // Something more.
      in += bytes(1, '\0');
      break;
    case 2: // One byte missing.
      in += original.substr(std::min(size + 1, original.size()));
      break;
    case 3: // One byte too many.
      in += bytes(1, '\xc1') + original.substr(size);
      break;
  }
  decode_all(in);
}

// Every short block between two valid ones.
void
blocks()
{
  static const std::vector<uint8_t> bytes_used = { 0x00, 0x01, 0x10, 0x20, 0x21, 0x28, 0x29, 0x40,
                                                   0x50, 0x51, 0x5f, 0x7f, 0x80, 0xc0, 0xc1, 0xd1,
                                                   0xff, 'a',  'A' };
  int n = mc::choose(mc::thorough() ? 5 : 4, "size") + 1;
  bytes block(2, '\0');
  for (int i = 0; i < n; i++) {
    block += static_cast<char>(mc::pick(bytes_used, "byte"));
  }
  bytes in = interop(1, ref::header_block({ { "a", "b" } })) + interop(2, block) +
             interop(3, ref::header_block({ { "c", "d" } }));
  decode_all(in);
}

// Files that cannot be opened, read or written, and missing arguments.
void
environment()
{
  bool encoder = mc::choose(2, "tool") == 0;
  auto program = encoder ? qpack_interop_encode_main : qpack_interop_decode_main;
  int what = mc::choose(9, "case");
  int size = mc::choose(4, "size");
  bytes text, mid;
  for (int i = 0; i < (size == 0 ? 1 : size == 1 ? 20 : size == 2 ? 800 : 5000); i++) {
    text += "name\tvalue\n\n";
    mid += interop(static_cast<uint64_t>(i) + 1, ref::header_block({ { "name", "value" } }));
  }
  files f;
  put(f.in, encoder ? text : mid);
  mc::log("tool %d case %d", encoder, what);
  switch (what) {
    case 0:
      MC_CHECK(!run(program, {}), "arguments", "success without arguments");
      break;
    case 1:
      MC_CHECK(!run(program, { f.in }), "arguments", "success with one argument");
      break;
    case 2:
      MC_CHECK(!run(program, { f.in + ".missing", f.out }), "missing-input",
               "success without an input file");
      break;
    case 3:
      MC_CHECK(!run(program, { f.in, "missing-directory/file" }), "missing-output",
               "success without an output file");
      break;
    case 4:
      MC_CHECK(!run(program, { f.in, "/dev/full" }), "full-output",
               "success although nothing can be written");
      break;
    case 5: // No lists at all.
      put(f.in, "");
      MC_CHECK(run(program, { f.in, f.out }), "empty", "failure for an empty file");
      MC_CHECK(get(f.out).empty(), "empty", "something is written for an empty file");
      break;
    case 6:
      MC_CHECK(run(program, { f.in, f.out }), "success", "failure for a valid file");
      MC_CHECK(get(f.out) == (encoder ? mid : text), "content", "other content is written");
      break;
    case 8: // An input that can be opened, but not read.
      MC_CHECK(!run(program, { ".", f.out }), "unreadable-input", "success although the input is a directory");
      break;
    case 7: // Further arguments are ignored.
      MC_CHECK(run(program, { f.in, f.out, "more" }), "success", "failure for a valid file");
      break;
  }
  mc::outcome(mc::hasher().add(encoder).add(uint64_t(what)).add(uint64_t(size)));
}

}

int
main(int argc, char **argv)
{
  return mc::run(
    argc, argv,
    { { "texts", "all files of up to 4 (thorough: 5) lines out of 14, with and without final newline",
        texts, 3 },
      { "structures",
        "all files of up to 8 (thorough: 10) lines out of blank, comment and two headers, with and "
        "without final newline",
        structures, 3 },
      { "sizes", "1 to 65537 lists, lists of 1 to 65537 headers, names and values of 0 to 70000 bytes",
        sizes, 3 },
      { "changed bytes",
        "3 interop files with each byte (thorough: and a second one) changed to each value",
        changed_bytes, 2 },
      { "truncated", "3 interop files cut, continued, with a byte removed or inserted at every place",
        truncated, 2 },
      { "blocks", "all blocks of up to 4 (thorough: 5) bytes out of 19 between two valid blocks",
        blocks, 3 },
      { "environment", "missing arguments, missing and unreadable input, missing output files, full device, 4 sizes",
        environment, 2 } });
}

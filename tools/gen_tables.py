#!/usr/bin/env python3
"""Generates ref/huffman_table.hpp and ref/static_table.hpp from Go's HPACK and
QPACK tables, which are independent of bnl."""
import re
import os
G = "/opt/veriftools/go1.27.3/src/vendor/golang.org/x/net/"
here = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
t = open(G + "http2/hpack/tables.go").read()
codes = re.search(r"huffmanCodes = \[256\]uint32\{(.*?)\}", t, re.S).group(1)
lens = re.search(r"huffmanCodeLen = \[256\]uint8\{(.*?)\}", t, re.S).group(1)
codes = [int(x, 16) for x in re.findall(r"0x[0-9a-f]+", codes)]
lens = [int(x) for x in re.findall(r"\d+", lens)]
assert len(codes) == 256 and len(lens) == 256
with open(here + "/ref/huffman_table.hpp", "w") as f:
    f.write("// Generated by tools/gen_tables.py from Go's x/net/http2/hpack (RFC 7541, appendix B).\n"
            "#pragma once\n#include <cstdint>\nnamespace ref {\n"
            "struct huffman_code { uint32_t code; int bits; };\n"
            "static const huffman_code HUFFMAN[257] = {\n")
    for c, l in zip(codes, lens):
        f.write("  { 0x%xu, %d },\n" % (c, l))
    f.write("  { 0x3fffffffu, 30 }, // End of string.\n};\n}\n")
q = open(G + "internal/http3/qpack_static.go").read()
entries = re.findall(r'\{\s*"((?:[^"\\]|\\.)*)",\s*"((?:[^"\\]|\\.)*)"\s*\}', q)
if not entries:
    entries = re.findall(r'name:\s*"((?:[^"\\]|\\.)*)",\s*value:\s*"((?:[^"\\]|\\.)*)"', q)
assert len(entries) == 99, len(entries)
with open(here + "/ref/static_table.hpp", "w") as f:
    f.write("// Generated by tools/gen_tables.py from Go's x/net/internal/http3 (RFC 9204, appendix A).\n"
            "#pragma once\nnamespace ref {\n"
            "struct static_entry { const char *name, *value; };\n"
            "static const static_entry STATIC_TABLE[99] = {\n")
    for n, v in entries:
        f.write('  { "%s", "%s" },\n' % (n, v))
    f.write("};\n}\n")

#!/usr/bin/env python3
"""new_seeded.py ID PROPERTY NEEDS BREAKS: makes seeded/ID out of the changes in
the scratch tree $TREE (a copy of /repo) and of demo.cpp (or demo.sh) on stdin."""
import json, os, subprocess, sys
id, prop, needs, breaks = sys.argv[1:5]
tree = os.environ["TREE"]
here = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
d = os.path.join(here, "seeded", id)
os.makedirs(d, exist_ok=True)
patch = subprocess.check_output(["git", "-C", tree, "diff"])
assert patch, "no change"
open(d + "/patch.diff", "wb").write(patch)
text = sys.stdin.read()
if text.startswith("#!"):
    open(d + "/demo.sh", "w").write(text)
else:
    open(d + "/demo.cpp", "w").write(text)
    open(d + "/demo.sh", "w").write(r'''#!/bin/bash
# Compiles demo.cpp with the sources in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
flags="-std=c++17 -O0 -include /opt/vp/deps/compat/compat.hpp -DXXH_INLINE_ALL -w"
for lib in base http3 log quic; do
  flags="$flags -Ibnl/$lib/include -Ibnl/$lib/src -I_build/bnl/$lib/include"
done
flags="$flags -I/opt/vp/deps/outcome -I/opt/vp/deps/xxhash"
sources=$(ls bnl/base/src/*.cpp bnl/base/src/*/*.cpp bnl/base/src/*/*/*.cpp \
  bnl/http3/src/*/*.cpp bnl/http3/src/*/*/*.cpp bnl/http3/src/*/*/*/*.cpp \
  bnl/log/src/*.cpp | grep -v generated)
i=0
for source in $sources; do
  i=$((i + 1))
  g++ $flags -c "$source" -o "$out/$i.o" &
done
g++ $flags -c "$here/demo.cpp" -o "$out/demo.o" &
wait
g++ "$out"/*.o -o "$out/demo" -lfmt -ldl -lpthread && timeout 60 "$out/demo"
result=$?
rm -rf "$out"
exit $result
''')
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
          open(d + "/meta.json", "w"), indent=1)

#!/bin/sh
# Builds one harness to try it by hand: tools/build.sh ID OUT
cd "$(dirname "$0")/.." && python3 - "$1" "$2" <<'P'
import sys, importlib.machinery, importlib.util
l = importlib.machinery.SourceFileLoader("check", "check")
s = importlib.util.spec_from_loader("check", l)
m = importlib.util.module_from_spec(s); l.exec_module(m)
m.build(sys.argv[1], sys.argv[2])
P

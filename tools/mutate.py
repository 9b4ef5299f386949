#!/usr/bin/env python3
"""Mutation runs: how well the checks tell changed code from the code.

  tools/mutate.py OUT [-j N] [-w N] [--match REGEX] [--every K] [--recheck FILE]

Makes small changes to one source file of the repository at a time (relations,
arithmetic, constants, conditions, deleted statements, exchanged error codes),
compiles that file alone, links it with the unchanged rest and runs the checks of
that file until one of them reports a violation. OUT gets one line per change. Not
a check: it is a way to look for gaps. The changed files are temporary copies.
"""
import argparse, concurrent.futures, importlib.machinery, importlib.util, json, os, re
import shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
_l = importlib.machinery.SourceFileLoader("check", HERE + "/check")
_s = importlib.util.spec_from_loader("check", _l)
check = importlib.util.module_from_spec(_s)
_l.exec_module(check)

# Which checks to try for a file, first match.
CHECKS = [
    ("codec/varint", "C10"), ("codec/frame/encode", "C11 C03"), ("codec/frame/decode", "C12 C17"),
    ("codec/body", "C19 C09 C17 C02"), ("codec/headers", "C18 C17 C02 C09"), ("qpack/prefix_int", "C13"),
    ("qpack/huffman", "C14"), ("qpack/literal", "C15 C17"), ("qpack/static", "C16"), ("codec/qpack", "C16 C17 C18"),
    ("qpack-interop", "C25"), ("codec/", "C24 C11 C12"),
    ("server/", "C01 C04 C06 C03 C05 C09 C07 C23"), ("http3/src/client/", "C01 C04 C06 C03 C05 C09 C07"),
    ("stream/request", "C01 C04 C09 C07 C06 C03"), ("stream/control", "C05 C03 C06 C02 C08"),
    ("http3/src/endpoint", "C01 C06 C08"),
    ("base/buffers", "C21 C17 C02"), ("base/buffer", "C20 C21 C17"), ("base/log", "C23"), ("log/", "C23"),
    ("error", "C22 C24"), ("result", "C29 C22 C24"),
    ("base/", "C24 C23"),
    ("quic/src/crypto", "C28 C27"), ("quic/src/client/stream", "C26 C27"), ("quic/src/", "C27 C26"),
    ("app/endpoint/os", "C29 C30"), ("app/endpoint/sd", "C29 C30"), ("app/endpoint", "C30"),
]

RULES = [
    ("relation", r" (<=|>=|==|!=|<|>) ", {"<=": "<", ">=": ">", "==": "!=", "!=": "==", "<": "<=", ">": ">="}),
    ("logic", r" (&&|\|\|) ", {"&&": "||", "||": "&&"}),
    ("arithmetic", r" (\+|-|\*|/|%) ", {"+": "-", "-": "+", "*": "+", "/": "*", "%": "/"}),
    ("assignment", r" (\+=|-=|\|=|&=|<<=|>>=) ", {"+=": "-=", "-=": "+=", "|=": "&=", "&=": "|=", "<<=": ">>=", ">>=": "<<="}),
    ("bits", r" (<<|>>|\||&|\^) ", {"<<": ">>", ">>": "<<", "|": "&", "&": "|", "^": "|"}),
    ("boolean", r"\b(true|false)\b", {"true": "false", "false": "true"}),
    ("negation", r"(?<=[( ])(!)(?=[a-z(])", {"!": ""}),
]
ERRORS = re.compile(r"\berror::([a-z_]+)\b")


def mutants(path):
    text = open(path).read()
    lines = text.split("\n")
    found = []
    in_comment = False
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith("//") or s.startswith("#") or s.startswith("namespace") or s.startswith("using "):
            continue
        if s.startswith("assert") or "BNL_LOG" in s or "static_assert" in s or s.startswith("template"):
            continue
        code = l.split("//")[0]

        def put(kind, a, b, new):
            found.append((n, kind, l[:a] + new + l[b:]))

        for kind, pat, table in RULES:
            for m in re.finditer(pat, code):
                put(kind, m.start(1), m.end(1), table[m.group(1)])
        for m in re.finditer(r"(?<![\w.\"'x])(\d+)(U|UL|ULL)?\b(?![\w.\"'])", code):
            v = int(m.group(1))
            put("constant", m.start(1), m.end(1), str(v + 1))
            if v > 0:
                put("constant", m.start(1), m.end(1), str(v - 1))
        for m in re.finditer(r"(0x[0-9a-fA-F]+)", code):
            put("constant", m.start(1), m.end(1), hex(int(m.group(1), 16) ^ 1))
        m = re.match(r"(\s*)(?:\} else )?if \((.*)\) \{$", code.rstrip())
        if m:
            put("condition", m.start(2), m.end(2), "false && (" + m.group(2) + ")")
            put("condition", m.start(2), m.end(2), "true || (" + m.group(2) + ")")
        m = re.match(r"\s*while \((.*)\) \{$", code.rstrip())
        if m:
            put("condition", m.start(1), m.end(1), "false && (" + m.group(1) + ")")
        if code.rstrip().endswith(";") and not s.startswith("return") and not s.startswith("}") and s != "break;":
            begin = n == 0 or lines[n - 1].rstrip().endswith((";", "{", "}", ":")) or lines[n - 1].strip() == ""
            if begin and not re.match(r"^(const |static |constexpr |extern |class |struct )", s):
                found.append((n, "deleted", "  ;"))
        if s == "break;":
            found.append((n, "fallthrough", "  ;"))
        if s.startswith("return"):
            for m in ERRORS.finditer(code):
                other = "incomplete" if m.group(1) == "internal" else "internal"
                put("error", m.start(1), m.end(1), other)
                if m.group(1) not in ("malformed_frame", "internal"):
                    put("error", m.start(1), m.end(1), "malformed_frame")
    out = []
    for n, kind, new in found:
        if new != lines[n]:
            out.append((n + 1, kind, lines[n], new, "\n".join(lines[:n] + [new] + lines[n + 1:])))
    return out


def main():
    p = argparse.ArgumentParser()
    p.add_argument("out")
    p.add_argument("-j", type=int, default=4)
    p.add_argument("-w", type=int, default=2)
    p.add_argument("--budget", type=int, default=90)
    p.add_argument("--match", default="")
    p.add_argument("--every", type=int, default=1)
    p.add_argument("--recheck", help="only the changes that this earlier output says survived")
    a = p.parse_args()

    libs = set()
    for c in check.HARNESSES:
        libs |= {j[0] for j in check.jobs_for(c)[0] if j[2] == "repo"}
    again = None
    if a.recheck:
        again = {tuple(json.loads(l)["key"]) for l in open(a.recheck) if json.loads(l)["result"] == "survived"}
    done = set()
    if os.path.exists(a.out):
        done = {tuple(json.loads(l)["key"]) for l in open(a.out)}
    work = []
    for f in sorted(libs):
        rel = os.path.relpath(f, check.REPO)
        if not re.search(a.match, rel):
            continue
        cs = next((c for k, c in CHECKS if k in rel), None)
        if cs is None:
            print("no checks for", rel)
            continue
        for m in mutants(f):
            key = (rel, m[0], m[1], m[3].strip())
            if key in done or (again is not None and key not in again):
                continue
            work.append((f, rel, cs.split(), m, key))
    work = work[::a.every]
    print(len(work), "changes", flush=True)
    needed = sorted({c for w in work for c in w[2]})
    objects = {}
    for c in needed:
        jobs, sanitize, link = check.jobs_for(c)
        with concurrent.futures.ThreadPoolExecutor(8) as pool:
            objects[c] = (jobs, list(pool.map(check.compile_one, jobs)), sanitize, link)
        print("built", c, flush=True)
    env = check.environment()

    def one(item):
        f, rel, cs, m, key = item
        scratch = tempfile.mkdtemp(prefix="bnl-mutant-")
        try:
            src = os.path.join(scratch, os.path.basename(f))
            open(src, "w").write(m[4])
            made = {}
            for c in cs:
                jobs, objs, sanitize, link = objects[c]
                at = [i for i, j in enumerate(jobs) if j[0] == f]
                if not at:
                    continue
                flags = jobs[at[0]][1]
                fk = " ".join(flags)
                if fk not in made:
                    o = os.path.join(scratch, "m%d.o" % len(made))
                    r = subprocess.run([check.CXX] + flags + ["-iquote", os.path.dirname(f)] + check.includes() +
                                       ["-c", src, "-o", o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                    if r.returncode != 0:
                        return "invalid", ""
                    made[fk] = o
                use = list(objs)
                use[at[0]] = made[fk]
                exe = os.path.join(scratch, "h-" + c)
                r = subprocess.run([check.CXX] + sanitize + ["-o", exe] + use + link + check.LINK,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode != 0:
                    return "invalid", ""
                report = os.path.join(scratch, "report.json")
                try:
                    r = subprocess.run(["timeout", "-k", "5", str(a.budget + 60), exe, "--tier", "quick", "--scratch", scratch,
                                        "--out", report, "--workers", str(a.w), "--budget", str(a.budget)],
                                       env=env, cwd=scratch, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                except OSError:
                    return "error", c
                try:
                    v = [s["violation"] for s in json.load(open(report))["scenarios"] if "violation" in s]
                except (OSError, ValueError):
                    v = []
                os.unlink(exe)
                if v:
                    return "caught", "%s [%s]" % (c, v[0]["key"])
                if r.returncode not in (0, 1):
                    return "caught", "%s (exit %d)" % (c, r.returncode)
            return "survived", " ".join(cs)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)

    count = {}
    with open(a.out, "a") as out, concurrent.futures.ThreadPoolExecutor(a.j) as pool:
        futures = {pool.submit(one, w): w for w in work}
        for fut in concurrent.futures.as_completed(futures):
            w = futures[fut]
            result, how = fut.result()
            count[result] = count.get(result, 0) + 1
            out.write(json.dumps({"result": result, "how": how, "key": w[4], "was": w[3][2].strip()}) + "\n")
            out.flush()
    print(count)


if __name__ == "__main__":
    main()

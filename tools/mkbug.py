#!/usr/bin/env python3
"""mkbug.py SPEC.py : plants a bug described by a small python file defining
ID, PROPERTY, NEEDS, WHAT, EDITS=[(file, old, new)], DEMO (C++ main; exit 0 = fine, 1 = broken).
Verifies it (original lines only, builds, stable tests pass, demo 0 / nonzero) and writes /verif/seeded/ID."""
import json, os, subprocess, sys
R = "/repo"
ns = {}
exec(open(sys.argv[1]).read(), ns)
ID = ns["ID"]
D = "/verif/seeded/" + ID
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert sh("git -C /repo status --porcelain").stdout == "", "repo not clean"
base = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
os.makedirs(D, exist_ok=True)
open(D + "/demo.cpp", "w").write(ns["DEMO"])
open(D + "/demo.sh", "w").write('''#!/bin/bash
# exit 0: the guarantee holds; 1: it is broken.  Run in /repo after its build.
set -e
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap '/bin/rm -rf "$t"' EXIT
b=$PWD/_build/source
g++ -std=c++17 -O1 -w -include cstdint -I/opt/vp/deps/rapidjson-shim -I"$PWD/source" -DJSON_SCHEMA_PATH='"none"' "$here/demo.cpp" %s \\
  "$b/IOHaptics/libiohaptics.a" "$b/WaveletDecoder/libwaveletdecoder.a" "$b/Spiht/libspiht.a" "$b/FilterBank/libfilterbank.a" \\
  "$b/Tools/libtools.a" "$b/Types/libtypes.a" "$b/Tools/libtools.a" "$b/WaveletDecoder/libwaveletdecoder.a" -lpugixml -o "$t/demo"
cd "$t" && timeout 60 ./demo
''' % " ".join('"$PWD/source/%s"' % x for x in ns.get("SRCS", [])))
os.chmod(D + "/demo.sh", 0o755)
json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["WHAT"]}, open(D + "/meta.json", "w"), indent=1)
ok = True
try:
    r = sh("bash /opt/vp/build.sh >/dev/null 2>&1; cd /repo && %s/demo.sh" % D)
    print("demo clean:", r.returncode, (r.stdout + r.stderr)[-300:])
    ok &= r.returncode == 0
    for f, o, n in ns["EDITS"]:
        p = R + "/source/" + f
        s = open(p).read()
        assert s.count(o) == 1, (f, o, s.count(o))
        open(p, "w").write(s.replace(o, n))
    d = sh("git -C /repo diff").stdout
    open(D + "/patch.diff", "w").write(d)
    bd = sh("git -C /repo diff --unified=0 | grep '^-[^-]' | cut -c2-").stdout.splitlines()
    orig = set()
    for f, o, n in ns["EDITS"]:
        orig |= set(sh("git -C /repo show %s:source/%s" % (base, f)).stdout.splitlines())
    for l in bd:
        if l not in orig:
            print("NOT ORIGINAL:", l)
    r = sh("bash /opt/vp/build.sh > /tmp/bb.log 2>&1; echo $?; bash /opt/vp/test.sh /tmp/bt.json >/dev/null 2>&1")
    t = json.load(open("/tmp/bt.json"))
    b = json.load(open("/opt/vp/BASELINE.json"))
    names = b if isinstance(b, list) else b.get("passed", b.get("stable", []))
    print("build", r.stdout.strip(), "tests passed", len(t["passed"]), "missing", sorted(set(names) - set(t["passed"]))[:5])
    ok &= len(t["passed"]) >= 247
    r = sh("cd /repo && %s/demo.sh" % D)
    print("demo patched:", r.returncode, (r.stdout + r.stderr)[-300:])
    ok &= r.returncode != 0
    if len(sys.argv) > 2 or True:
        r = sh("cd /verif && ./check.sh %s quick" % ns["PROPERTY"])
        print("check:", r.returncode, r.stdout[:400])
finally:
    sh("git -C /repo checkout -- .; bash /opt/vp/build.sh >/dev/null 2>&1")
print("OK" if ok else "REJECTED", ID)

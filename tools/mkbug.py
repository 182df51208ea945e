#!/usr/bin/env python3
# tools/mkbug.py ID <<< spec: python source defining prop, needs, breaks, edits=[(file, old, new)], demo (C++ source), flags; writes seeded/ID
import sys, os, json, subprocess
ident = sys.argv[1]; ns = {}
exec(sys.stdin.read(), ns)
W = "/tmp/bw/repo"
subprocess.run(["git", "-C", W, "fetch", "-q", "/repo", "HEAD"], check=True)
subprocess.run(["git", "-C", W, "reset", "-q", "--hard", "FETCH_HEAD"], check=True)
for f, old, new in ns["edits"]:
    p = f"{W}/{f}"; s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
d = f"/verif/seeded/{ident}"; os.makedirs(d, exist_ok=True)
open(f"{d}/patch.diff", "w").write(subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True).stdout)
subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."])
json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
for name, text in ns.get("files", {}).items(): open(f"{d}/{name}", "w").write(text)
if "demo" in ns: open(f"{d}/demo.cc", "w").write(ns["demo"])
sh = ns.get("sh") or '''#!/bin/bash
# run in the repository after the build
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
%s "$here/demo.cc" -o "$t/demo" %s || exit 2
cd "$t" && timeout 250 ./demo
''' % (ns.get("cc", "g++ -std=c++17 -O1 -g") + " " + ns["flags"], ns.get("libs", "-lpthread"))
open(f"{d}/demo.sh", "w").write(sh); os.chmod(f"{d}/demo.sh", 0o755)

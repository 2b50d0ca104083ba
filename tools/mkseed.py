#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE  (stdin: JSON {edits:[[old,new],...], needs, what, demo}) -> seeded/ID.
Applies the edits to a scratch copy of /repo, writes patch.diff, then runs the demo on both trees."""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif"
sid, prop = sys.argv[1:3]
d = json.load(sys.stdin)
out = os.path.join(V, "seeded", sid)
os.makedirs(out, exist_ok=True)
tmp = tempfile.mkdtemp(prefix="seed")
try:
    subprocess.run(["git", "clone", "-q", "/repo", tmp + "/r"], check=True)
    for f, old, new in d["edits"]:
        p = os.path.join(tmp, "r", f)
        s = open(p).read()
        assert s.count(old) == 1, (s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", tmp + "/r", "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
    open(out + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": d["needs"], "what_it_breaks": d["what"]}, open(out + "/meta.json", "w"), indent=1)
    open(out + "/demo.cpp", "w").write(d["demo"])
    open(out + "/demo.sh", "w").write("""#!/bin/bash
# Exit 0 if the behaviour is right, nonzero otherwise. Run with the repository as working directory.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
work="$(mktemp -d)"
trap 'rm -rf "${work:?}"' EXIT
g++ -std=c++17 -g -O0 %s -Iinclude "$here/demo.cpp" -o "$work/demo" || exit 9
timeout 120 "$work/demo"
""" % d.get("flags", "-fsanitize=address"))
    os.chmod(out + "/demo.sh", 0o755)
    a = subprocess.run(["bash", out + "/demo.sh"], cwd=os.environ.get("CLEAN", "/repo"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
    b = subprocess.run(["bash", out + "/demo.sh"], cwd=tmp + "/r", stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
    print("%s clean=%d patched=%d %s" % (sid, a, b, "" if a == 0 and b not in (0, 9) else "<<<<< BAD"))
finally:
    shutil.rmtree(tmp)

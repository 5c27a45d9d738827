"""Helper to write /verif/seeded/<id>: mk(id, property, needs, breaks, edits, demo)
where edits = [(file, old, new)] applied to /repo's committed tree."""
import json, os, subprocess, shutil, tempfile
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
SH = """#!/bin/bash
# Compiles the demonstration against the built library and runs it.
set -u
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=gnu++17 -O1 -w -include stdexcept -include string -I/repo -I/repo/_build/sdk/include -I/usr/include/eigen3 "$D/demo.cpp" \\
  -L/repo/_build/sdk/lib -lalmath -Wl,-rpath,/repo/_build/sdk/lib -lboost_filesystem -lboost_system -o "$T/demo" || exit 2
cd "$T" && timeout 120 ./demo
"""
def mk(id, prop, needs, breaks, edits, demo):
    d = os.path.join(HERE, id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed", dir="/tmp")
    subprocess.check_call("git -C /repo archive HEAD | tar x -C %s" % w, shell=True)
    subprocess.check_call("git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x", shell=True, cwd=w)
    for f, old, new in edits:
        p = os.path.join(w, f)
        s = open(p, encoding="utf8").read()
        n = s.count(old)
        if n != 1:
            raise SystemExit("%s: %d matches in %s of %r" % (id, n, f, old))
        open(p, "w", encoding="utf8").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "diff"], cwd=w)
    shutil.rmtree(w)
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.cpp"), "w").write(demo.lstrip())
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(os.path.join(d, "meta.json"), "w"), indent=1)

#!/usr/bin/env python3
"""Generates /verif/seeded/<id>/ from the definitions in seeds/*.py-like modules given as arguments (see tools/seeds1.py)."""
import json, os, subprocess, sys, importlib.util
R = "/tmp/seedrepo"; S = "/verif/seeded"
DEMO = '''#!/bin/bash
# run with cwd = the repository, after its build
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w -DBOOST_LOG_DYN_LINK=1 -Iinclude -Iexamples -I/usr/include/eigen3 "$here/demo.cc" src/*.cc -o "$t/demo" -lboost_log -lboost_system -lpthread || exit 3
cd "$t" && timeout 200 ./demo >out 2>&1; rc=$?
tail -5 out
exit $rc
'''
def run(mod, only):
    spec = importlib.util.spec_from_file_location("seeds", mod); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    for s in m.SEEDS:
        if only and s["id"] not in only: continue
        subprocess.run("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (R, R), shell=True, check=True)
        for f, old, new in s["edits"]:
            p = os.path.join(R, f); t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old))
            open(p, "w").write(t.replace(old, new))
        d = os.path.join(S, s["id"]); os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout)
        subprocess.run(["git", "-C", R, "reset", "-q", "--hard"])
        open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.cc", "w").write(s["demo"])
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        print(s["id"])
run(sys.argv[1], sys.argv[2:])

#!/usr/bin/env python3
"""mkseed.py FILE.py [id..]: build /verif/seeded/<id> from seed descriptions (SEEDS list) and confirm each:
patch applies, only original lines removed/changed, builds, stable tests pass, demo 0 unpatched / nonzero patched.
A development tool; no check uses it."""
import json, os, runpy, shutil, subprocess, sys, tempfile
V, R = "/verif", "/repo"
SH = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
g++ -std=c++17 -O1 -g %s -I. "$d/demo.cpp" -o "$w/demo" -pthread || exit 3
ASAN_OPTIONS=detect_leaks=0 timeout 100 "$w/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
seeds = runpy.run_path(sys.argv[1])["SEEDS"]
only = sys.argv[2:]
for s in seeds:
    if only and s["id"] not in only: continue
    d = "%s/seeded/%s" % (V, s["id"])
    assert sh("git -C /repo status --porcelain --untracked-files=no").stdout.strip() == "", "repo dirty"
    ok = True
    try:
        for f, old, new, nth in s["edits"]:
            p = "%s/gmlc/containers/%s" % (R, f)
            t = open(p).read(); parts = t.split(old)
            if len(parts) <= nth + 1:
                print(s["id"], "edit NOT FOUND", repr(old)[:60], len(parts)); ok = False; break
            open(p, "w").write(old.join(parts[:nth+1]) + new + old.join(parts[nth+1:]))
        if not ok: continue
        patch = sh("git -C /repo diff").stdout
        # removed lines must be lines of the original repository
        blame = {}
        bad = []
        sh("git -C /repo stash -q")
        try:
            cur = None
            for l in patch.splitlines():
                if l.startswith("--- a/"): cur = l[6:]
                elif l.startswith("@@"):
                    ln = int(l.split()[1][1:].split(",")[0])
                elif l.startswith("-"):
                    b = sh("git -C /repo blame -s -L %d,%d HEAD -- %s" % (ln, ln, cur)).stdout
                    if not b.startswith("^") and sh("git -C /repo merge-base --is-ancestor %s f38284e" % b.split()[0].lstrip("^")).returncode: bad.append(b.strip())
                    ln += 1
                elif l.startswith(" "): ln += 1
        finally:
            sh("git -C /repo stash pop -q")
        if bad: print(s["id"], "touches my own lines:", bad)
        if os.path.isdir(d): shutil.rmtree(d)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(patch)
        open(d + "/demo.cpp", "w").write(s["demo"])
        open(d + "/demo.sh", "w").write(SH % s.get("flags", "")); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        tmp = tempfile.mkdtemp(); sh("cp %s/demo.* %s/" % (d, tmp))
        r1 = sh("%s/demo.sh" % tmp, cwd=R)
        o = tmp + "/o.json"; sh("bash /opt/vp/test.sh %s" % o)
        P = set(json.load(open(o))["passed"]); miss = [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in P]
        sh("git -C /repo checkout -- .")
        r0 = sh("%s/demo.sh" % tmp, cwd=R)
        shutil.rmtree(tmp)
        print(s["id"], "demo patched", r1.returncode, "clean", r0.returncode, "missing tests", miss[:4], (r1.stdout + r1.stderr).strip()[-160:])
        if r1.returncode == 3 or r0.returncode: print((r0.stdout + r0.stderr)[-800:])
    finally:
        sh("git -C /repo checkout -- .")
sh("bash /opt/vp/build.sh")

#!/usr/bin/env python3
"""seedcheck.py [ID..]: run each seeded bug's property check on a patched copy (development tool; vcheck is what counts)."""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ids = [a for a in sys.argv[1:] if not a.startswith("C")] or sorted(os.listdir("/verif/seeded"))
force = [a for a in sys.argv[1:] if a.startswith("C")]
def one(i):
    d = "/tmp/m/seed_%s_%d" % (i, os.getpid()); shutil.copytree("/repo/gmlc", d + "/gmlc")
    subprocess.run(["patch", "-s", "-p1", "-d", d, "-i", "/verif/seeded/%s/patch.diff" % i], check=True)
    out = []
    for p in force or [json.load(open("/verif/seeded/%s/meta.json" % i))["property"]]:
        r = subprocess.run(["timeout", "800", "/verif/bin/check.py", p], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
        out.append("%s %s rc=%d %s" % (i, p, r.returncode, (r.stdout.strip().splitlines() or [r.stderr[-300:]])[-1][:150]))
    shutil.rmtree(d)
    return "\n".join(out)
with ThreadPoolExecutor(2) as ex:
    for o in ex.map(one, ids): print(o, flush=True)

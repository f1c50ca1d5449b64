"""Shared machinery of the checks: building harnesses from /repo's working tree, running TLC,
turning TLC's answers into verdicts, evidence files."""
import glob
import hashlib
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class CheckError(Exception):
    """the check itself could not run (exit code 2)"""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "build", "%s.%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(self.replays, exist_ok=True)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.detail = {}
        self.violations = []
        self.assumptions = []

    def log(self, *a):
        print("[%s %.1fs]" % (self.prop, time.time() - self.t0), *a, file=sys.stderr, flush=True)

    def path(self, *p):
        return os.path.join(self.work, *p)

    def done(self):
        shutil.rmtree(self.work, ignore_errors=True)


def build(ctx, src, out, defs=(), flags=("-O0",), std="c++17", access=False):
    exe = ctx.path(out)
    cmd = ["g++", "-std=" + std, "-g1", "-w", "-I" + REPO, "-I" + HARN] + list(flags) + \
          ["-D" + d for d in defs] + [os.path.join(HARN, src), "-o", exe, "-lpthread"]
    if access:
        # instrumentation of every plain access without the ThreadSanitizer run-time (harness/access.cpp)
        cmd = cmd[:-4] + ["-DACCESS", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0", "-c",
                          os.path.join(HARN, src), "-o", exe + ".o"]
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=600)
    if p.returncode == 0 and access:
        p = subprocess.run(["g++", "-O1", "-w", os.path.join(HARN, "access.cpp"), exe + ".o", "-o", exe, "-lpthread"],
                           capture_output=True, text=True, timeout=600)
    if p.returncode != 0:
        raise CheckError("build of %s failed:\n%s" % (src, p.stderr[-4000:]))
    return exe


def pmap(fn, items, n=NCPU):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))


def run(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=cwd, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        raise CheckError("timeout: " + " ".join(map(str, cmd))[:300])


_tlc_n = itertools.count(1)


def tlc(ctx, module, cfg, env=None, workers=NCPU, timeout=800, extra=(), heap="6g"):
    """run TLC on spec/<module>.tla with configuration text cfg"""
    tag = "%s_%d" % (module, next(_tlc_n))
    cfgp = ctx.path(tag + ".cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    md = ctx.path("md_" + tag)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-DTLA-Library=" + SPEC, "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", cfgp] + list(extra) + \
          [os.path.join(SPEC, module + ".tla")]
    rc, so, se = run(cmd, timeout, env=env, cwd=ctx.work)
    shutil.rmtree(md, ignore_errors=True)
    res = {"rc": rc, "out": so, "err": se}
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", so)
    res["generated"] = int(m[-1][0].replace(",", "")) if m else 0
    res["distinct"] = int(m[-1][1].replace(",", "")) if m else 0
    res["ok"] = rc == 0 and "No error has been found" in so
    res["violated"] = re.findall(r"Invariant (\w+) is violated", so) + \
        (["temporal"] if "Temporal properties were violated" in so else []) + \
        (["deadlock"] if "Deadlock reached" in so else [])
    if not res["ok"] and not res["violated"]:
        raise CheckError("TLC failed on %s:\n%s\n%s" % (module, so[-3000:], se[-1000:]))
    return res


def cfg_trace(consts, post, start):
    return "SPECIFICATION TSpec\nINVARIANT Accepted\nCONSTANT Post <- %s\nCONSTANT Start <- %s\n" % (post, start) + \
        "".join("CONSTANT %s = %s\n" % kv for kv in consts.items()) + "CHECK_DEADLOCK FALSE\n"


def merge(ctx, files, out, limit=None):
    n = 0
    with open(out, "w") as o:
        for f in files:
            if not os.path.exists(f):
                continue
            with open(f, errors="replace") as i:
                for line in i:
                    if line.strip():
                        o.write(line if line.endswith("\n") else line + "\n")
                        n += 1
    return n


def validate(ctx, module, consts, post, start, tracefile, what, chunk=60000, workers=NCPU, describe=None):
    """all traces of tracefile against the trace specification; records a violation if one is rejected"""
    with open(tracefile, errors="replace") as f:
        lines = f.readlines()
    if not lines:
        raise CheckError("no traces for " + what)
    # chunk by number of events (rough: size) to bound memory
    chunks, cur, size = [], [], 0
    for l in lines:
        cur.append(l)
        size += len(l)
        if size > 24_000_000:
            chunks.append(cur)
            cur, size = [], 0
    if cur:
        chunks.append(cur)
    rejected = None
    for ci, ch in enumerate(chunks):
        tf = ctx.path("chunk_%s_%d.nd" % (re.sub(r"\W", "_", what), ci))
        with open(tf, "w") as f:
            f.writelines(ch)
        r = tlc(ctx, module, cfg_trace(consts, post, start), env={"TRACE": tf}, workers=workers)
        ctx.cov["states"] += r["distinct"]
        ctx.cov["transitions"] += max(r["generated"] - len(ch), 0)
        nev = sum(len(json.loads(x)["ev"]) for x in ch) if r["ok"] and len(ch) < 200000 else None
        if r["ok"] and nev is not None and r["generated"] < nev + len(ch):
            raise CheckError("%s: TLC visited %d states for %d events: traces not fully consumed" %
                             (what, r["generated"], nev))
        if r["violated"]:
            trs = re.findall(r"/\\ tr = (\d+)", r["out"])
            iis = re.findall(r"/\\ i = (\d+)", r["out"])
            t, i = int(trs[-1]), int(iis[-1])
            rejected = (ch[t - 1], i, r["out"])
            break
        os.unlink(tf)
        ctx.cov["traces_validated_against_impl"] += len(ch)
    if len(ctx.cov["samples"]) < 3:
        s = lines[len(lines) // 2]
        ctx.cov["samples"].append({"what": what, "trace": s.strip()[:1500]})
    if rejected:
        line, i, out = rejected
        tr = json.loads(line)
        # confirm: the trace alone must be rejected again
        tf = ctx.path("confirm.nd")
        with open(tf, "w") as f:
            f.write(line)
        r2 = tlc(ctx, module, cfg_trace(consts, post, start), env={"TRACE": tf}, workers=1)
        if not r2["violated"]:
            raise CheckError("rejection of a trace was not confirmed")
        states = re.findall(r"State \d+:.*?(?=\nState \d+:|\n\d+ states generated|\nThe number|\Z)", r2["out"], re.S)
        tail = "\n".join(states[-3:])[-6000:]
        ctx.violations.append({"what": what, "event_index": i, "event": tr["ev"][i - 1] if i else None,
                               "trace": tr, "spec": module, "consts": consts, "spec_states": tail})
        ctx.log("REJECTED", what, "event", i, json.dumps(tr["ev"][i - 1])[:300])
        return False
    return True


def model(ctx, module, consts, invs=(), props=(), spec="Spec", constraint=None, extra_cfg="", workers=NCPU,
          timeout=800, deadlock=False, name=None, expect_ok=True, action_constraint=None, view=None, extra=(), env=None):
    """exhaustive model checking of a design specification"""
    cfg = "SPECIFICATION %s\n" % spec
    for k, v in consts.items():
        cfg += "CONSTANT %s %s\n" % (k, v if str(v).startswith("<-") else "= " + str(v))
    for x in invs:
        cfg += "INVARIANT %s\n" % x
    for x in props:
        cfg += "PROPERTY %s\n" % x
    if constraint:
        cfg += "CONSTRAINT %s\n" % constraint
    if action_constraint:
        cfg += "ACTION_CONSTRAINT %s\n" % action_constraint
    if view:
        cfg += "VIEW %s\n" % view
    cfg += extra_cfg
    cfg += "CHECK_DEADLOCK %s\n" % ("TRUE" if deadlock else "FALSE")
    r = tlc(ctx, module, cfg, workers=workers, timeout=timeout, extra=extra, env=env)
    ctx.cov["states"] += r["distinct"]
    ctx.cov["transitions"] += r["generated"]
    ctx.detail.setdefault("models", []).append({"module": module, "name": name or module, "consts": {k: str(v) for k, v in consts.items()},
                                                "distinct": r["distinct"], "generated": r["generated"], "ok": r["ok"]})
    if expect_ok and not r["ok"]:
        raise CheckError("the design specification %s itself violates %s\n%s" % (module, r["violated"], r["out"][-5000:]))
    return r


def write_evidence(ctx, level):
    ctx.cov.update(ctx.detail)
    ev = {"property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": ctx.cov,
          "assumptions": ctx.assumptions, "wall_s": round(time.time() - ctx.t0, 2), "violations": len(ctx.violations)}
    p = os.path.join(VERIF, "evidence", ctx.prop + ".json")
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        json.dump(ev, f, indent=1)
    return p

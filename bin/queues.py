"""C01-C07: the three concurrent queues."""
import json
import os
import random

from vlib import *

CUR = {
    "S": ["|p o|p o", "|p p|o o", "|p p|p p|o o o o", "p|p|o|o", "p p|o o|p p|o", "|v2 p|p v2|o o o", "|v0 p|o m",
          "p|o m k s|p", "p p p|o o|k s m k s", "|p c|p o|o", "p p|c|p o|s m", "|e v3|o o|p k", "|p|p|p|o o o",
          "p|o|p|m s k", "v3|o o|o p|k", "|p|v2|o k o", "v2|o p|o p|o", "p|p p|o o|s", "|r p|p r|o", "p o|p|p o|m",
          "p p|o|o|p", "|v0|p|o o", "p|v0 o|p o", "p p|o o o|p p p", "|e e|p|o|o", "p|p|p|s k", "p|c o|p k", "|p m|p m|o m", "|x p|p x|o o", "p|y o|p", "p o|x|p m"],
    "B": ["|p o|p o", "|p p|o o", "|p|p|b|b", "|p p|b|b", "|p p|p|b b|b", "p|b b|p|p", "|p|f|p|b", "|F|b|p", "|e|b|p b",
          "p|p|o|o", "p p|o o|p p|o", "p|o m k s|p", "|p c|p o|o", "p p|c|p o|s m", "p|o|p|m s k", "|p|p|s k m|o",
          "p o|p|p o|m", "|w|p", "|p p|w|b", "p|b|b|p", "|p b|p b", "|p b|p b|p b", "|b p|p b", "|e p|p e|o o o o",
          "p p|o|k s m|p", "p o|p|p|s m k", "|f|f|p p", "|b|b|F p", "p|c|b|p", "p|b|p|c p", "|p|e|b o|b",
          "|x|p|b", "|y p|b", "p|x o|p s|m", "p o|y m|p"],
    "P": ["|p o|P o", "|p P|o o", "|p|P|b|b", "|P P|b|b", "|p P|P|b b|b", "P|b b|p|P", "|P|f|p|b", "|F|b|P", "|E|b|p b",
          "p|P|o|o", "p P|o o|P p|o", "P|o m k|p", "|P c|p o|o", "p P|c|P o|m", "P|o|p|m k", "|p|P|k m|o",
          "P o|p|P o|m", "|w|P", "|P p|w|b", "P|b|b|p", "|p b|P b", "|P b|P b|p b", "|b P|p b", "|e P|P e|o o o o",
          "P p|o|k m|P", "P o|p|P|m k", "|f|f|P p", "|b|b|F P", "P|c|b|P", "P|b|p|c P", "|P|e|b o|b", "p p|P P|o o o",
          "|X|P|b", "|x|P|b", "|Y p|b", "P|X o|p m|m", "P o|Y m|P", "|y|X|p|b",
          "P p p|o o|P", "p P p|o k|o k|P"],
}
PROG = {
    "S": ["|p o|p o|p o", "p|o s|p s|c", "|v2|s o|p s", "p|p o|s k|c", "p p|o o|s s|p p", "p|r|p o|s"],
    "B": ["|p|p|b|b", "|p p|b|b", "|p p|b b|b|p", "|p p|p p|b b|b b", "p|b b|p|b p", "|e|p|b|b", "|b|b|b|p p p", "|p b|p b|p b",
          "|f|b|p p", "|f|f|p|p", "|F|b|p", "|F|F|p b", "|b|F|p|b", "p|o b|p|b", "|p s|p s|b|b", "|p c|b|p p", "p|c p|b|p",
          "|o b|p|p o", "|b|p m|p k|b", "|b b b|p p p", "|b b|e p", "|p p p|b|b|b", "|w b|p p", "|w|b|p p", "|r p|b|p s|b",
          "|x|b|p", "|y|b|p", "|x p|b", "|b|x|y|p", "p|x|b b|p", "p o|b|x|p", "|f|x|p", "|x|b|b|p p", "p b|y|b|p"],
    "P": ["|P|p|b|b", "|p P|b|b", "|P P|b b|b|p", "|p P|P p|b b|b b", "P|b b|p|b P", "|E|p|b|b", "|b|b|b|P p P", "|P b|p b|P b",
          "|f|b|P p", "|f|f|P|P", "|F|b|P", "|F|F|P b", "|b|F|P|b", "P|o b|p|b", "|p m|P k|b|b", "|P c|b|P p", "P|c P|b|P",
          "|o b|P|p o", "|b|P m|p k|b", "|b b b|P p P", "|b b|e P", "|P p P|b|b|b", "|w b|P p", "|w|b|P P", "|P|P|b|b", "|E e|b|b",
          "|x|b|p", "|y|b|P", "|X|b|p", "|Y|b|P", "|X P|b", "|b|X|y|P", "P|Y|b b|p", "p o|b|X|p", "|f|x|P", "|X|b|b|P p",
          "P b|Y|b|p"],
}
TIME = {
    "B": ["|w", "|w|p", "|w p|w", "|w|w|p", "|w|w|p p", "p|w|w", "p|w w|p", "|f|p", "|F", "|F|p", "|F|F", "|f|f|p p", "p|f|F",
          "p|f|f|p", "|w|b|p p", "|w|p|p|b", "|w|F", "|w w|p p", "|w f|p p", "|f|p o|p", "|w|p o", "p|o w|p", "|w|e", "|f|e|p o",
          "|w|c p", "p|w|c p", "|F|w|p", "|F b|p", "|w0|p|p o", "|w0 w|p", "p|w0 wn|p", "|ws|p", "|wu|wh|p", "|wh|p|o", "|wd w|p", "p o|ws w0|e"],
    "P": ["|w", "|w|P", "|w P|w", "|w|w|P", "|w|w|P p", "P|w|w", "P|w w|p", "|f|P", "|F", "|F|P", "|F|F", "|f|f|P p", "P|f|F",
          "P|f|f|p", "|w|b|P P", "|w|p|P|b", "|w|F", "|w w|P p", "|w f|P p", "|f|P o|p", "|w|P o", "P|o w|P", "|w|E", "|f|E|P o",
          "|w|c P", "P|w|c P", "|F|w|P", "|F b|P", "|w0|P|p o", "|w0 w|p", "P|w0 wn|P", "|ws|P", "|wu|wh|p", "|wh|P|o", "|wd w|p", "P o|ws w0|E", "|w|p", "|f|p", "p P|w|f"],
}


def rand_scen(rng, kind, ops, blocking, n):
    out = []
    while len(out) < n:
        nt = rng.choice([2, 2, 3, 3, 4])
        init = [rng.choice(["p", "p", "e", "v2" if kind == "S" else "p", "P" if kind == "P" else "p"])
                for _ in range(rng.choice([0, 0, 1, 1, 2]))]
        ths = [[rng.choice(ops) for _ in range(rng.choice([1, 2, 2, 3]))] for _ in range(nt)]
        if sum(map(len, ths)) > 8:
            continue
        flat = [o for t in ths for o in t]
        if not any(o in blocking for o in flat):
            continue
        out.append(" ".join(init) + "|" + "|".join(" ".join(t) for t in ths))
    return out


OPS = {
    "S": ["p", "p", "p", "e", "v2", "v0", "v1", "o", "o", "o", "o", "k", "s", "m", "c", "x", "V2"],
    "B": ["p", "p", "p", "e", "o", "o", "b", "b", "w", "f", "F", "k", "s", "m", "c", "x"],
    "P": ["p", "p", "P", "P", "e", "E", "o", "o", "b", "b", "w", "f", "F", "k", "m", "c", "x", "X"],
}
PROGOPS = {"S": OPS["S"], "B": ["p", "p", "p", "e", "b", "b", "b", "f", "o", "F", "m", "c", "x", "y"],
           "P": ["p", "P", "P", "E", "e", "b", "b", "b", "f", "o", "F", "m", "c", "x", "X", "Y"]}
TIMEOPS = {"B": ["p", "p", "e", "w", "w", "w0", "ws", "f", "F", "o", "c"], "P": ["p", "P", "E", "w", "w", "w0", "ws", "f", "F", "o", "c"]}


def explore(ctx, exe, scens, tag, **kw):
    """scens: list of (name, kind, cap, body); returns trace file"""
    n = NCPU
    parts = [scens[i::n] for i in range(n)]
    guides = kw.pop("guide", None)
    if guides:   # every process runs all scenarios with its share of the schedules
        parts = [scens] * n
        outs = [open(ctx.path("%s_%d.guide" % (tag, k)), "w") for k in range(n)]
        with open(guides) as f:
            for i, line in enumerate(f):
                outs[i % n].write(line)
        for o in outs:
            o.close()

    def one(k):
        if not parts[k]:
            return None
        sf = ctx.path("%s_%d.sc" % (tag, k))
        of = ctx.path("%s_%d.nd" % (tag, k))
        with open(sf, "w") as f:
            for s in parts[k]:
                f.write("%s;%s;%s;%s\n" % s)
        rc, so, se = run([exe, sf, of] + ["%s=%s" % x for x in kw.items()] +
                         (["guide=" + ctx.path("%s_%d.guide" % (tag, k))] if guides else []), timeout=800)
        if rc != 0:
            raise CheckError("harness failed: %s %s" % (so[-500:], se[-1500:]))
        return of, json.loads(so.strip().splitlines()[-1])

    rs = [r for r in pmap(one, range(n)) if r]
    out = ctx.path(tag + ".nd")
    merge(ctx, [r[0] for r in rs], out)
    agg = {}
    for r in rs:
        for k, v in r[1].items():
            agg[k] = agg.get(k, 0) + v
    agg["options"] = {k: v for k, v in kw.items()}
    ctx.detail.setdefault("exploration", []).append(dict(agg, tag=tag))
    ctx.log(tag, agg)
    return out


def scen_list(ctx, kind, curated, ops, blocking, nrand, seedx=0):
    rng = random.Random(ctx.seed * 7919 + seedx)
    bodies = list(curated) + rand_scen(rng, kind, ops, blocking, nrand)
    out = []
    for i, b in enumerate(bodies):
        cap = -1 if i % 4 else 4
        out.append(("%s%d" % (kind, i), kind, cap, b))
    return out


KNUM = {"S": 1, "B": 2, "P": 3}


# scenarios for the implementation level specification QueueImpl: the first list always, the second in the thorough tier
IMPL = {
    "S": (["|p p|o o", "p p|o o|p o|k m", "|v2 p|o o s|c p", "|p|p|o o o", "|p o|p o|m k", "p|x o|p s|c", "p p|c o|p k|m"],
          ["|p|p|p|o o o", "p p|o o|s s|p p|m", "|v2|v2 o|o k|p c", "|p p|p p|o o|o o", "p|p o|s k|c|x"]),
    "B": (["|p p|b|b", "|p|p|b|b", "p|p p|b b|o m", "|p p|w|b", "|f|f|p p", "|x|b|p", "|p c|b|p p", "|p s|k m|o p", "|w|p o|p", "|f|x|p"],
          ["|p p|p p|b b|b b", "|b|b|b|p p p", "|w|w|p p|c", "|p b|p b|p b", "|f|b|w|p p p", "p|b b|p c|p p|m", "|x|p|b|b|p", "|p p|b s|b k|p"]),
    "P": (["|P p|b|b", "|P|p|b|b", "|p P|P|b b", "|w|P p|f", "P|o k|p P|m c", "|X|P|b|x", "|f|f|P p", "|w|P o|p", "|p c|b|P P"],
          ["|p P|P p|b b|b b", "|b|b|b|P p P", "|w|w|P p|c", "|P b|p b|P b", "|f|b|w|P p P", "P|b b|p c|P p|m", "|X|P|b|b|p", "|P p|b k|b|p"]),
}


def guide_line(name, path):
    """thread ids of a path as the scheduler sees them: every thread first runs up to its first call"""
    ids, seen = [0], {0}
    for t in path:
        if t % 100 not in seen:
            seen.add(t % 100)
            ids.append(t)
        ids.append(t)
    return name + " " + " ".join(map(str, ids))


def impl_guides(ctx, module, consts, invs, bodies, tag, kind, num, encode=None, gen=None, workers=None):
    """check the implementation level specification on the scenarios exhaustively (refinement of the abstract one,
    progress), then turn every transition of its state graph (with the constants gen) into a schedule;
    num is the parameter of all scenarios, or a list with one for each; returns (scenarios, guide file)"""
    nums = num if isinstance(num, list) else [num] * len(bodies)
    js = ctx.path("%s_scens.json" % tag)
    with open(js, "w") as f:
        json.dump([encode(b, k) if encode else [t.split() for t in b.split("|")] for b, k in zip(bodies, nums)], f)
    env = {"SCENS": js}
    if invs:
        model(ctx, module, dict(consts, Emit="FALSE"), invs=invs, view="NoPath", env=env, name=module + " refinement", workers=workers or NCPU)
    r = model(ctx, module, dict(dict(consts, Emit="TRUE"), **(gen or {})), view="NoHistory", action_constraint="EmitEdge", env=env, workers=1,
              name=module + " schedules")
    gf = ctx.path("%s_guides" % tag)
    n = 0
    with open(gf, "w") as f:
        for e in set(re.findall(r'EDGE:([^"]*)"', r["out"])):
            v = [int(x) for x in e.split()]
            f.write(guide_line("%s%d" % (tag, v[0] - 1), v[1:]) + "\n")
            n += 1
    ctx.detail.setdefault("schedules_from_model", []).append({"module": module, "scenarios": len(bodies), "schedules": n})
    return [("%s%d" % (tag, i), kind, k, b) for i, (b, k) in enumerate(zip(bodies, nums))], gf


def impl_check(ctx, kind, judge, exe):
    bodies = IMPL[kind][0] + (IMPL[kind][1] if ctx.thorough else [])
    sc, gf = impl_guides(ctx, "QueueImpl", dict(Kind='"%s"' % kind, Spurious=1, Timeouts=1),
                         ["Refines", "Progress", "AtRest", "Flagged", "Front2"], bodies, "impl" + kind, kind, -1)
    a = explore(ctx, exe, sc, "impl" + kind, bound=0, maxruns=1, random=0, seed=ctx.seed, spurious=1, timeouts=1, guide=gf)
    validate(ctx, "QueueTrace", {"Judge": '"%s"' % judge}, "PostQ", "StartQ", a, "schedules of the implementation level specification " + kind)


def history_check(ctx, kind, judge, curated, ops, blocking):
    exe = build(ctx, "conc_queue.cpp", "cq" + kind, ["KIND=%d" % KNUM[kind]], ["-O1"])
    T = ctx.thorough
    sc = scen_list(ctx, kind, curated, ops, blocking, 400 if T else 60)
    consts = {"Judge": '"%s"' % judge}
    a = explore(ctx, exe, sc, "sync" + kind, bound=3 if T else 2, maxruns=20000 if T else 900, random=3000 if T else 150,
                seed=ctx.seed, spurious=1, timeouts=2)
    validate(ctx, "QueueTrace", consts, "PostQ", "StartQ", a, "histories " + kind)
    if ctx.violations:
        return
    b = explore(ctx, exe, sc, "data" + kind, bound=2 if T else 1, maxruns=20000 if T else 500, random=6000 if T else 300,
                seed=ctx.seed + 17, data=1, spurious=0, timeouts=1)
    validate(ctx, "QueueTrace", consts, "PostQ", "StartQ", b, "histories with storage-access preemption " + kind)
    if not ctx.violations:
        impl_check(ctx, kind, judge, exe)
    if judge in ("LIN", "PROG") and not ctx.violations:
        deep_check(ctx, kind, judge, exe)


def c01(ctx):
    history_check(ctx, "S", "LIN", CUR["S"], OPS["S"], OPS["S"])


def c02(ctx):
    history_check(ctx, "B", "LIN", CUR["B"], OPS["B"], OPS["B"])


def c03(ctx):
    history_check(ctx, "P", "LIN", CUR["P"], OPS["P"], OPS["P"])


def c04(ctx):
    history_check(ctx, "B", "PROG", PROG["B"], PROGOPS["B"], ["b", "f", "F"])


def c05(ctx):
    history_check(ctx, "P", "PROG", PROG["P"], PROGOPS["P"], ["b", "f", "F"])


def c06(ctx):
    history_check(ctx, "B", "TIME", TIME["B"], TIMEOPS["B"], ["w", "w0", "ws", "f", "F"])
    if not ctx.violations:
        history_check(ctx, "P", "TIME", TIME["P"], TIMEOPS["P"], ["w", "w0", "ws", "f", "F"])


def deep_scen(rng, kind, n):
    """long programs: many elements in the queue, one thread that inserts so that the order stays determined"""
    out = []
    for i in range(n):
        def ins():
            x = rng.random()
            if kind == "S" and x < 0.25:
                return "v%d" % rng.choice([0, 1, 2, 3, 5, 8, 16, 17, 33, 40])
            if kind == "P" and x < 0.5:
                return rng.choice("PPE")
            return rng.choice("ppe")

        def obs():
            return rng.choice("km" if kind == "P" else "kms")

        pre, left = [], rng.choice([0, 5, 20, 40, 80])
        while left > 0:
            burst = rng.choice([1, 2, 5, 10, 20, 34])
            pre += [ins() for _ in range(burst)] + ["o" for _ in range(rng.randrange(burst + 1))] + [obs()]
            left -= burst
        p = []
        for _ in range(rng.choice([2, 5, 10])):
            p += [ins() for _ in range(rng.choice([1, 2, 3, 6]))] + ([obs()] if rng.random() < 0.3 else [])
        ths = [p] + [["o" if rng.random() < 0.9 else obs() for _ in range(rng.choice([3, 8, 16, 24]))] for _ in range(rng.choice([1, 1, 2]))]
        out.append(("d%s%d" % (kind, i), kind, rng.choice([-1, -1, 4, 64]), " ".join(pre) + "|" + "|".join(" ".join(t) for t in ths)))
    return out


MANY = {
    "B": ["|b|b|b|b|b|p p p p p", "|b b|b b|b b|p p p|e p e", "|f|b|f|b|w|p e p p p", "p|b|b|b|b|b|p p|p p", "|b|b|b|x p|y p|p", "|p b|p b|p b|p b|p b|p b",
          "|b|b|b|b|c p p p p"],
    "P": ["|b|b|b|b|b|P p P p P", "|b b|b b|b b|P p P|e E e", "|f|b|f|b|w|P e p E P", "P|b|b|b|b|b|P P|p p", "|b|b|b|X p|Y P|P", "|P b|p b|P b|p b|P b|p b",
          "|b|b|b|b|c P p P p"],
}


def deep_check(ctx, kind, judge, exe):
    rng = random.Random(ctx.seed * 53 + ord(kind))
    if judge == "PROG":
        sc = [("d%s%d" % (kind, i), kind, -1, b) for i, b in enumerate(MANY[kind] * (20 if ctx.thorough else 4))]
    else:
        sc = deep_scen(rng, kind, 600 if ctx.thorough else 60)
    a = explore(ctx, exe, sc, "deep" + kind, bound=0, maxruns=2, random=20 if ctx.thorough else 5, seed=ctx.seed + 3, spurious=0, timeouts=1)
    validate(ctx, "QueueTrace", {"Judge": '"%s"' % judge}, "PostQ", "StartQ", a, "long histories " + kind)


def seq_scripts(rng, kind, n):
    ins = {"S": ["p", "p", "e", "v0", "v1", "v2", "v3"], "B": ["p", "p", "e"], "P": ["p", "P", "e", "E", "P"]}[kind]
    pops = {"S": ["o"], "B": ["o", "o", "b", "w", "f"], "P": ["o", "o", "b", "w", "f"]}[kind]
    obs = {"S": ["k", "s", "m"], "B": ["k", "s", "m"], "P": ["k", "m"]}[kind]
    out = []
    for _ in range(n):
        cnt = [0, 0, 0]
        toks = []
        for _ in range(rng.choice([4, 6, 8, 10, 12])):
            o = rng.choice([0, 0, 0, 1, 1, 2])
            x = rng.random()
            if x < 0.36:
                k = rng.choice(ins)
                cnt[o] += int(k[1]) if k[0] == "v" else 1
                toks.append("%d:%s" % (o, k))
            elif x < 0.58:
                k = rng.choice(pops)
                if k in "bf" and cnt[o] == 0:
                    k = "F" if kind != "S" and rng.random() < 0.5 else rng.choice(["o", "w"] if kind != "S" else ["o"])
                if k != "F":
                    cnt[o] = max(0, cnt[o] - 1)
                toks.append("%d:%s" % (o, k))
            elif x < 0.63:
                toks.append("%d:%s" % (o, rng.choice(obs)))
            elif x < 0.68:
                toks.append("%d:%s" % (o, rng.choice({"P": ["x", "y", "X", "Y"], "B": ["x", "y"], "S": ["x", "y", "V1", "V2", "V3", "V02", "V03"]}[kind])))
            elif x < 0.75:
                cnt[o] = 0
                toks.append("%d:c" % o)
            elif x < 0.78:
                toks.append("%d:r" % o)
            elif x < 0.83:
                cnt[o] = 0
                toks.append("%d:%s" % (o, rng.choice(["N", "C0", "C4"])))
            else:
                d = rng.choice([z for z in range(3) if z != o])
                toks.append("%d:%s%d" % (o, rng.choice("MA"), d))
                cnt[d], cnt[o] = cnt[o], 0
        out.append(" ".join(toks))
    return out


def c07(ctx):
    T = ctx.thorough
    for kind in "SBP":
        exe = build(ctx, "conc_queue.cpp", "cq" + kind, ["KIND=%d" % KNUM[kind]], ["-O1"])
        rng = random.Random(ctx.seed * 31 + ord(kind))
        sc = [("q%s%d" % (kind, i), kind, "seq", b) for i, b in enumerate(seq_scripts(rng, kind, 8000 if T else 700))]
        a = explore(ctx, exe, sc, "rest" + kind)
        validate(ctx, "SeqQueue", {}, "Post0", "Start0", a, "scripts at rest " + kind)
        if ctx.violations:
            return
        sc = scen_list(ctx, kind, CUR[kind], OPS[kind], OPS[kind], 200 if T else 25)
        a = explore(ctx, exe, sc, "conc" + kind, bound=2, maxruns=8000 if T else 300, random=2000 if T else 100, seed=ctx.seed,
                    spurious=1, timeouts=2)
        validate(ctx, "QueueTrace", {"Judge": '"REST"'}, "PostQ", "StartQ", a, "observers after concurrent use " + kind)
        if ctx.violations:
            return

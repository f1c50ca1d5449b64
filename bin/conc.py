"""C08, C09 (AirLock), C11, C12, C13, C35, C36 (WorkQueue), C10 (happens-before)."""
import itertools
import json
import random

from vlib import *
from queues import explore, impl_guides

# ------------------------------------------------------------------ AirLock
AIR = ["|X|T U|X", "T|Y|U|I", "|L U|Y|X U", "|L U|L U", "|T|T|U U", "T|L|U|U", "|L L|U U", "T|L|L|U U U", "|L|L|L|U U U", "T|U|U|I", "|T I|U I|T", "|L|T|U|U",
       "T|L I|U I U", "|L L|L|U U U", "T|L L|U|U U", "|T T|L|U U", "|I|L|U", "T|U L|U L|U", "L|L|L|U|U U", "|T U|T U|T U",
       "|L U|T U|I I", "T|T|U|L", "T U|L|U I|T"]
AIRP = ["T|Y|L|U", "T|L|Y|U", "T|Y|Y|L|U U", "|Y|L|X", "T|Y L|L|U U", "T|X|L|U", "T|L|Y|X|U U", "L|Y|L|L|U U U", "T|L|U", "T|L|L|U|U", "T|L|L|U U", "T|L|L|L|U U U", "|L L|U U", "|L|L|U U", "T|L U|L U|U", "T|L L|U U|U", "T|L|T|U|U", "L|L|L|U|U|U",
        "|L L L|U U U", "T|L U|L U|U|U", "T|L|U T|U U", "T|L I|U|U", "T|L|L U|U U|T"]


def air_rand(rng, n, need):
    out = []
    while len(out) < n:
        nt = rng.choice([2, 3, 3, 4])
        ths = [[rng.choice("LLTUUUIXY"[:9 if rng.random() < 0.4 else 7]) for _ in range(rng.choice([1, 2, 2, 3]))] for _ in range(nt)]
        if sum(map(len, ths)) > 8 or not any(need in t for t in ths):
            continue
        out.append(rng.choice(["", "T", "L"]) + "|" + "|".join(" ".join(t) for t in ths))
    return out


# for the implementation level specification AirLockImpl: the first list always, the second in the thorough tier
AIRI = (["T|Y|L|U", "|X L|T|U I", "T|Y|L|X|U U", "|L|L|U U", "T|L|L|U U", "|T|L|U U", "|L U|T U|I", "T|L|T|U|U", "T|L|L|L|U U U", "T|L U|L U|U"],
        ["T|L L|L|U U U", "|L L L|U U U|T", "T|L|L|U T|U U", "T|L U|L U|U|U I", "|L|L|L|U|U U"])


def air(ctx, judge, cur, need):
    exe = build(ctx, "conc_airlock.cpp", "air", [], ["-O1"])
    T = ctx.thorough
    rng = random.Random(ctx.seed * 131 + len(judge))
    sc = [("a%d" % i, "A", -1, b) for i, b in enumerate(cur + air_rand(rng, 500 if T else 60, need))]
    a = explore(ctx, exe, sc, "air", bound=4 if T else 3, maxruns=30000 if T else 1500, random=4000 if T else 200, seed=ctx.seed, spurious=1)
    validate(ctx, "AirLock", {"Judge": '"%s"' % judge}, "PostA", "StartA", a, "AirLock histories")
    if ctx.violations:
        return
    a = explore(ctx, exe, sc, "aird", bound=2, maxruns=20000 if T else 500, random=4000 if T else 200, seed=ctx.seed + 5, data=1)
    validate(ctx, "AirLock", {"Judge": '"%s"' % judge}, "PostA", "StartA", a, "AirLock histories with storage-access preemption")
    if ctx.violations:
        return
    sc, gf = impl_guides(ctx, "AirLockImpl", dict(Spurious=1), ["Refines", "Progress", "AtRest", "Asleep"], AIRI[0] + (AIRI[1] if T else []),
                         "implA", "A", -1)
    a = explore(ctx, exe, sc, "implA", bound=0, maxruns=1, random=0, seed=ctx.seed, spurious=1, guide=gf)
    validate(ctx, "AirLock", {"Judge": '"%s"' % judge}, "PostA", "StartA", a, "schedules of the implementation level specification")


def c08(ctx):
    air(ctx, "LIN", AIR, "U")


def c09(ctx):
    air(ctx, "PROG", AIRP, "L")


# ------------------------------------------------------------------ WorkQueue
ONCE = {0: ["m h l q", "vm3 vl2", "xm xh", "0 fm fq", "m|m|h", "|gm1|o1", "nmh nhl", "|vm2|xl|q fq fh"],
        1: ["|m h|l q", "|vm2|vl2|h", "xm|xh", "m 0|fm fq|l", "gm1 m|l|o1", "nmh|nhl", "|m|m t|l", "gh1 m m|t T|o1", "fq xq|m", "vm0 m|vh1",
            "gm1 m l h|T t|o1 m"],
        2: ["|m h|l q", "|vm2|vl2|h", "|xm|xh", "m 0|fm fq|l", "gm1 m|l|o1", "|nmh|nhl", "|m|m t|l", "|m m m|h h", "gm1 gm2|m m|o1 o2", "|vm3|vm3"],
        3: ["|m h|l q", "gm1 gm1 gm1|m m h|o1", "|vm3|vh2"]}
WAKE = {1: ["|m", "|m|m", "|m i m", "|h|l", "i|m|m|m", "i|m i m", "|vm2|m", "m i|l l|h", "gm1|m m|o1", "i nmm|m", "|nmh", "|vl1 i|vh1", "i|0 m|fm",
            "m m m|h", "|vm2 m i|l", "i gm1 m m|h|o1", "|m m m m", "i|m m m m|t"],
        2: ["|m", "|m|m", "|m i m", "i|m m|m", "i|vm2|m", "i|m|m|m", "gm1|m m|o1", "gm1 i m", "gm1 i|m|m", "i nmm nmm", "|m m m|m m m", "i gm1 gm1|m|o1",
            "i|gm1 m", "|gm1|m i", "m m m m|m", "i|m m m m m", "gm1 i|vm2", "i|nmg|m".replace("nmg", "nmm"), "|m|h|l i m", "i|xm|m",
            "gm1 gm2 i m m m o1 i", "i m i m i m", "gm1 gm2 i|m m m m m i|o1", "gm1 gm2 i m m m m m m i o1 i m i", "i|t|m m"],
        "2G": ["i Gm21 i o1", "i|Gh21 i o1", "i Gm312 i o1 i o2", "Gl31 i|m i|o1", "i Gm21 i m i|o1", "gm1 i Gm22 i o1 i o2"],
        "3G": ["i Gm31 i o1", "i Gm212 i o1|m", "i Gh312 i m i|o1", "i|Gm21|Gl22|i o1"],
        3: ["i|m m m", "i|m|m|m", "gm1 i|m m|m", "gm1 gm2 i|m|m|o1", "i vm3", "|vm3|m"],
        0: ["m|m|h", "vm2|l", "xm"]}
CLOSE = {0: ["m|m|c", "c", "m c c w", "m c m"],
         1: ["c w", "c c w", "m c w", "m|c w", "|m m|c w", "gm1|c w|o1", "gm1 m h|c|o1", "|m|h|c m w", "i c", "i m c", "|vm3|c", "c m w", "c c m c w", "nmm|c",
             "gm1 i|c w|o1", "i|c|m", "gm1 i|c|i gm2 o1 i", "gm1 i gm2 gl2 gh2|c w|i o1 i", "gh1 i gl2|c|i gh2 i o1 i"],
         2: ["c w", "c c w", "m c w", "m|c w", "|m m|c w", "gm1|c w|o1", "gm1 m h|c|o1", "gm1 gm2|c|o1 o2", "|m|h|c m w", "i c w", "i m c", "|vm3|c",
             "c m w", "nmm|c", "i|c|m", "m m m m|c w", "i gm1|c|o1", "gm1 gm2 i gm3 gl3|c|i o1 i o2 i", "gm1 i|c|i gm2 gl2 o1 i", "gm1 gl2 i|c w|i vm2 o1 i o2 i"],
         3: ["c w", "|m m|c w", "gm1 gm1|c w|o1", "i c w"]}
DESTROY = {0: ["m", "m l h"], 1: ["", "m", "m m m", "i", "gm1 m", "|m|m", "gm1 i m h l", "i m", "m c", "nmm"],
           2: ["", "m", "m m m", "i", "gm1 m", "|m|m", "gm1 i m h l", "i m", "m c", "nmm", "gm1 gm1 m m", "vm3"], 3: ["", "i", "m m", "vm3 i"]}
# every member called while workers and other callers are active (access logs only)
RATIO = {1: ["|m m l|R2 R1", "|l m l m|R1 t e b w", "|m l|R1|R2", "|m m|w e b|c w"],
         2: ["|m l m|R1 R2", "|l m|R1 e b w|t T", "|m m|w b|c w"]}
WOPS = {"ONCE": ["m", "m", "l", "h", "q", "vm2", "vh2", "vl3", "xm", "xl", "0", "fm", "fq", "nmh", "nlm", "nhl", "t", "T", "e", "b"],
        "WAKE": ["m", "m", "l", "h", "q", "vm2", "vl2", "nmh", "nhm", "xm", "m", "i", "0", "t", "R1"],
        "CLOSE": ["m", "m", "l", "h", "q", "vm2", "nmh", "c", "c", "w", "i", "xh"]}


def work_rand(rng, judge, n):
    out = []
    while len(out) < n:
        w = rng.choice([1, 1, 2, 2, 2, 3] + ([0] if judge == "ONCE" else []))
        nt = rng.choice([1, 2, 2, 3])
        ths = [[rng.choice(WOPS[judge]) for _ in range(rng.choice([1, 2, 3, 3]))] for _ in range(nt)]
        init = [rng.choice(["m", "h", "l", "i", "i"]) for _ in range(rng.choice([0, 1, 2]))]
        gates = []
        if w and rng.random() < 0.45:
            for g in range(rng.choice([1, 1, 2])):
                gates.append(str(g + 1))
                init.insert(rng.randrange(len(init) + 1), "g%s%d" % (rng.choice("mhl"), g + 1))
            if rng.random() < 0.7:
                ths.append(["o" + g for g in gates])
        if w > 1 and judge == "WAKE" and rng.random() < 0.3:
            k = rng.choice([2, 3])
            g = "".join(rng.choice(["1", "12", "11"])[:k])
            init += ["i", "G%s%d%s" % (rng.choice("mhl"), k, g), "i"]
        flat = [o for t in ths for o in t] + init
        if judge == "CLOSE":
            if sum(t.count("c") for t in ths) == 0 or sum("c" in t for t in ths) > 1:
                continue   # close is called by one thread only
            if gates and not any("o" + g in o for o in flat for g in gates):
                continue
        if w == 0 and any(o in ("t", "T") for o in flat):
            continue
        if len(flat) > 9:
            continue
        out.append((w, " ".join(init) + "|" + "|".join(" ".join(t) for t in ths)))
    return out


def flat_scen(d, pre):
    # keys are worker counts (a suffix only keeps groups apart)
    return [("%s%s_%d" % (pre, w, i), "W", int(str(w)[0]), b) for w in d for i, b in enumerate(d[w])]


# for the implementation level specification WorkQueueImpl: workers, calls, spurious wake-ups and timeouts in the schedules;
# the first list always, the second in the thorough tier
WIMPL = {"ONCE": ([(1, "|m|l", 1), (1, "|m t", 1), (1, "m|t|h", 1), (1, "|vm2|e", 1), (2, "i|vm2 l", 0)],
                  [(1, "|m m|l t", 1), (1, "|gm1 l|m o1", 1), (1, "m l R1|t|h", 1), (2, "|m|l", 0), (2, "i|m|t|h", 0), (2, "|m m", 1), (1, "|vm2|vl2", 1)]),
         "WAKE": ([(1, "|m|m", 1), (1, "|gm1 i|m i", 1), (1, "|vm2|l", 1), (2, "i|Gm21 i o1", 1), (2, "gm1 i|m|m i", 0), (2, "i|m m", 0)],
                  [(2, "|m", 1), (2, "i|m|l", 1), (2, "|vm2|h", 0), (2, "gm1 i|m|l|o1", 0), (2, "|vm3", 1), (3, "i|m", 0), (1, "|m|l|h", 1),
                   (3, "i Gm31 i o1", 0), (3, "i|vm2", 0)]),
         "CLOSE": ([(1, "|m|c w", 1), (1, "gm1 m|c o1", 1), (2, "c", 1), (2, "gm1 i|m c", 0), (1, "m|c c w", 1), (1, "|m c m w", 1)],
                   [(2, "|m|c", 0), (2, "|m c", 1), (2, "gm1|c o1", 1), (3, "c", 0), (1, "|m|l|c", 1), (2, "gm1 gm2 i|m|c o1 o2", 1), (1, "|vm2|c m w", 1),
                    (2, "i|vm2|c", 0)])}


def wimpl_op(tok):
    o = dict(o="add", q={"q": "h"}.get(tok[0], tok[0]), n=1, all=False, g=0, gs=[0])
    if tok[0] in "vG":
        n = int(tok[2])
        gs = [int(x) for x in tok[3:]]
        o.update(q=tok[1], n=n, all=True, gs=gs + [0] * (n - len(gs)))
    elif tok[0] == "g":
        o.update(q=tok[1], gs=[int(tok[2])])
    elif tok[0] == "o":
        o.update(o="open", g=int(tok[1]))
    elif tok[0] == "R":
        o.update(o="ratio", n=int(tok[1:]))
    elif tok[0] in "tcewi":
        o.update(o={"t": "take", "c": "close", "e": "empty", "w": "wcount", "i": "idle"}[tok[0]])
    return o


def work_impl(ctx, judge, exe):
    enc = lambda b, w: {"w": w, "p": [[wimpl_op(x) for x in t.split()] for t in b.split("|")]}
    invs = ["Allowed", "Wakes", "Closes1", "Forgets", "Flags", "Gone"]
    L = list(enumerate(WIMPL[judge][0] + (WIMPL[judge][1] if ctx.thorough else [])))

    def one(x):
        i, (w, b, k) = x
        return impl_guides(ctx, "WorkQueueImpl", {"Judge": '"ALL"', "Spurious": 1, "Timeouts": 1} if k or ctx.thorough else
                           {"Judge": '"ALL"', "Spurious": 0, "Timeouts": 0}, invs, [b], "implW%d_" % i, "W", [w], enc,
                           {} if k or not ctx.thorough else {"Spurious": 0, "Timeouts": 0}, workers=2)
    sc, gf = [], ctx.path("implW_guides")
    with open(gf, "w") as f:
        for s, g in pmap(one, L):
            sc += s
            f.write(open(g).read())
    a = explore(ctx, exe, sc, "implW", bound=0, maxruns=1, random=0, seed=ctx.seed, spurious=1, timeouts=1, guide=gf)
    validate(ctx, "WorkQueueTrace", {"Judge": '"%s"' % judge}, "PostW", "StartW", a, "schedules of the implementation level specification")


# many workers and blocks, few schedules
CROWD = {"ONCE": [(5, "m l h i|m m l vm4|vl5 h|t e m"), (8, "i|vm9 l|l l h|m m m"), (6, "gm1 gm2 gl3 i|m m l|o1 o2 o3|vh6"), (1, "|vm9 vl9 vh9|m l h m l h|t t t"),
                  (4, "R2|m l m l m l|vm9|vl9")],
         "WAKE": [(5, "i|vm9 i|l h"), (8, "i|vm3|vl5|m h"), (6, "gm1 gm2 gl3 i|m m l|vh6 i|o1 o2 o3"), (6, "i Gm61 i o1 i"), (5, "i Gl51 i|m|o1"),
                  (7, "gm1 i Gh61 i o1"), (4, "i|m m m m|l l l l|h h"), (9, "i Gm91 i o1 i")],
         "CLOSE": [(6, "m m l|m l h|c"), (8, "i|vm9 c w"), (5, "gm1 gm2|m m m|c o1 o2"), (9, "c w m"), (4, "|vm9|vl9|m c m c w")]}


def work(ctx, judge, cur, extra=()):
    exe = build(ctx, "conc_work.cpp", "work", [], ["-O1"])
    T = ctx.thorough
    rng = random.Random(ctx.seed * 17 + len(judge) * 3)
    sc = flat_scen(cur, judge[0] if judge[0] != "D" else "d") + list(extra)
    sc += [("%sr%d" % (judge[0], i), "W", w, b) for i, (w, b) in enumerate(work_rand(rng, judge, 400 if T else 50))]
    a = explore(ctx, exe, sc, "work", bound=3 if T else 2, maxruns=20000 if T else 500, random=5000 if T else 150, seed=ctx.seed,
                spurious=1, timeouts=1)
    validate(ctx, "WorkQueueTrace", {"Judge": '"%s"' % judge}, "PostW", "StartW", a, "WorkQueue schedules")
    if not ctx.violations:
        sc = [("%sc%d" % (judge[0], i), "W", w, b) for i, (w, b) in enumerate(CROWD[judge])]
        a = explore(ctx, exe, sc, "crowd", bound=0, maxruns=2, random=300 if T else 20, seed=ctx.seed + 9, spurious=0, timeouts=0)
        validate(ctx, "WorkQueueTrace", {"Judge": '"%s"' % judge}, "PostW", "StartW", a, "WorkQueue with many workers")
    if not ctx.violations:
        work_impl(ctx, judge, exe)


def c11(ctx):
    work(ctx, "ONCE", ONCE)


def c35(ctx):
    work(ctx, "WAKE", WAKE)


def c13(ctx):
    work(ctx, "CLOSE", CLOSE, [("D%d_%d" % (w, i), "W", w, b) for w in DESTROY for i, b in enumerate(DESTROY[w])])


# what the observers answer when the waiting blocks are exactly known: every worker in a gated block, or nothing waiting
REST = {0: ["b e w m b e c", "|m b e|l b e w"],
        1: ["w b e gm1 i b e m b e l b e h b e o1 i b e w", "gh1 i vm3 vl2 vh1 b e t b e t t b e o1 i b e", "gl1 i|m m|l h i|i b e|o1 i b e",
            "gm1 i|m i b e|t i b e", "gm1 gm2 i b e o1 i b e o2 i b e", "gm1 i m m c w", "gm1 i q vm2 b e t b e"],
        2: ["w gm1 gl2 i b e m l h b e o1 i b e o2 i b e w", "gm1 gm2 gm3 i b e|t i b e|i b e w", "gh1 gh1 i vl4|vm2 i b e|t t i b e|o1 i b e"],
        3: ["gm1 gm2 gm3 i b e m b e o1 i b e w", "gh1 i gl1 gm2 i b e vm5 b e o2 i b e"],
        -1: ["w i w b e m i b e", "gm1 gm1 gm2 i b e m b e o1 i b e w"]}


def rest_rand(rng, n):
    out = []
    for _ in range(n):
        w = rng.choice([1, 1, 2, 2, 3])
        toks = ["g%s%d" % (rng.choice("mhl"), g + 1) for g in range(w)] + ["i", "b", "e"]
        for _ in range(rng.choice([3, 6, 10])):
            toks += [rng.choice(["m", "l", "h", "q", "vm2", "vl3", "vh4", "t", "t", "R2", "w"]), rng.choice(["b", "b e", "e"])]
        for g in rng.sample(range(w), rng.choice([0, 1, w])):
            toks += ["o%d" % (g + 1), "i", "b", "e"]
        ths = [" ".join([rng.choice(["m", "l", "vh2", "t", "i", "q"]) for _ in range(rng.choice([1, 2]))] + ["i b e"]) for _ in range(rng.choice([0, 0, 1, 2]))]
        out.append((w, "|".join([" ".join(toks)] + ths)))
    return out


def c36(ctx):
    exe = build(ctx, "conc_work.cpp", "work", [], ["-O1"])
    T = ctx.thorough
    rng = random.Random(ctx.seed * 19 + 36)
    sc = [("Q%d_%d" % (w, i), "W", w, b) for w in REST for i, b in enumerate(REST[w])]
    sc += [("Qr%d" % i, "W", w, b) for i, (w, b) in enumerate(rest_rand(rng, 500 if T else 150))]
    a = explore(ctx, exe, sc, "rest", bound=3 if T else 2, maxruns=1000 if T else 100, random=200 if T else 40, seed=ctx.seed, spurious=1, timeouts=1)
    validate(ctx, "WorkQueueTrace", {"Judge": '"REST"'}, "PostW", "StartW", a, "observers of a settled WorkQueue")


def order_scripts(rng, n, T):
    out = []
    L = 6 if T else 5
    for r in (1, 2, 3):
        for k in range(1, L + 1):
            for w in itertools.product("mlh" if k <= 4 else "ml", repeat=k):
                out.append("gh1 i R%d %s o1 i" % (r, " ".join(w)))
    for w in itertools.product("ml", repeat=3):   # default ratio
        out.append("gh1 i m m m m m l %s o1 i" % " ".join(w))
        out.append("gh1 i R3 R0 m m m m m m l l %s o1 i" % " ".join(w))
        out.append("gh1 i R-2 l m m m m m m l l %s o1 i" % " ".join(w))
        out.append("gh1 i R2 m m l t t t %s t t o1 i" % " ".join(w))
    for r in (4, 6, 9, 15, 100, 2147483647):   # large ratios, many blocks
        for _ in range(60 if T else 8):
            k = rng.choice([5, 12, 20, 30])
            w = [rng.choice("mmmmmml" if r > 5 else "mmml") for _ in range(k)]
            if rng.random() < 0.6:
                w.insert(rng.randrange(k), "R%d" % rng.choice([1, 2, 3, 5, 8, 11, r]))
            w += [rng.choice(["t", "vm9", "vl5", "l", "h", "vh3"]) for _ in range(3)]
            out.append("gh1 i R%d %s o1 i" % (r, " ".join(w)))
            h = len(w) // 2
            out.append("gh1 gm2 R%d %s o1 i %s o2 i" % (r, " ".join(w[:h]), " ".join(w[h:])))
    for _ in range(n):
        toks, g = [], 0
        for _ in range(rng.choice([1, 2, 3])):
            g += 1
            mine = g
            toks += ["g%s%d" % (rng.choice("hhml"), g), "i"]
            inner = []
            for _ in range(rng.choice([3, 5, 7, 9])):
                x = rng.random()
                if x < 0.62:
                    toks.append(rng.choice(["m", "m", "m", "l", "l", "h", "q"]))
                elif x < 0.70:
                    toks.append("v%s%d" % (rng.choice("mlh"), rng.choice([1, 2, 3])))
                elif x < 0.80:
                    toks.append(rng.choice("tT"))
                elif x < 0.85:
                    toks.append("R%d" % rng.choice([1, 2, 3, 0, -1]))
                elif x < 0.92:
                    toks.append("n%s%s" % (rng.choice("mlh"), rng.choice("mlh")))
                elif x < 0.96 and g < 9:
                    g += 1
                    inner.append(g)
                    toks.append("g%s%d" % (rng.choice("hml"), g))
                else:
                    toks.append(rng.choice("eb"))
            toks += ["o%d" % mine, "i"]
            for x in inner:
                if rng.random() < 0.6:
                    # the worker is blocked in some gate (or idle when all inner gates were taken by t/T)
                    toks += ["i"]
                toks += ["o%d" % x, "i"]
            if g >= 8:
                break
        # a taken-and-executed gated block would block the only submitter
        if "T" in toks and any(t[0] == "g" for t in toks[2:]):
            toks = [t if t != "T" else "t" for t in toks]
        out.append(" ".join(toks))
    return out


def c12(ctx):
    exe = build(ctx, "conc_work.cpp", "work", [], ["-O1"])
    T = ctx.thorough
    rng = random.Random(ctx.seed * 23)
    sc = [("o%d" % i, "W", 1, b) for i, b in enumerate(order_scripts(rng, 6000 if T else 800, T))]
    a = explore(ctx, exe, sc, "order", bound=0, maxruns=2, random=2, seed=ctx.seed, timeouts=0)
    validate(ctx, "WorkQueueTrace", {"Judge": '"ORDER"'}, "PostW", "StartW", a, "WorkQueue selection order")


def c10(ctx):
    import queues
    T = ctx.thorough
    K = 1 if not T else 8
    exes = pmap(lambda a: build(ctx, *a, access=True), [("conc_queue.cpp", "cqS", ["KIND=1"], ["-O1"]), ("conc_queue.cpp", "cqB", ["KIND=2"], ["-O1"]),
                                           ("conc_queue.cpp", "cqP", ["KIND=3"], ["-O1"]), ("conc_airlock.cpp", "air", [], ["-O1"]),
                                           ("conc_work.cpp", "work", [], ["-O1"])])
    rng = random.Random(ctx.seed * 97)
    sets = []
    for k, x in zip("SBP", exes):
        sets.append((k, x, queues.scen_list(ctx, k, queues.CUR[k], queues.OPS[k], queues.OPS[k], 30 * K)))
    sets.append(("A", exes[3], [("a%d" % i, "A", -1, b) for i, b in enumerate(AIR + AIRP + air_rand(rng, 20 * K, "U"))]))
    w = flat_scen(ONCE, "O") + flat_scen(CLOSE, "C") + [("D%d_%d" % (w, i), "W", w, b) for w in DESTROY for i, b in enumerate(DESTROY[w])]
    w += flat_scen(RATIO, "K")
    w += [("Or%d" % i, "W", a, b) for i, (a, b) in enumerate(work_rand(rng, "ONCE", 12 * K) + work_rand(rng, "WAKE", 8 * K))]
    sets.append(("W", exes[4], w))
    files = []
    for k, x, sc in sets:
        files.append(explore(ctx, x, sc, "hb" + k, bound=2, maxruns=60 * K, random=60 * K, seed=ctx.seed, hb=1,
                             maxhb=(16 if k == "W" else 24) * K, spurious=1, timeouts=1))
    out = ctx.path("hb.nd")
    merge(ctx, files, out)
    validate(ctx, "HB", {}, "PostHB", "StartHB", out, "access logs")

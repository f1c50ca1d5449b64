"""C14-C34: sequential components, scripts executed on the real objects and judged by the specifications."""
import json
import random

from vlib import *

ASAN = ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"]
ENV = {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:exitcode=77"}


def run_scripts(ctx, exe, scripts, tag):
    """scripts: list of (name, field.., tokens); executed by NCPU workers; returns the trace file"""
    n = min(NCPU, max(1, len(scripts) // 20))
    parts = [scripts[i::n] for i in range(n)]

    def one(k):
        sf, of = ctx.path("%s_%d.sc" % (tag, k)), ctx.path("%s_%d.nd" % (tag, k))
        with open(sf, "w") as f:
            for s in parts[k]:
                f.write(";".join(str(x) for x in s) + "\n")
        rc, so, se = run([exe, sf, of], timeout=800, env=ENV)
        if rc != 0:
            raise CheckError("harness failed (%s): %s %s" % (tag, so[-500:], se[-1500:]))
        return of, json.loads(so.strip().splitlines()[-1])

    rs = pmap(one, range(n))
    out = ctx.path(tag + ".nd")
    merge(ctx, [r[0] for r in rs], out)
    agg = {"tag": tag}
    for r in rs:
        for k, v in r[1].items():
            agg[k] = agg.get(k, 0) + v
    ctx.detail.setdefault("scripts", []).append(agg)
    ctx.log(agg)
    return out


def wchoice(rng, table):
    return rng.choices([x for x, _ in table], [w for _, w in table])[0]


# ---------------------------------------------------------------- buffers
CAPS = list(range(0, 30)) + [32, 33, 40, 41, 47, 48, 49, 56, 64, 65, 72, 80, 96, 100, 128]


def block_size(rng, cap):
    x = rng.random()
    if x < 0.45:
        return rng.randint(1, 6)
    if x < 0.75:
        return rng.randint(1, max(1, cap // 3))
    if x < 0.88:
        return max(1, cap // 2 + rng.randint(-9, 1))
    return max(1, cap + rng.randint(-14, 1))


def buf_scripts(rng, kind, vocab, n):
    """kind 'stack'/'circ'; vocab: (token class, weight)"""
    hdr = 8 if kind == "stack" else 4
    out = []
    for i in range(n):
        cap = rng.choice(CAPS) if rng.random() < 0.8 else rng.randint(20, 200)
        caps = [cap, 0, 0]
        load = [[], [], []]
        toks = []
        many = any(v in "NCMAKQW" for v, _ in vocab)
        for _ in range(rng.choice([6, 10, 14, 20, 28])):
            o = rng.choice([0, 0, 0, 1, 1, 2]) if many else 0
            v = wchoice(rng, vocab)
            pre = "%d:" % o
            if v == "p":
                y = rng.random()
                if y < 0.03:
                    toks.append(pre + rng.choice(["pn", "p0", "p-3", "p-2147483648", "p2147483647", "p2147483644", "p1073741824"]))
                    continue
                z = block_size(rng, caps[o])
                free = caps[o] - sum(load[o]) - hdr * len(load[o]) - hdr
                if y < 0.25 and free > 0:
                    z = max(1, free - rng.choice([0, 0, 1, 2, 3, 4, 5, 7, 8]))
                toks.append(pre + "p%d" % z)
                if z <= free:
                    load[o].append(z)
            elif v == "o":
                t = wchoice(rng, [("o", 6), ("x", 3), ("s", 1), ("z", 1)])
                toks.append(pre + t)
                if t in "ox" and load[o]:
                    load[o].pop(-1 if kind == "stack" else 0)
            elif v in "vc":
                toks.append(pre + v)
                if v == "c":
                    load[o] = []
            elif v == "N":
                toks.append(pre + "N")
                caps[o], load[o] = 0, []
            elif v == "C":
                caps[o], load[o] = rng.choice(CAPS), []
                toks.append(pre + "C%d" % caps[o])
            elif v == "r":
                used = sum(load[o]) + hdr * len(load[o])
                y = rng.random()
                if y < 0.4:
                    z = used + rng.choice([-9, -8, -5, -4, -3, -1, 0, 0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16])
                elif y < 0.8:
                    z = caps[o] + rng.choice([-8, -4, -2, -1, 0, 1, 2, 4, 7, 8, 16, 40])
                else:
                    z = rng.choice(CAPS)
                if z < 0:
                    z = -2 if kind == "stack" and y < 0.1 else 0
                toks.append(pre + "r%d" % z)
                if z >= used:
                    caps[o] = z
            else:
                d = rng.choice([z for z in range(3) if z != o])
                if v == "Q" and rng.random() < 0.1:
                    d = o
                toks.append(pre + "%s%d" % (v, d))
                if v in "MA":
                    caps[d], load[d], caps[o], load[o] = caps[o], load[o], 0, []
                elif v in "KQ":
                    caps[d], load[d] = caps[o], list(load[o])
                else:
                    caps[d], load[d], caps[o], load[o] = caps[o], load[o], caps[d], load[d]
        out.append(("b%d" % i, cap, " ".join(toks)))
    return out


def big_scripts(rng, kind, full, n):
    """large memories and blocks, and many blocks"""
    hdr = 8 if kind == "stack" else 4
    marks = [2, 100, 127, 128, 129, 254, 255, 256, 257, 300, 511, 513, 1000, 4000, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000, 131073]
    out = []
    for i in range(n):
        crowd = i % 8 == 0   # many blocks
        cap = rng.choice([3000, 3600, 4500]) if crowd else rng.choice([255, 256, 257, 264, 300, 520, 1000, 4100, 33000, 65535, 65536, 65544, 70000, 140000, 200000])
        load, toks, c0 = [], [], cap
        for _ in range(rng.choice([1, 2]) if crowd else rng.choice([6, 10, 16])):
            free = cap - sum(load) - hdr * len(load) - hdr
            x = rng.random()
            if crowd or x < 0.5:
                k = rng.choice([140, 270, 300]) if crowd else rng.choice([1, 1, 2, 3])
                for _ in range(k):
                    z = rng.choice([2, 2, 3, 4, 5]) if crowd else rng.choice([m for m in marks if m <= max(2, free)] + [max(2, free - d) for d in (0, 1, 4, 8)])
                    toks.append("p%d" % z)
                    if z <= free:
                        load.append(z)
                    free = cap - sum(load) - hdr * len(load) - hdr
            if kind == "stack" and rng.random() < 0.2:
                toks.append("v")
            if full and rng.random() < 0.3:
                used = sum(load) + hdr * len(load)
                z = rng.choice([used, used + 1, used + hdr, cap + 1, 2 * cap, cap + 256, cap + 65536, max(used, cap - 256)])
                toks.append(rng.choice(["r%d" % z, "r%d" % z, "K1", "Q1"]))
                if toks[-1][0] == "r":
                    cap = z
            k = rng.randrange(len(load) + 2) if crowd else rng.choice([0, 1, 1, 2, 3])
            for _ in range(k):
                t = rng.choice("ooooxs")
                toks.append(t)
                if t != "s" and load:
                    load.pop(-1 if kind == "stack" else 0)
        out.append(("L%d" % i, c0, " ".join("0:" + t for t in toks + ["o"] * (3 if crowd else len(load) + 1))))
    return out


BASIC = {"stack": [("p", 10), ("o", 8), ("v", 3), ("c", 1)], "circ": [("p", 10), ("o", 9), ("c", 1)]}
FULL = {"stack": BASIC["stack"] + [("r", 5), ("M", 1), ("A", 2), ("K", 1), ("Q", 2), ("W", 2), ("C", 1), ("N", 1)],
        "circ": BASIC["circ"] + [("r", 5), ("M", 1), ("A", 2), ("K", 1), ("Q", 2), ("C", 1), ("N", 1)]}


LAYOUT = {"stack": ("StackLayout", ["Sound", "InMemory", "Below", "Disjoint", "Exact", "Safe", "EmptyOffers"]),
          "circ": ("CircLayout", ["Sound", "HeadFound", "InMemory", "Disjoint", "EmptyOffers", "FreshOffers", "Offsets"])}


def layout_edges(ctx, kind, consts, limit, rng, tail):
    """model check the memory layout specification; every transition it has becomes a script (sampled to limit)"""
    mod, invs = LAYOUT[kind]
    c = {k: "{%s}" % ",".join(map(str, v)) if isinstance(v, (list, tuple, range)) else v for k, v in consts.items()}
    r = model(ctx, mod, dict(c, Emit="TRUE"), invs=invs, action_constraint="EmitEdge", view="view", workers=1)
    edges = sorted(set(re.findall(r'EDGE:([^"]*)"', r["out"])))
    ctx.detail.setdefault("layout_edges", []).append({"consts": c, "edges": len(edges), "used": min(limit, len(edges))})
    if len(edges) > limit:
        edges = rng.sample(edges, limit)
    return [("e%d" % i, e.split(";")[0], e.split(";")[1].strip() + tail) for i, e in enumerate(edges)]


def buffers(ctx, kind, judge):
    T = ctx.thorough
    mod = "StackBuf" if kind == "stack" else "CircBuf"
    ks = {"stack": [1, 2], "circ": [3, 4]}[kind]
    full = judge == "ALL"
    if full:
        ks = ks[:1]
    exes = pmap(lambda k: build(ctx, "seq_buffer.cpp", "sb%d" % k, ["KIND=%d" % k], ASAN), ks)
    rng = random.Random(ctx.seed * 77 + 1)
    tail = " o o o o p3 o"
    lim = 200000 if T else 3000
    if kind == "circ":
        cfgs = [dict(InitCaps=range(16, 25), Sizes=[1, 2, 4, 9], MaxBlocks=4), dict(InitCaps=range(5, 16), Sizes=[1, 2, 3, 5, 8], MaxBlocks=2)]
        if full:
            cfgs = [dict(InitCaps=[20], Caps=[12, 17, 24], Sizes=[1, 2, 4, 9], MaxBlocks=3),
                    dict(InitCaps=[16, 17], Caps=[13, 15, 16, 18, 19, 23], Sizes=[1, 3, 6], MaxBlocks=2)]
        if T:
            cfgs.append(dict(InitCaps=[26], Caps=[18, 21, 30] if full else [], Sizes=[1, 2, 3, 6, 11], MaxBlocks=4))
    else:
        cfgs = [dict(InitCaps=[0, 8, 9, 16, 17, 27, 36], Sizes=[1, 2, 5], MaxBlocks=3)]
        if full:
            cfgs = [dict(InitCaps=[36], Caps=[30, 41], Sizes=[1, 2, 5], MaxBlocks=3),
                    dict(InitCaps=[12], Caps=[0, 9, 10, 18, 19, 21], Sizes=[1, 2], MaxBlocks=2)]
        if T:
            cfgs.append(dict(InitCaps=[44], Caps=[38, 41] if full else [], Sizes=[1, 2, 5], MaxBlocks=4))
    edges = []
    for c in cfgs:
        edges += layout_edges(ctx, kind, dict({"Caps": []}, **c), lim // len(cfgs), rng, tail)
    files = []
    for k, exe in zip(ks, exes):
        r2 = random.Random(ctx.seed * 101 + k)
        sc = buf_scripts(r2, kind, FULL[kind] if full else BASIC[kind], (60000 if T else 3500) // len(ks))
        sc += big_scripts(r2, kind, full, (600 if T else 64) // len(ks))
        if k in (2, 4):
            sc = [(a, b, " ".join(t[2:] for t in c.split())) for a, b, c in sc]
        own = edges if full or T else edges[ks.index(k)::len(ks)]
        files.append(run_scripts(ctx, exe, sc + own, "%s%d" % (kind, k)))
    out = ctx.path(kind + ".nd")
    merge(ctx, files, out)
    validate(ctx, mod, {"Judge": '"%s"' % judge}, "Post0", "Start0", out, "%s scripts" % kind)


def c15(ctx):
    buffers(ctx, "stack", "LIFO")


def c16(ctx):
    buffers(ctx, "stack", "SPACE")


def c17(ctx):
    buffers(ctx, "stack", "ALL")


def c18(ctx):
    buffers(ctx, "circ", "FIFO")


def c19(ctx):
    buffers(ctx, "circ", "SPACE")


def c20(ctx):
    buffers(ctx, "circ", "ALL")


# ---------------------------------------------------------------- StableBlockVector / StableBlockDeque
def stable_scripts(rng, kind, vocab, n, flags, objs):
    """vocab: list of (token class, weight)"""
    out = []
    for i in range(n):
        prof = rng.random()
        big = prof < 0.12
        N = rng.choice([0, 0, 1]) if big else rng.choice([0, 0, 1, 1, 2, 2, 3])
        if not big and rng.random() < 0.07:
            N = rng.choice([5, 5, 8] if "i" not in flags else [5])
        bs = 1 << N
        size = [0, 0, 0]
        toks = []
        L = rng.choice([4, 6, 8]) if big else rng.choice([5, 8, 12, 16, 24])
        for _ in range(L):
            o = rng.choice([0, 0, 0, 1, 1, 2][:objs * 2 if objs > 1 else 3]) if objs > 1 else 0
            v = wchoice(rng, vocab)
            k = rng.choice([1, 1, 1, 2, 3, bs, bs + 1, 2 * bs, bs // 2 + 1])
            if big and rng.random() < 0.6:
                k = rng.choice([29, 30, 31, 32, 33, 34, 62, 63, 64, 65, 66, 70]) * (bs if rng.random() < 0.7 else 1)
            if v in "bmefgh":
                if size[o] + k > 330:
                    k = 1
                size[o] += k
                toks.append("%d:%s%d" % (o, v, k))
            elif v in "BF":
                if rng.random() < 0.3:
                    k = max(1, size[o] + rng.choice([-bs, -1, -1, 0, 0, 1, 2]))
                size[o] = max(0, size[o] - k)
                toks.append("%d:%s%d" % (o, v, k))
            elif v in "dD":
                k = rng.choice([1, bs, 7]) if not big else rng.choice([20, 31, 34, 40, 66]) * bs
                toks.append("%d:%s%d" % (o, v, min(k, 130)))
            elif v in "avCZ":
                k = rng.choice([0, 1, 2, 3, bs, bs + 1, 2 * bs - 1, 2 * bs, bs // 2, max(0, bs // 2 - 1), bs // 2 + 1, size[o], max(0, size[o] - 1), size[o] + 1])
                if big and rng.random() < 0.5:
                    k = rng.choice([62, 63, 64, 65, 66]) * bs
                size[o] = k
                toks.append("%d:%s%d" % (o, v, k))
            elif v in "cs":
                if v == "c":
                    size[o] = 0
                toks.append("%d:%s" % (o, v))
            elif v == "x":
                toks.append("%d:x%d" % (o, rng.randrange(4 if kind == 2 else 2)))
            elif v in "yz":
                toks.append("%d:%s%d" % (o, v if kind == 2 else "y", rng.choice([0, 1, bs - 1, bs, 2 * bs, max(0, size[o] - 1)])))
                size[o] += 1 if size[o] else 0
            elif v == "N":
                size[o] = 0
                toks.append("%d:N" % o)
            else:
                d = rng.choice([z for z in range(objs) if z != o])
                if v in "PQ" and rng.random() < 0.15:
                    d = o  # onto itself
                toks.append("%d:%s%d" % (o, v, d))
                if v == "P":
                    size[o] = size[d]
                elif v in "KQ":
                    size[d] = size[o]
                else:
                    size[d], size[o] = size[o], 0
        if N in (0, 2, 5) and rng.random() < 0.2:
            N += 200 if "l" in flags else 100   # plain integers, with the default or a watched allocator
        out.append(("s%d" % i, N, flags, " ".join(toks)))
    return out


V_ONE = [("b", 5), ("m", 2), ("e", 3), ("B", 5), ("a", 2), ("v", 1), ("c", 1), ("s", 1), ("C", 1), ("Z", 1), ("N", 1), ("x", 1), ("y", 1)]
V_ENDS = [("f", 5), ("g", 2), ("h", 3), ("F", 5), ("z", 1), ("d", 2), ("D", 2)]
V_COPY = [("K", 2), ("Q", 3), ("M", 3), ("A", 4), ("P", 1)]


BLOCKS = {1: ("BlockVecLayout", lambda b: dict(Counts=[1, 2, 30 * b], Sizes=[0, 1, 2, b, 61 * b, 62 * b, 63 * b, 63 * b + 1, 64 * b, 66 * b],
                                               MaxSlots=256)),
          2: ("BlockDequeLayout", lambda b: dict(Counts=[1, 30 * b], Drifts=[1, 31 * b],
                                                 Sizes=[0, 1, 2, 3, 61 * b, 62 * b, 63 * b + 1, 66 * b], MaxSlots=128))}
TAILS = {1: ["e1 B1", "e3", "B2 e2", "c e2", "s e2", "a3 B1"],
         2: ["h1 e1", "B1 F1", "d3 D3", "c e2 h2", "s h2 e1", "F2 h3", "a3 F1 h1", "B3 e2"]}


def block_edges(ctx, kind, limit, rng, flags):
    """model check the layout of the block containers; its transitions become scripts (sampled to limit)"""
    mod, mk = BLOCKS[kind]
    sets = lambda v: "{%s}" % ",".join(map(str, sorted(set(v))))

    def one(n):
        b = 1 << n
        c = {k: sets(v) if isinstance(v, list) else v for k, v in mk(b).items()}
        r = model(ctx, mod, dict(c, BS=b, Track="TRUE", Emit="TRUE"), invs=["Places", "Table", "Owned", "Pile"],
                  action_constraint="EmitEdge", constraint="Bounded", view="view", workers=1)
        return [(n, e) for e in sorted(set(re.findall(r'EDGE:([^"]*)"', r["out"])))]

    out = []
    levels = [0, 1, 2] if ctx.thorough else [0, 1]
    for n, es in zip(levels, pmap(one, levels)):
        lim = limit // len(levels)
        ctx.detail.setdefault("layout_edges", []).append({"module": mod, "N": n, "edges": len(es), "used": min(lim, len(es))})
        for k, (_, e) in enumerate(rng.sample(es, lim) if len(es) > lim else es):
            tail = " ".join("0:" + t for t in rng.choice(TAILS[kind]).split())
            out.append(("l%d_%d" % (n, k), n, "%sq%d" % (flags, 3 + len(tail.split())), e.strip() + " " + tail))
    return out


def stable(ctx, judge, kinds, vocab, flags, objs, n, edges=1200):
    T = ctx.thorough
    exes = dict(zip(kinds, pmap(lambda k: build(ctx, "seq_stable.cpp", "ss%d" % k, ["KIND=%d" % k], ["-O0"] + ASAN[1:]), kinds)))

    def one(k):
        rng = random.Random(ctx.seed * 131 + k)
        voc = vocab + (V_ENDS if k == 2 else [])
        sc = stable_scripts(rng, k, voc, n * 20 if T else n, flags, objs)
        sc += block_edges(ctx, k, (edges * 20 if T else edges) // len(kinds), rng, flags)
        return run_scripts(ctx, exes[k], sc, "stable%d" % k)

    out = ctx.path("stable.nd")
    merge(ctx, pmap(one, kinds), out)
    validate(ctx, "StableSeq", {"Judge": '"%s"' % judge}, "Post0", "Start0", out, "block container scripts")


def c21(ctx):
    stable(ctx, "CONT", [1], V_ONE, "c", 1, 5000)


def c22(ctx):
    stable(ctx, "CONT", [2], V_ONE, "c", 1, 5000)


def c23(ctx):
    stable(ctx, "ADDR", [1, 2], [x for x in V_ONE if x[0] not in "CZ"] + [("C", 1), ("M", 2), ("A", 3)], "a", 2, 2500)


def c24(ctx):
    stable(ctx, "LIFE", [1, 2], V_ONE + V_COPY, "l", 3, 2500)


def c25(ctx):
    stable(ctx, "COPY", [1, 2], V_ONE + V_COPY + V_COPY, "c", 3, 2500)


def c26(ctx):
    stable(ctx, "ITER", [1, 2], V_ONE + V_COPY, "i", 2, 1500)

"""C27-C32, C34: the mapped containers"""
import random

from seqs import ASAN, run_scripts, wchoice
from vlib import *

SINGLE = [1, 2, 3, 4, 5, 6, 7, 8, 9]
DUAL = [11, 12, 13, 14, 15, 16, 17]
PTR = {6, 7, 14, 15}
NOIDX = {5, 9, 14, 15}          # no addSearchTermForIndex
NOTERM = set(SINGLE) | {14, 15}
NOUNNAMED = {14, 15}
STABLE = {2, 3, 5, 12, 13, 16}
STRING = {5, 9, 13, 16, 17}

INS = [("i", 10), ("j", 5), ("x", 4), ("y", 4)]
REM = [("R", 5), ("r", 5), ("c", 1)]
VIS = [("a", 2), ("b", 2), ("m", 2), ("t", 2), ("w", 2), ("W", 2)]
CPY = [("K", 3), ("Q", 3), ("M", 3), ("A", 3), ("N", 2), ("S", 1)]


def gen(rng, kind, vocab, n, objs):
    """random scripts on one class"""
    out = []
    for z in range(n):
        big = rng.random() < 0.04
        K = rng.choice([40, 90]) if big else rng.choice([2, 3, 4, 5])
        L = rng.choice([60, 120, 170]) if big else rng.choice([6, 10, 16, 24])
        size = [0] * 3
        toks = []
        voc = [(v, w * (6 if big and v in "ij" else 0.15 if big and v in "Cc" else 1)) for v, w in vocab]

        def term():
            return rng.randrange(K)

        for _ in range(L):
            o = rng.choice([0, 0, 0, 1, 1, 2]) if objs > 1 else 0
            v = wchoice(rng, voc)
            k = rng.choice([1, 2]) if kind > 10 else 1
            if v == "x" and kind in NOIDX or v == "y" and kind in NOTERM or v == "t" and kind in PTR or \
                    v in "KQS" and kind in PTR:
                v = "i" if v in "xyt" else rng.choice("MA")
            if v in "ij":
                t1, t2 = term(), (term() if kind > 10 else -1)
                if rng.random() < (0.2 if v == "i" else 0.3):
                    if kind > 10:
                        x = rng.random()
                        t1, t2 = (-1, t2) if x < 0.45 else (t1, -1) if x < 0.9 or v == "j" or kind in NOUNNAMED else (-1, -1)
                    elif v == "i":
                        t1 = -1
                form = rng.choice([0, 0, 1, 2, 3] if kind in PTR and t1 >= 0 and (kind < 10 or t2 >= 0) else [0, 0, 1, 2])
                if form < 3 and rng.random() < 0.25:
                    form = rng.choice([5, 5, 6, 7])  # two constructor arguments, none, an element of the container itself
                if rng.random() < 0.07:
                    form = 4  # the element cannot be constructed
                    size[o] -= 1
                toks.append("%d:%s:%d:%d:%d" % (o, v, t1, t2, form))
                size[o] += 1
            elif v in "xRw":
                i = rng.choice([rng.randrange(size[o] + 1), rng.randrange(size[o] + 1), max(0, size[o] - 1), size[o], 0])
                if rng.random() < 0.04:
                    i = 1000000007
                toks.append("%d:x:%d:%d:%d" % (o, k, term(), i) if v == "x" else "%d:%s:%d" % (o, v, i))
                if v == "R":
                    size[o] = max(0, size[o] - 1)
            elif v == "y":
                toks.append("%d:y:%d:%d:%d:%d" % (o, k, term(), rng.choice([1, 2]), term()))
            elif v in "rW":
                toks.append("%d:%s:%d:%d" % (o, v, k, term()))
            elif v in "KQMA":
                d = rng.choice([x for x in range(3) if x != o])
                toks.append("%d:%s:%d" % (o, v, d))
                size[d] = size[o]
                if v in "MA" and rng.random() < 0.5:
                    toks.append("%d:%s" % (o, rng.choice("Nc")))
                    size[o] = 0
            else:
                toks.append("%d:%s" % (o, v))
                if v in "cN":
                    size[o] = 0
        out.append(("m%d" % z, kind, K, " ".join(toks)))
    return out


def edges(ctx, kinds, removal, limit, rng):
    """every transition of the abstract specification (small universe) as a script for every class"""
    T = ctx.thorough
    cfgs = {}
    for k in kinds:
        dual = k > 10
        c = (dual, 2 if dual else 3, 3 if not dual or T else 2, k not in NOIDX, k not in NOTERM, k not in NOUNNAMED, k in STABLE)
        cfgs.setdefault(c, []).append(k)

    def one(c):
        b = lambda x: "TRUE" if x else "FALSE"
        r = model(ctx, "MappedGen", {"Dual": b(c[0]), "K": c[1], "MaxN": c[2], "HasIdx": b(c[3]), "HasTerm": b(c[4]),
                                     "Unnamed": b(c[5]), "Stab": b(c[6]), "Removal": b(removal), "Emit": "TRUE"},
                  invs=["Inv", "RemovalRight", "OnlyNamed"], action_constraint="EmitEdge", view="view", workers=1)
        return c, sorted(set(re.findall(r'EDGE:([^"]*)"', r["out"])))

    out = {k: [] for k in kinds}
    for c, es in pmap(one, list(cfgs), 4):
        ctx.detail.setdefault("abstract_edges", []).append({"config": str(c), "edges": len(es), "used": min(limit, len(es))})
        for k in cfgs[c]:
            sel = es if len(es) <= limit else rng.sample(es, limit)
            out[k] = [("e%d" % i, k, c[1], e.strip()) for i, e in enumerate(sel)]
    return out


def mapped(ctx, judge, kinds, vocab, n, objs=1, edge=None, removal=False):
    T = ctx.thorough
    parts = sorted({1 if k < 10 else 2 for k in kinds})
    flags = ["-O0"] + ASAN[1:]

    def bld(p):
        # members once known to be impossible to instantiate (DualMappedPointerVector::at, removal from string mapped
        # vectors with unstable storage) are replaced by a failure so that the rest can still be judged
        for d in ([], ["NO_AT"], ["NO_USTR"], ["NO_AT", "NO_USTR"]):
            try:
                return p, build(ctx, "seq_mapped.cpp", "sm%d" % p, ["KINDS=%d" % p] + d, flags)
            except CheckError as e:
                err = e
        raise err

    rng = random.Random(ctx.seed * 313 + 7)
    with ThreadPoolExecutor(2) as ex:
        f1 = ex.submit(lambda: dict(pmap(bld, parts)))
        f2 = ex.submit(lambda: edges(ctx, kinds, removal, 40000 if T else edge, rng) if edge else {})
        exes, ed = f1.result(), f2.result()
    files = []
    for p in parts:
        sc = []
        for k in kinds:
            if (1 if k < 10 else 2) == p:
                sc += gen(random.Random(ctx.seed * 1009 + k), k, vocab, n * 15 if T else n, objs) + ed.get(k, [])
        files.append(run_scripts(ctx, exes[p], sc, "mapped%d" % p))
    out = ctx.path("mapped.nd")
    merge(ctx, files, out)
    validate(ctx, "Mapped", {"Judge": '"%s"' % judge}, "Post0", "Start0", out, "mapped container scripts")


def c27(ctx):
    mapped(ctx, "CONT", SINGLE, INS + [("a", 1)], 400, edge=600)


def c28(ctx):
    mapped(ctx, "CONT", SINGLE, INS + REM, 400, edge=900, removal=True)


def c29(ctx):
    mapped(ctx, "CONT", DUAL, INS + [("a", 1)], 500, edge=900)


def c30(ctx):
    mapped(ctx, "CONT", DUAL, INS + REM, 500, edge=1200, removal=True)


def c31(ctx):
    mapped(ctx, "IDENT", SINGLE + DUAL, INS + REM + VIS + [("M", 1), ("A", 2), ("N", 1)], 450, objs=3)


def c32(ctx):
    mapped(ctx, "CONT", SINGLE + DUAL, INS + REM + CPY + CPY, 450, objs=3)


def c34(ctx):
    mapped(ctx, "CONT", SINGLE + DUAL, INS + [("R", 2), ("r", 1), ("c", 0.5)] + VIS + VIS, 350)


def tset(n):
    return "{%s}" % ", ".join(str(x) for x in range(n))


def c33(ctx):
    nk, nv = (6, 4) if ctx.thorough else (5, 3)
    with ThreadPoolExecutor(2) as ex:
        f1 = ex.submit(lambda: build(ctx, "seq_mapfind.cpp", "mf", [], ASAN))
        r = model(ctx, "MapFindGen", {"Keys": tset(nk), "Values": tset(nv), "Emit": "TRUE"},
                  invs=["EmitAll", "Algebra"], workers=1)
        exe = f1.result()
    contents = sorted(set(re.findall(r'EDGE:([^"]*)"', r["out"])))
    sc = []
    for kt in (1, 2):
        sc += [("f%d" % i, kt, c.strip() or "-") for i, c in enumerate(contents)]
    # large and random contents: enough elements for rehashing and deep trees
    rng = random.Random(ctx.seed * 77 + 1)
    for i in range(3000 if ctx.thorough else 400):
        ks = rng.sample(range(60), rng.choice([1, 8, 20, 50]))
        sc += [("g%d" % i, 1 + i % 2, " ".join("%d=%d" % (k, rng.randrange(5)) for k in ks))]
    validate(ctx, "MapFind", {}, "Post0", "Start0", run_scripts(ctx, exe, sc, "mapfind"), "mapFind on every small content")


def work_scripts(rng, rt, n):
    table = [("D", 2), ("n", 1), ("F", 5), ("T", 4), ("e", 12), ("r", 6), ("U", 4), ("V", 4), ("g", 7), ("v", 4), ("w", 2), ("W", 3),
             ("m", 3), ("a", 3)]
    out = []
    for z in range(n):
        toks = []
        for _ in range(rng.choice([6, 12, 20, 30])):
            o = rng.choice([0, 0, 0, 1, 1, 2])
            v = wchoice(rng, table)
            w = rng.choice([1, 1, 2, 3, 4])
            if v == "F":
                toks.append("%d:F:%d:%d" % (o, w, rng.randrange(6)))
            elif v == "T":
                toks.append("%d:T:%d:%d" % (o, w, rng.choice([0, 0, 1, 2, 3, 10, 10, 11, 12, 13, 20, 20, 21, 22, 23])))
            elif v == "U":
                toks.append("%d:U:%d:%d" % (o, w, rng.choice([0, 1, 2, 4, 5])))
            elif v == "V":
                toks.append("%d:V:%d:%d" % (o, w, rng.choice([0, 0, 1, 2, 3])))
            elif v in "ma":
                toks.append("%d:%s:%d" % (o, v, rng.choice([x for x in range(3) if x != o])))
            else:
                toks.append("%d:%s" % (o, v))
        out.append(("w%d" % z, rt, " ".join(toks)))
    return out


def c14(ctx):
    T = ctx.thorough
    rng = random.Random(ctx.seed * 991 + 3)
    with ThreadPoolExecutor(2) as ex:
        f1 = ex.submit(lambda: build(ctx, "seq_work.cpp", "wb", [], ASAN))
        r = model(ctx, "WorkBlockGen", {"MaxG": 4 if T else 3, "MaxH": 3 if T else 2, "MaxN": 2 if T else 1, "Emit": "TRUE"},
                  invs=["OneOwner", "FinishedIffDelivered", "RunsDelivered", "NoneTwice", "Orphans"], props=["Stays"],
                  constraint="Bound", action_constraint="EmitEdge", view="view", workers=1)
        exe = f1.result()
    es = sorted(set(re.findall(r'EDGE:([^"]*)"', r["out"])))
    limit = 60000 if T else 4000
    ctx.detail["abstract_edges"] = {"edges": len(es), "used_per_type": min(limit, len(es))}
    sc = []
    for rt in (1, 2, 3):
        sel = es if len(es) <= limit else rng.sample(es, limit)
        # the futures of every block are looked at once more at the end
        sc += [("e%d" % i, rt, e.strip() + " 0:g 1:g 0:e 1:e 0:v 1:v") for i, e in enumerate(sel)]
        sc += work_scripts(random.Random(ctx.seed * 17 + rt), rt, 15000 if T else 1200)
    validate(ctx, "WorkBlock", {}, "Post0", "Start0", run_scripts(ctx, exe, sc, "work"), "work block life cycles")

#!/usr/bin/env python3
"""Are the invariants of the implementation level and layout specifications able to fail?  Break the specification itself
in a known way (one edit of its text) and require TLC to report a violation.  usage: vacuity.py [filter]"""
import json
import shutil
import sys
import tempfile

import vlib
from conc import wimpl_op

W = lambda l: [dict(w=w, p=[[wimpl_op(x) for x in t.split()] for t in b.split("|")]) for w, b in l]
Q = lambda l: [[t.split() for t in b.split("|")] for b in l]
IW = (["Allowed", "Wakes", "Closes1", "Forgets", "Flags", "Gone"], "NoPath", {"Judge": '"ALL"', "Spurious": 0, "Timeouts": 1, "Emit": "FALSE"})
IQ = lambda k: (["Refines", "Progress", "AtRest", "Flagged", "Front2"], "NoPath", {"Kind": '"%s"' % k, "Spurious": 1, "Timeouts": 1, "Emit": "FALSE"})
IA = (["Refines", "Progress", "AtRest", "Asleep"], "NoPath", {"Spurious": 1, "Emit": "FALSE"})
CI = (["Sound", "HeadFound", "InMemory", "Disjoint", "EmptyOffers", "FreshOffers", "Offsets"], "view",
      {"Caps": "{16,24,32,40}", "InitCaps": "{16,24,32}", "Sizes": "{1,4,8,12}", "MaxBlocks": 3, "Emit": "FALSE"})
ST = (["Sound", "InMemory", "Below", "Disjoint", "Exact", "Safe", "EmptyOffers"], "view",
      {"Caps": "{16,24,32,40}", "InitCaps": "{16,24,32}", "Sizes": "{1,4,8,12}", "MaxBlocks": 3, "Emit": "FALSE"})
BD = (["Places", "Table", "Owned", "Pile"], "view", {"BS": 2, "Counts": "{1,2,60,120}", "Drifts": "{1,60}", "Sizes": "{0,1,2,120}", "MaxSlots": 256,
                                                    "Track": "TRUE", "Emit": "FALSE"})
BV = (["Places", "Table", "Owned", "Pile"], "view", {"BS": 2, "Counts": "{1,2,60,130}", "Sizes": "{0,1,2,124,130}", "MaxSlots": 256, "Track": "TRUE", "Emit": "FALSE"})

# module, settings, scenarios, what it means, old text, new text
L = [
    ("WorkQueueImpl", IW, W([(1, "|m")]), "submission does not pass through the queue lock", 'Pushed(x, t) == Out(Goto(x, t, "S1"), <<>>)',
     'Pushed(x, t) == Out(Goto(x, t, IF Closing(x, t) THEN "S1" ELSE "N1"), <<>>)', "Wakes"),
    ("WorkQueueImpl", IW, W([(2, "i|Gm21 i o1")]), "a vector wakes one worker only", 'OpOf(x, t).all THEN "NA"', 'FALSE THEN "NA"', None),
    ("WorkQueueImpl", IW, W([(1, "|m"), (1, "c")]), "the worker does not look again under the lock", 'IF x.halt THEN Out(Goto(FreeQ(x), t, "done"), <<>>) ELSE Out(Goto(x, t, "I1"), <<>>)',
     'IF x.halt THEN Out(Goto(FreeQ(x), t, "done"), <<>>) ELSE Out(Goto(x, t, "W"), <<>>)', "Wakes"),
    ("WorkQueueImpl", IW, W([(1, "c")]), "closing tells the workers to stop without the lock", '[] pc = "Xq" -> Out(Goto(x, t, "X1"), <<>>)',
     '[] pc = "Xq" -> Out(Goto(FreeQ(x), t, "X1"), <<>>)', None),
    ("WorkQueueImpl", IW, W([(1, "c")]), "closing notifies before it sets the flag", '"X2" -> Out([Goto(FreeQ([x EXCEPT !.halt = TRUE]), t, "c1")', '"X2" -> Out([Goto(FreeQ(x), t, "c1")', "Closes1"),
    ("WorkQueueImpl", IW, W([(1, "|m")]), "the empty flag is not cleared", '"A3" -> Pushed(FreeL([x EXCEPT !.fl[q] = FALSE], q), t)', '"A3" -> Pushed(FreeL(x, q), t)', "Wakes"),
    ("WorkQueueImpl", IW, W([(1, "|m m m")]), "the second vector is lost when it is fetched", '!.pl[q] = Rev(x.pu[q]), !.pu[q] = <<>>]', '!.pl[q] = <<x.pu[q][1]>>, !.pu[q] = <<>>]', None),
    ("WorkQueueImpl", IW, W([(1, "|m|t")]), "a block is handed out twice", '!.pl[q] = SubSeq(@, 1, L - 1)', '!.pl[q] = @', "Allowed"),
    ("WorkQueueImpl", IW, W([(1, "gm1 m|c o1")]), "closing does not wait for the workers", 'JoinAll(x, t) == IF', 'JoinAll(x, t) == IF TRUE \\/', "Allowed"),
    ("QueueImpl", IQ("P"), Q(["|P|b", "|P p|b|b"]), "an insertion behind the flag does not wake anybody", '"A2" -> IF x.fl THEN', '"A2" -> IF FALSE THEN', None),
    ("QueueImpl", IQ("B"), Q(["|p|b"]), "an insertion does not wake anybody", '!.ws = {}, !.th = [u \\in T |-> IF u \\in x.ws THEN [@[u] EXCEPT !.pc = "RL"] ELSE @[u]]', '!.fl = @', "Progress"),
    ("QueueImpl", IQ("B"), Q(["|p p p|b b b"]), "elements come back in the wrong order", '!.pl = Rev(x.pu)', '!.pl = x.pu', "Refines"),
    ("QueueImpl", IQ("B"), Q(["|p|b", "|w|p"]), "a consumer waits without looking again", '[] go = "second" -> IF x.pl # <<>> THEN Check(TakeL(x, t), t, "have") ELSE', '[] go = "second" -> ', None),
    ("QueueImpl", IQ("P"), Q(["|P P|b|b b"]), "priority elements are taken in reverse", 'TakeP(x, t) == [x EXCEPT !.th[t].v = <<1, Head(x.pr)>>, !.pr = Tail(@)]',
     'TakeP(x, t) == [x EXCEPT !.th[t].v = <<1, Last(x.pr)>>, !.pr = Chop(@)]', "Refines"),
    ("QueueImpl", IQ("S"), Q(["p p|o o|p"]), "the flag is set although elements wait in the push vector", '"CL" -> IF x.pu # <<>> THEN', '"CL" -> IF x.pu # <<>> /\\ x.th[t].go # "have" THEN', None),
    ("QueueImpl", IQ("S"), Q(["p|c o|p"]), "clear forgets one vector", '!.pl = <<>>, !.pu = <<>>, !.pr = <<>>], t, "C3"', '!.pl = <<>>, !.pr = <<>>], t, "C3"', None),
    ("AirLockImpl", IA, Q(["T|L|U"]), "unloading does not wake the loader", '"AA" -> Out(Goto([x EXCEPT !.ld = FALSE], t, "NO"), <<>>)',
     '"AA" -> Ret([x EXCEPT !.ld = FALSE], t, <<1, x.th[t].v>>)', None),
    ("AirLockImpl", IA, Q(["|T|T|U", "|L|T|U"]), "tryload does not look again under the lock", '"A2" -> IF x.ld THEN Ret(x, t, <<0>>) ELSE', '"A2" -> ', None),
    ("AirLockImpl", IA, Q(["T|U|U", "T|U U|T"]), "unload does not look again under the lock", '"A9" -> IF x.ld THEN', '"A9" -> IF TRUE THEN', "Refines"),
    ("AirLockImpl", IA, Q(["T|Y|L|U"]), "a failing load keeps the notification", 'IF pc \\notin {"NO", "NF"} \\/', 'IF pc # "NO" \\/', "Progress"),
    ("AirLockImpl", IA, Q(["T|L|U"]), "load does not test the slot after it woke up", '"RL" -> Out(Goto(x, t, "A6"), <<>>)', '"RL" -> Out(Goto(Load(x, t), t, "A5"), <<>>)', None),
    ("CircLayout", CI, None, "the wrap test ignores the header", 'r >= z + H ELSE', 'r >= z ELSE', None),
    ("CircLayout", CI, None, "no wrap marker", 'marks == cap - w >= H', 'marks == FALSE', None),
    ("CircLayout", CI, None, "growing moves the read offset only", '/\\ blk\' = Shift(n - cap, r) /\\ mk\' = ShiftMk(n - cap, r)\n     ELSE IF r < w', '/\\ blk\' = blk /\\ mk\' = mk\n     ELSE IF r < w', None),
    ("StackLayout", ST, None, "the descriptor is not counted", 'cap - nxt - (Len(tab) + 1) * D >= z', 'cap - nxt - Len(tab) * D >= z', None),
    ("StackLayout", ST, None, "pop after reverse frees the wrong bytes", 'IF t[1] + t[2] = nxt THEN nxt - t[2] ELSE nxt', 'nxt - t[2]', None),
    ("BlockDequeLayout", BD, None, "the table is not extended at its end", 'IF x.bk < x.slots - 2 THEN x', 'IF x.bk < x.slots - 1 THEN x', "Table"),
    ("BlockDequeLayout", BD, None, "clear keeps the last block in use", 'y == IF x.fr < x.bk THEN Release(m, x.bk) ELSE m', 'y == Release(m, x.bk)', "Owned"),
    ("BlockDequeLayout", BD, None, "moving the table forgets the front", '!.fr = d, !.bk = d + x.bk]', '!.fr = d, !.bk = d + x.bk - 1]', "Places"),
    ("BlockDequeLayout", BD, None, "sized construction miscounts the front", '!.fs = BS - h - 1, !.bs = k - h]', '!.fs = BS - h, !.bs = k - h]', "Places"),
    ("BlockVecLayout", BV, None, "the table is not extended at its end", 'IF x.ix >= x.slots - 2 THEN', 'IF x.ix >= x.slots - 1 THEN', "Table"),
    ("BlockVecLayout", BV, None, "clear releases the first block too", 'ReleaseDown(x, x.ix, 1)', 'ReleaseDown(x, x.ix, 0)', "Owned"),
    ("BlockVecLayout", BV, None, "a sized vector has too small a table", 'sl == Max(k \\div BS + 2, 64)', 'sl == Max(k \\div BS, 64)', "Table"),
]


def one(x):
    mod, (invs, view, consts), sc, what, old, new, want = x
    d = tempfile.mkdtemp(prefix="vacuity")
    try:
        text = open(vlib.SPEC + "/" + mod + ".tla").read()
        if old not in text:
            return what, mod, "TEXT NOT FOUND", want
        for f in vlib.os.listdir(vlib.SPEC):
            shutil.copy(vlib.SPEC + "/" + f, d)
        open(d + "/" + mod + ".tla", "w").write(text.replace(old, new, 1))
        js = d + "/scens.json"
        json.dump(sc or [], open(js, "w"))
        cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW %s\n" % view
        cfg += "".join("CONSTANT %s = %s\n" % kv for kv in consts.items()) + "".join("INVARIANT %s\n" % i for i in invs)
        if mod.startswith("Block"):
            cfg += "CONSTRAINT Bounded\n"
        open(d + "/m.cfg", "w").write(cfg)
        rc, so, se = vlib.run(["java", "-XX:+UseParallelGC", "-Xmx3g", "-Xss64m", "-cp", vlib.JARS, "tlc2.TLC", "-workers", "2", "-metadir", d + "/md",
                               "-noGenerateSpecTE", "-config", d + "/m.cfg", d + "/" + mod + ".tla"], 600, env={"SCENS": js}, cwd=d)
        v = vlib.re.findall(r"Invariant (\w+) is violated", so)
        if not v and "No error has been found" not in so:
            v = ["evaluation error: " + " ".join(vlib.re.findall(r"(?:Error: |exception)[^\n]*", so)[:2])[:150]]
        return what, mod, v[0] if v else "SURVIVES", want
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    flt = sys.argv[1] if len(sys.argv) > 1 else ""
    bad = 0
    for what, mod, v, want in vlib.pmap(one, [x for x in L if flt in x[0] + x[3]], 4):
        print("%-18s %-62s %s" % (mod, what, v))
        bad += v in ("SURVIVES", "TEXT NOT FOUND")
    sys.exit(1 if bad else 0)

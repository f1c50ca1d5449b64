----------------------------- MODULE WorkBlock -----------------------------
(* C14: recorded life cycles of work blocks                                   *)
EXTENDS TraceBase, WorkBlockOps
Start0(h) == {Empty}

\* what may be seen of a future: given up results are either broken or never come
Sees(s, g, x) == CASE g = 0 -> TRUE
                   [] s.gs[g] = 0 -> x = 0
                   [] s.gs[g] = -3 -> x \in {0, -3}
                   [] OTHER -> x = s.gs[g]
Agrees(s, e) ==
  /\ \A o \in Slots : e.fin[o + 1] = (IF s.b[o].st # "ok" THEN -1 ELSE IF s.b[o].fin THEN 1 ELSE 0)
  /\ Len(e.fut) = Len(s.hs)
  /\ \A k \in 1..Len(s.hs) : Sees(s, s.hs[k], e.fut[k])
Do(s, e, void) ==
  CASE e.op = "D" -> Default(s, e.o)
    [] e.op = "n" -> Destroy(s, e.o)
    [] e.op \in {"F", "U"} -> Load(s, e.o, e.w)
    [] e.op \in {"T", "V"} -> Load(IF e.how % 10 \in {2, 3} THEN PreRun(s, e.w) ELSE s, e.o, e.w)
    [] e.op \in {"e", "W"} -> Execute(s, e.o, void)
    [] e.op = "r" -> Reset(s, e.o)
    [] e.op = "g" -> Future(s, e.o)
    [] e.op \in {"m", "a"} -> MoveTo(s, e.o, e.w)
    [] OTHER -> s
\* getReturnVal of a void block may or may not report the exception (it is documented to wait only)
Returned(r, x, void) == x = r \/ (void /\ x = 5)
Post0(h, s, e) ==
  IF e.k # "op" THEN {}
  ELSE LET void == h.rt = 3
           t == Do(s, e, void)
           r == Result(t, e.o)
           done == t.b[e.o].st = "ok" /\ r # 0 /\ r # -3
       IN IF /\ Agrees(t, e)
             /\ e.null = 1
             /\ e.runs = (IF e.op \in {"e", "W"} THEN Runs(s, e.o) ELSE <<>>)
             /\ CASE e.op = "v" -> (t.b[e.o].g = 0 \/ (IF done THEN Returned(r, e.ret, void) ELSE e.ret = -9))
                  [] e.op = "w" -> (t.b[e.o].g = 0 \/ e.ret = (IF done THEN 1 ELSE -9))
                  [] e.op = "W" -> (t.b[e.o].g = 0 \/ Returned(r, e.ret, void))
                  [] OTHER -> TRUE
          THEN {t} ELSE {}
============================================================================

---------------------------- MODULE AirLockImpl ----------------------------
(* AirLock as it is built: the flag ld, the slot data, the lock D and the     *)
(* loaders asleep ws.  A step runs a thread from one point of synchronisation *)
(* to the next; A carries the states of AirLockOps that explain the returned  *)
(* results (refinement: A # {}).  Paths become schedules for the real code.   *)
EXTENDS AirLockOps, TLC, Json, IOUtils
CONSTANTS Spurious, Emit
VARIABLES g, A, path
vars == <<g, A, path>>

Scens == JsonDeserialize(IOEnv.SCENS)
Prog(n, t) == Scens[n][t + 1]
T == DOMAIN g.th
OpOf(x, t) == Prog(x.sc, t)[x.th[t].k]
Val(t, k) == 10 * t + k
Name(o) == CASE o = "L" -> "load" [] o = "T" -> "tryload" [] o = "U" -> "unload" [] o = "I" -> "isloaded"
             [] o = "X" -> "tryfail" [] o = "Y" -> "loadfail"
Args(x, t) == IF OpOf(x, t) \in {"L", "T"} THEN <<Val(t, x.th[t].k)>> ELSE <<>>

Begin(n) == [sc |-> n, ld |-> FALSE, data |-> 0, D |-> -1, ws |-> {}, sp |-> Spurious,
             th |-> [t \in 0..(Len(Scens[n]) - 1) |-> [pc |-> IF Prog(n, t) = <<>> THEN "done" ELSE "op", k |-> 1, v |-> 0]]]
Goto(x, t, p) == [x EXCEPT !.th[t].pc = p]
Out(x, ev) == [x |-> x, ev |-> ev, pick |-> 0]
Ret(x, t, r) == Out([x EXCEPT !.D = IF @ = t THEN -1 ELSE @, !.th[t].k = @ + 1, !.th[t].v = 0,
                              !.th[t].pc = IF x.th[t].k >= Len(Prog(x.sc, t)) THEN "done" ELSE "op"], <<[k |-> "r", r |-> r]>>)
First(o) == CASE o \in {"L", "Y"} -> "D2" [] o \in {"T", "X"} -> "A1" [] o = "U" -> "A8" [] o = "I" -> "A0"
NeedD == {"D1", "D2", "D3", "RL"}
En(x, t) == /\ t = 0 \/ x.th[0].pc = "done"
            /\ x.th[t].pc \notin {"done", "wait"}
            /\ x.th[t].pc \in NeedD => x.D = -1
Failing(x, t) == OpOf(x, t) \in {"X", "Y"}   \* the assignment throws
Load(x, t) == [x EXCEPT !.data = Val(t, x.th[t].k)]
Awake(x, t) == [x EXCEPT !.ws = @ \ {t}, !.th[t].pc = "RL"]
\* the possible outcomes of the action at the point of thread t
Act(x0, t) ==
  LET pc == x0.th[t].pc
      x == IF pc \in NeedD THEN [x0 EXCEPT !.D = t] ELSE x0
      one == CASE pc = "A0" -> Ret(x, t, <<IF x.ld THEN 1 ELSE 0>>)
               [] pc = "A1" -> IF x.ld THEN Ret(x, t, <<0>>) ELSE Out(Goto(x, t, "D1"), <<>>)
               [] pc = "D1" -> Out(Goto(x, t, "A2"), <<>>)
               [] pc = "A2" -> IF x.ld THEN Ret(x, t, <<0>>) ELSE IF Failing(x, t) THEN Ret(x, t, <<2>>) ELSE Out(Goto(Load(x, t), t, "A3"), <<>>)
               [] pc = "A3" -> Ret([x EXCEPT !.ld = TRUE], t, <<1>>)
               [] pc = "D2" -> Out(Goto(x, t, "A4"), <<>>)
               [] pc = "A4" -> IF ~x.ld /\ Failing(x, t) THEN Ret(x, t, <<2>>)
                               ELSE Out(IF x.ld THEN Goto(x, t, "A6") ELSE Goto(Load(x, t), t, "A5"), <<>>)
               [] pc = "A5" -> Ret([x EXCEPT !.ld = TRUE], t, <<>>)
               [] pc = "A6" -> Out(IF x.ld THEN Goto(x, t, "W") ELSE IF Failing(x, t) THEN Goto(x, t, "NF") ELSE Goto(Load(x, t), t, "A5"), <<>>)
               [] pc = "W"  -> Out(Goto([x EXCEPT !.D = -1, !.ws = @ \cup {t}], t, "wait"), <<>>)
               [] pc = "RL" -> Out(Goto(x, t, "A6"), <<>>)
               [] pc = "A8" -> IF x.ld THEN Out(Goto(x, t, "D3"), <<>>) ELSE Ret(x, t, <<0>>)
               [] pc = "D3" -> Out(Goto(x, t, "A9"), <<>>)
               [] pc = "A9" -> IF x.ld THEN Out(Goto([x EXCEPT !.th[t].v = x.data], t, "AA"), <<>>) ELSE Ret(x, t, <<0>>)
               [] pc = "AA" -> Out(Goto([x EXCEPT !.ld = FALSE], t, "NO"), <<>>)
               [] pc = "NF" -> Ret(x, t, <<2>>)   \* passes the notification on, then the exception leaves
               [] OTHER -> Ret(x, t, <<1, x.th[t].v>>)
  IN IF pc \notin {"NO", "NF"} \/ x.ws = {} THEN {one}
     ELSE {[Ret(Awake(x, w), t, IF pc = "NF" THEN <<2>> ELSE <<1, x.th[t].v>>) EXCEPT !.pick = IF Cardinality(x.ws) > 1 THEN w ELSE 0] : w \in x.ws}

RECURSIVE Explain(_, _, _)
Explain(S, t, ev) ==
  IF ev = <<>> THEN S
  ELSE LET e == Head(ev)
           S2 == IF e.k = "i" THEN {Call(s, [op |-> e.op, a |-> e.a, t |-> t]) : s \in S}
                 ELSE {Forget(y, t) : y \in {z \in UNION {Closure(s) : s \in S} : z.pend[t].st = "d" /\ z.pend[t].r = e.r}}
       IN Explain(S2, t, Tail(ev))

Take(t) ==
  /\ En(g, t)
  /\ LET i == <<[k |-> "i", op |-> Name(OpOf(g, t)), a |-> Args(g, t)]>>
         y == Goto(g, t, First(OpOf(g, t)))
         R == IF g.th[t].pc # "op" THEN Act(g, t)
              ELSE IF ~En(y, t) THEN {Out(y, i)}
              ELSE {[z EXCEPT !.ev = i \o @] : z \in Act(y, t)}
     IN \E r \in R : /\ g' = r.x /\ A' = Explain(A, t, r.ev)
                     /\ path' = path \o " " \o ToString(t) \o (IF r.pick = 0 THEN "" ELSE " " \o ToString(r.pick))
Spur(t) == /\ g.th[t].pc = "wait" /\ g.sp > 0 /\ \E u \in T : En(g, u)
           /\ g' = [Awake(g, t) EXCEPT !.sp = @ - 1]
           /\ A' = A /\ path' = path \o " " \o ToString(100 + t)   \* 100: spurious
Init == (\E n \in 1..Len(Scens) : g = Begin(n)) /\ A = {Vacant} /\ path = ""
Next == \E t \in T : Take(t) \/ Spur(t)
Spec == Init /\ [][Next]_vars
EmitEdge == Emit => PrintT("EDGE:" \o ToString(g.sc) \o path')
NoPath == <<g, A>>
NoHistory == g
---------------------------------------------------------------------------
Refines == A # {}
Progress == (~\E t \in T : En(g, t)) => \E s \in UNION {Closure(y) : y \in A} : MayBlock(s)
\* the flag and the slot of the abstract state agree at rest
AtRest == (\A t \in T : g.th[t].pc \in {"op", "done"}) => \A s \in A : s.slot = (IF g.ld THEN <<g.data>> ELSE <<>>)
\* a loader sleeps only while the slot is full or somebody is on the way to wake one
Asleep == g.ws # {} /\ ~g.ld => \E t \in T : g.th[t].pc \in {"NO", "NF", "RL", "A2", "A3", "A4", "A5", "A6", "A9", "AA", "W"}
=============================================================================

----------------------------- MODULE QueueImpl -----------------------------
(* The two-vector queues as they are built: SimpleQueue (Kind S),             *)
(* BlockingQueue (B), BlockingPriorityQueue (P).  Producers append to pu      *)
(* under the push lock, consumers take from pl under the pull lock and fetch  *)
(* pu when pl is empty; fl is the empty flag, ws the threads asleep.          *)
(*                                                                            *)
(* A step runs a thread from one point of synchronisation (lock, atomic,      *)
(* wait, notify) to the next one.  A carries the states of ConcQueue that     *)
(* explain what the calls have returned so far: the refinement is A # {}.     *)
(* Paths (thread ids) become schedules for the real code.                     *)
EXTENDS ConcQueue, TLC, Json, IOUtils
CONSTANTS Kind,
          Spurious,   \* budget of spurious wake-ups
          Timeouts,   \* budget of timeouts while something else can run
          Emit
VARIABLES g, A, path
vars == <<g, A, path>>

\* the scenarios; in one of them element t+1 is what thread t calls, thread 0 before the others start
Scens == JsonDeserialize(IOEnv.SCENS)
ThreadsOf(n) == 0..(Len(Scens[n]) - 1)
Prog(n, t) == Scens[n][t + 1]
T == DOMAIN g.th
OpOf(x, t) == Prog(x.sc, t)[x.th[t].k]
Val(t, k) == 10 * t + k          \* the k-th call of thread t inserts this
Name(o) == CASE o = "p" -> "push" [] o = "P" -> "pushp" [] o = "v2" -> "pushv" [] o = "o" -> "try" [] o = "b" -> "pop"
             [] o = "w" -> "timed" [] o = "f" -> "poc" [] o = "k" -> "peek" [] o = "s" -> "size" [] o = "m" -> "empty"
             [] o = "c" -> "clear" [] o \in {"x", "X"} -> "fail"
Args(x, t) == LET o == OpOf(x, t)  v == Val(t, x.th[t].k)
              IN IF o \in {"p", "P"} THEN <<v>> ELSE IF o = "v2" THEN <<v, 100 + v>> ELSE <<>>
New(x, t) == Args(x, t)
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Last(q) == q[Len(q)]
Chop(q) == SubSeq(q, 1, Len(q) - 1)

\* ---- the real state.  pl is kept in removal order reversed, as in the code
Start(n) ==
         [sc |-> n, pu |-> <<>>, pl |-> <<>>, pr |-> <<>>, fl |-> TRUE, Lu |-> -1, Ll |-> -1, ws |-> {},
          th |-> [t \in ThreadsOf(n) |-> [pc |-> IF Prog(n, t) = <<>> THEN "done" ELSE "op", k |-> 1, v |-> <<>>, go |-> "", to |-> FALSE]],
          sp |-> Spurious, tb |-> Timeouts]

Goto(x, t, p) == [x EXCEPT !.th[t].pc = p]
FreeU(x) == [x EXCEPT !.Lu = -1]
FreeL(x) == [x EXCEPT !.Ll = -1]
FreeOwn(x, t) == [x EXCEPT !.Lu = IF @ = t THEN -1 ELSE @, !.Ll = IF @ = t THEN -1 ELSE @]

\* an outcome of a step: the new real state and the events it produces
Out(x, ev) == [x |-> x, ev |-> ev]
\* return r and go to the next call
Ret(x, t, r) == LET y == FreeOwn(x, t)
                IN Out([y EXCEPT !.th[t].k = @ + 1, !.th[t].v = <<>>, !.th[t].go = "", !.th[t].to = FALSE,
                                 !.th[t].pc = IF x.th[t].k >= Len(Prog(x.sc, t)) THEN "done" ELSE "op"], <<[k |-> "r", r |-> r]>>)

TakeP(x, t) == [x EXCEPT !.th[t].v = <<1, Head(x.pr)>>, !.pr = Tail(@)]
TakeL(x, t) == [x EXCEPT !.th[t].v = <<1, Last(x.pl)>>, !.pl = Chop(@)]

RECURSIVE Cont(_, _, _), Check(_, _, _), Look(_, _, _)
\* checkPullAndSwap, then continue at go
Check(x, t, go) == IF x.pl = <<>> THEN Out([Goto(x, t, "CL") EXCEPT !.th[t].go = go], <<>>) ELSE Cont(x, t, go)
\* with the pull lock: take the front if there is one, else continue at none
Look(x, t, none) == IF x.pr # <<>> THEN Check(TakeP(x, t), t, "have") ELSE Cont(x, t, none)
Cont(x, t, go) ==
  LET o == OpOf(x, t) IN
  CASE go = "have" -> IF o \in {"b", "w", "f", "o"} THEN Ret(x, t, x.th[t].v) ELSE Ret(x, t, <<0>>)
    [] go = "first" -> \* try_pop after its first check
         IF Kind = "S" THEN Out(Goto(x, t, "SA"), <<>>)
         ELSE IF x.pl # <<>> THEN Check(TakeL(x, t), t, "have")
         ELSE IF o = "o" \/ (o = "w" /\ x.th[t].to) THEN Ret(x, t, <<0>>)
         ELSE Out(Goto(FreeL(x), t, "L4"), IF o = "f" THEN <<[k |-> "call"]>> ELSE <<>>)
    [] go = "second" -> IF x.pl # <<>> THEN Check(TakeL(x, t), t, "have") ELSE Out(Goto(x, t, "W"), <<>>)
    [] go = "try1" -> Check(x, t, "first")
    [] go = "try2" -> Check(x, t, "second")
    [] go = "woken" -> IF x.pl # <<>> THEN Check(TakeL(x, t), t, "have") ELSE Out(Goto(FreeL(x), t, "T1"), <<>>)

First(o) == CASE o \in {"p", "v2", "x"} -> "U1" [] o \in {"P", "X"} -> "PP" [] o \in {"o", "b", "w", "f"} -> "T1"
              [] o = "k" -> "K1" [] o = "s" -> "S1" [] o = "m" -> "M1" [] o = "c" -> "C1"
NeedU == {"U1", "U3", "CL", "S2", "C2"}
NeedL == {"U2", "PP", "T1", "L4", "K1", "S1", "C1", "RL"}
Started(x, t) == t = 0 \/ x.th[0].pc = "done"
En(x, t) == /\ Started(x, t) /\ x.th[t].pc \notin {"done", "wait"}
            /\ x.th[t].pc \in NeedU => x.Lu = -1
            /\ x.th[t].pc \in NeedL => x.Ll = -1

Fail(o) == o \in {"x", "X"}
\* the action at the point pc of thread t (enabled)
Act(x0, t) ==
  LET pc == x0.th[t].pc
      o == OpOf(x0, t)
      a == New(x0, t)
      x == IF pc \in NeedU THEN [x0 EXCEPT !.Lu = t] ELSE IF pc \in NeedL THEN [x0 EXCEPT !.Ll = t] ELSE x0
  IN CASE pc = "U1" -> IF x.pu # <<>> THEN (IF Fail(o) THEN Ret(x, t, <<0>>) ELSE Ret([x EXCEPT !.pu = @ \o a], t, <<>>))
                       ELSE IF Kind = "S" THEN Out(Goto(FreeU(x), t, "U2"), <<>>) ELSE Out(Goto(x, t, "A1"), <<>>)
       [] pc = "A1" -> IF x.fl THEN Out(Goto(FreeU(x), t, "U2"), <<>>)
                       ELSE IF Fail(o) THEN Ret(x, t, <<0>>) ELSE Out(Goto([x EXCEPT !.pu = @ \o a], t, "A2"), <<>>)
       [] pc = "A2" -> IF x.fl THEN Out(Goto([x EXCEPT !.fl = FALSE], t, "NO"), <<>>) ELSE Ret(x, t, <<>>)
       [] pc = "U2" -> IF x.pl = <<>>
                       THEN (IF Fail(o) THEN Ret(x, t, <<0>>) ELSE Out(Goto([x EXCEPT !.pl = Rev(a)], t, "A3"), <<>>))
                       ELSE Out(Goto(x, t, "U3"), <<>>)
       [] pc = "U3" -> IF Fail(o) THEN Ret(x, t, <<0>>)
                       ELSE LET y == [x EXCEPT !.pu = @ \o a] IN IF Kind = "S" THEN Ret(y, t, <<>>) ELSE Out(Goto(y, t, "A3"), <<>>)
       [] pc = "A3" -> LET y == [x EXCEPT !.fl = FALSE] IN IF Kind = "S" THEN Ret(y, t, <<>>) ELSE Out(Goto(y, t, "NO"), <<>>)
       [] pc = "NO" -> Ret([x EXCEPT !.ws = {}, !.th = [u \in T |-> IF u \in x.ws THEN [@[u] EXCEPT !.pc = "RL"] ELSE @[u]]], t, <<>>)
       [] pc = "PP" -> IF Fail(o) THEN Ret(x, t, <<0>>) ELSE Out(Goto([x EXCEPT !.pr = @ \o a], t, "A2"), <<>>)
       [] pc = "T1" -> Look(x, t, "try1")
       [] pc = "L4" -> Look(x, t, "try2")
       [] pc = "CL" -> IF x.pu # <<>> THEN Cont(FreeU([x EXCEPT !.pl = Rev(x.pu), !.pu = <<>>]), t, x.th[t].go)
                       ELSE IF x.pr = <<>> THEN Out(Goto(x, t, "CA"), <<>>) ELSE Cont(FreeU(x), t, x.th[t].go)
       [] pc = "CA" -> Cont(FreeU([x EXCEPT !.fl = TRUE]), t, x.th[t].go)
       [] pc = "SA" -> IF x.fl THEN Ret(x, t, <<0>>) ELSE Check(TakeL(x, t), t, "have")
       [] pc = "W"  -> Out(Goto(FreeL([x EXCEPT !.ws = @ \cup {t}]), t, "wait"), <<>>)
       [] pc = "RL" -> Look(x, t, "woken")
       [] pc = "K1" -> Ret(x, t, IF x.pr # <<>> THEN <<1, Head(x.pr)>> ELSE IF x.pl # <<>> THEN <<1, Last(x.pl)>> ELSE <<0>>)
       [] pc = "S1" -> Out(Goto(x, t, "S2"), <<>>)
       [] pc = "S2" -> Ret(x, t, <<Len(x.pl) + Len(x.pu)>>)
       [] pc = "M1" -> Ret(x, t, <<IF x.fl THEN 1 ELSE 0>>)
       [] pc = "C1" -> Out(Goto(x, t, "C2"), <<>>)
       [] pc = "C2" -> Out(Goto([x EXCEPT !.pl = <<>>, !.pu = <<>>, !.pr = <<>>], t, "C3"), <<>>)
       [] pc = "C3" -> Ret([x EXCEPT !.fl = TRUE], t, <<>>)

\* ---- the abstract states that explain the events of thread t
RECURSIVE Explain(_, _, _)
Explain(S, t, ev) ==
  IF ev = <<>> THEN S
  ELSE LET e == Head(ev)
           C == UNION {Closure(Kind, s) : s \in S}
           S2 == CASE e.k = "r" -> {Forget(s, t) : s \in {y \in C : y.pend[t].st = "d" /\ y.pend[t].r = e.r}}
                   [] e.k = "call" -> {[s EXCEPT !.pend[t].em = FALSE, !.pend[t].ca = 1] : s \in {y \in C : y.pend[t].em}}
                   [] e.k = "i" -> {Call(s, t, e.op, e.a) : s \in S}
                   [] e.k = "to" -> {[s EXCEPT !.pend[t].to = TRUE] : s \in S}
       IN Explain(S2, t, Tail(ev))

Take(t) ==
  /\ En(g, t)
  /\ LET i == <<[k |-> "i", op |-> Name(OpOf(g, t)), a |-> Args(g, t)]>>
         y == Goto(g, t, First(OpOf(g, t)))
         r == IF g.th[t].pc # "op" THEN Act(g, t)
              ELSE IF ~En(y, t) THEN Out(y, i)
              ELSE LET z == Act(y, t) IN Out(z.x, i \o z.ev)
     IN g' = r.x /\ A' = Explain(A, t, r.ev)
  /\ path' = path \o " " \o ToString(t)

Wake(x, t) == [x EXCEPT !.ws = @ \ {t}, !.th[t].pc = "RL"]
Spur(t) == /\ g.th[t].pc = "wait" /\ g.sp > 0 /\ \E u \in T : En(g, u)
           /\ g' = [Wake(g, t) EXCEPT !.sp = @ - 1]
           /\ A' = A /\ path' = path \o " " \o ToString(100 + t)   \* 100: spurious
Timeout(t) == /\ g.th[t].pc = "wait" /\ OpOf(g, t) = "w"
              /\ \/ ~\E u \in T : En(g, u)
                 \/ g.tb > 0
              /\ g' = [Wake(g, t) EXCEPT !.th[t].to = TRUE, !.tb = IF \E u \in T : En(g, u) THEN @ - 1 ELSE @]
              /\ A' = Explain(A, t, <<[k |-> "to"]>>) /\ path' = path \o " " \o ToString(t)

Init == (\E n \in 1..Len(Scens) : g = Start(n)) /\ A = {Empty} /\ path = ""
Next == \E t \in T : Take(t) \/ Spur(t) \/ Timeout(t)
Spec == Init /\ [][Next]_vars
EmitEdge == Emit => PrintT("EDGE:" \o ToString(g.sc) \o path')
NoPath == <<g, A>>
NoHistory == [g EXCEPT !.tb = 0]
---------------------------------------------------------------------------
Refines == A # {}
Still == ~\E t \in T : En(g, t) \/ (g.th[t].pc = "wait" /\ OpOf(g, t) = "w")
\* nothing can run: only calls that may block are left, and they may block
Progress == Still => \E s \in UNION {Closure(Kind, y) : y \in A} : AllBlocked(s)
AtRest == (\A t \in T : g.th[t].pc = "done") => g.fl = (g.pl = <<>> /\ g.pu = <<>> /\ g.pr = <<>>)
\* the flag says empty only while nothing is inside, or an insertion is under way
Flagged == g.fl /\ (\A t \in T : g.th[t].pc \in {"op", "done", "wait"}) => g.pl = <<>> /\ g.pu = <<>> /\ g.pr = <<>>
Front2 == g.pl = <<>> /\ g.pr = <<>> /\ g.pu # <<>> => \E t \in T : g.th[t].pc \notin {"op", "done", "wait"}
=============================================================================

----------------------------- MODULE ConcQueue -----------------------------
(* Abstract specification of the three concurrent queues of gmlc::containers *)
(* (SimpleQueue, BlockingQueue, BlockingPriorityQueue): a pair of sequences   *)
(* (priority, ordinary) on which every call takes effect in one atomic step   *)
(* between its invocation and its return.                                     *)
(*                                                                            *)
(* A state s is a record                                                      *)
(*   n, p : the ordinary and the priority sequence                            *)
(*   pend : a function from threads to the pending call, a record             *)
(*          [op, a, st, r, to, em, ca]                                        *)
(*            st  "c" called, "d" has taken effect with result r              *)
(*            to  the call's timeout has elapsed                              *)
(*            em  popOrCall has found the queue empty, functor not yet called *)
(*            ca  number of functor calls so far                              *)
(*                                                                            *)
(* Named deviations from strict atomicity, deliberately part of the           *)
(* specification of the two blocking queues (Kind # "S"):                     *)
(*   D1 EmptyEarly  empty() may already be false while an insertion is        *)
(*                  in flight;                                                *)
(*   D2 PeekMiss    try_peek may miss elements while an insertion is in       *)
(*                  flight;                                                   *)
(*   D3 SizeMiss    size() may leave out elements whose insertion is still    *)
(*                  in flight.                                                *)
EXTENDS Integers, Sequences, FiniteSets

Pushes  == {"push", "emplace", "pushv"}
PPushes == {"pushp", "emplacep"}
Pops    == {"try", "pop", "timed", "poc"}
Fails   == {"fail"}   \* an insertion whose element constructor throws: no effect
Inserts == Pushes \cup PPushes \cup Fails

NoCalls == [x \in {} |-> 0]
Empty == [n |-> <<>>, p |-> <<>>, pend |-> NoCalls]

IsEmpty(s) == s.n = <<>> /\ s.p = <<>>
Count(s)   == Len(s.n) + Len(s.p)
Front(s)   == IF s.p # <<>> THEN Head(s.p) ELSE Head(s.n)
DropFront(s) == IF s.p # <<>> THEN [s EXCEPT !.p = Tail(@)] ELSE [s EXCEPT !.n = Tail(@)]

Threads(s) == DOMAIN s.pend
InFlight(s, t) == \E u \in Threads(s) \ {t} : s.pend[u].op \in Inserts
\* number of elements whose insertion took effect but has not returned
Invisible(s) == LET ps == {u \in Threads(s) : s.pend[u].op \in Inserts /\ s.pend[u].st = "d"}
                    RECURSIVE Sum(_)
                    Sum(S) == IF S = {} THEN 0
                              ELSE LET x == CHOOSE x \in S : TRUE
                                   IN Len(s.pend[x].a) + Sum(S \ {x})
                IN Sum(ps)

Call(s, t, op, a) ==
    [s EXCEPT !.pend = [u \in (DOMAIN @) \cup {t} |->
        IF u = t THEN [op |-> op, a |-> a, st |-> "c", r |-> <<>>, to |-> FALSE, em |-> FALSE, ca |-> 0]
        ELSE @[u]]]
Done(s, t, r) == [s EXCEPT !.pend[t].st = "d", !.pend[t].r = r]
Forget(s, t)  == [s EXCEPT !.pend = [u \in (DOMAIN @) \ {t} |-> @[u]]]

(* the atomic effect of the pending call of thread t: the set of possible      *)
(* successor states; empty when the call cannot take effect now (it blocks)    *)
Effect(kind, s, t) ==
  LET c == s.pend[t] IN
  CASE c.op \in Pushes  -> {Done([s EXCEPT !.n = @ \o c.a], t, <<>>)}
    [] c.op \in PPushes -> {Done([s EXCEPT !.p = @ \o c.a], t, <<>>)}
    [] c.op \in Fails   -> {Done(s, t, <<0>>)}
    [] c.op \in {"try"} -> IF IsEmpty(s) THEN {Done(s, t, <<0>>)}
                           ELSE {Done(DropFront(s), t, <<1, Front(s)>>)}
    [] c.op = "pop"     -> IF IsEmpty(s) THEN {} ELSE {Done(DropFront(s), t, <<1, Front(s)>>)}
    [] c.op = "timed"   -> IF IsEmpty(s) THEN (IF c.to THEN {Done(s, t, <<0>>)} ELSE {})
                           ELSE {Done(DropFront(s), t, <<1, Front(s)>>)}
    [] c.op = "poc"     -> IF IsEmpty(s) THEN (IF c.em THEN {} ELSE {[s EXCEPT !.pend[t].em = TRUE]})
                           ELSE {Done(DropFront(s), t, <<1, Front(s)>>)}
    [] c.op = "peek"    -> (IF IsEmpty(s) THEN {Done(s, t, <<0>>)} ELSE {Done(s, t, <<1, Front(s)>>)})
                           \cup (IF kind # "S" /\ InFlight(s, t) THEN {Done(s, t, <<0>>)} ELSE {})   \* D2
                           \* D2: a miss of the in-flight front shows the next element
                           \cup (IF kind # "S" /\ InFlight(s, t) /\ Count(s) > 1
                                 THEN {Done(s, t, <<1, Front(DropFront(s))>>)} ELSE {})
    [] c.op = "size"    -> {Done(s, t, <<k>>) : k \in
                              IF kind = "S" THEN {Count(s)} ELSE (Count(s) - Invisible(s))..Count(s)} \* D3
    [] c.op = "empty"   -> {Done(s, t, <<IF IsEmpty(s) THEN 1 ELSE 0>>)}
                           \cup (IF kind # "S" /\ InFlight(s, t) THEN {Done(s, t, <<0>>)} ELSE {})    \* D1
    [] c.op = "clear"   -> {Done([s EXCEPT !.n = <<>>, !.p = <<>>], t, <<>>)}
    [] c.op = "reserve" -> {Done(s, t, <<>>)}
    [] OTHER            -> {}

CanStep(s, t) == s.pend[t].st = "c"

Step1(kind, s) == UNION {Effect(kind, s, t) : t \in {u \in Threads(s) : CanStep(s, u)}}

RECURSIVE CloseRec(_, _, _)
CloseRec(kind, all, frontier) ==
  IF frontier = {} THEN all
  ELSE LET nxt == (UNION {Step1(kind, s) : s \in frontier}) \ all
       IN CloseRec(kind, all \cup nxt, nxt)
\* all states reachable from s by pending calls taking effect
Closure(kind, s) == CloseRec(kind, {s}, {s})

\* a call that is legitimately blocked: a blocking pop on an empty queue
Blocked(s, t) == /\ s.pend[t].op \in {"pop", "poc"}
                 /\ s.pend[t].st = "c"
                 /\ IsEmpty(s)
\* every pending call is legitimately blocked
AllBlocked(s) == \A t \in Threads(s) : Blocked(s, t)
=============================================================================

------------------------------ MODULE StackBuf ------------------------------
(* C15, C16, C17: StackBuffer / StackBufferRaw under scripts of calls.        *)
(*                                                                            *)
(* State of one object: q, the stored blocks bottom to top as <<id, size>>;   *)
(* cap, its capacity (-1: not determined by the specification, the next       *)
(* observation fixes it); rev, reverse() was used since the stack was last    *)
(* empty.  After every call each object is observed:                          *)
(*   <<object, capacity, count, nextDataSize, empty, largest size offered,    *)
(*     smallest size refused>>                                                *)
(* Judge "LIFO" (C15), "SPACE" (C16), "ALL" (C17).                            *)
EXTENDS TraceBase
CONSTANT Judge

Threw == -1000000000
Hdr == 8                     \* descriptor bytes per block
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE q[1][2] + Hdr + Total(Tail(q))
Rev(q) == [k \in 1..Len(q) |-> q[Len(q) + 1 - k]]
Max2(a, b) == IF a > b THEN a ELSE b
Top(q) == q[Len(q)]
Front(q) == SubSeq(q, 1, Len(q) - 1)

Fresh(c) == [q |-> <<>>, cap |-> c, rev |-> FALSE]
Start0(h) ==
  {[b |-> [o \in 0..2 |-> IF o = 0 THEN Fresh(IF h.cap < 0 THEN 0 ELSE h.cap) ELSE Fresh(0)],
    last |-> <<>>, done |-> FALSE]}

Content == Judge # "SPACE"
Space   == Judge # "LIFO"

\* one observation of one object against its state
ObsOk(b, x) ==
  /\ Content => /\ x[3] = Len(b.q)
                /\ x[4] = (IF b.q = <<>> THEN 0 ELSE Top(b.q)[2])
                /\ x[5] = (IF b.q = <<>> THEN 1 ELSE 0)
  /\ Space => /\ b.cap >= 0 => x[2] = b.cap
              /\ LET free == Max2(0, x[2] - Total(b.q) - Hdr)
                 IN /\ x[6] <= free
                    /\ x[7] = x[6] + 1
                    /\ ~b.rev => x[6] = free
Observe(bs, obs, old) ==
  LET seen(o) == {k \in 1..Len(obs) : obs[k][1] = o}
      fix(o) == IF seen(o) # {} /\ bs[o].cap < 0 THEN [bs[o] EXCEPT !.cap = obs[CHOOSE k \in seen(o) : TRUE][2]] ELSE bs[o]
  IN IF \A k \in 1..Len(obs) : ObsOk(bs[obs[k][1]], obs[k])
     THEN {[b |-> [o \in 0..2 |-> fix(o)], last |-> obs, done |-> FALSE]} ELSE {}

\* the state after the call on object o, for every outcome the specification allows
\* only the sizes of the blocks matter where this is used: it does not matter which one of several equal ones goes
RemoveSize(q, n) == LET K == {j \in 1..Len(q) : q[j][2] = n}  k == CHOOSE j \in K : \A m \in K : j <= m
                    IN IF K = {} THEN {} ELSE {SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))}
SetQ(b, q) == [b EXCEPT !.q = q, !.rev = IF q = <<>> THEN FALSE ELSE @]

PushNext(s, e) ==
  LET b == s.b[e.o] IN
  IF e.a[1] = 0                                   \* null block or size <= 0
  THEN IF e.r[1] = 0 THEN {s.b} ELSE {}
  ELSE IF Space /\ e.r[1] # e.r[2] THEN {}
  ELSE IF e.r[1] = 1 THEN {[s.b EXCEPT ![e.o].q = Append(@, <<e.a[1], e.a[2]>>)]}
  ELSE {s.b}

PopNext(s, e) ==
  LET b == s.b[e.o] IN
  IF Judge = "SPACE"
  THEN IF e.r[1] > 0 THEN {[s.b EXCEPT ![e.o] = SetQ(b, q2)] : q2 \in RemoveSize(b.q, e.r[1])} ELSE {s.b}
  ELSE IF b.q = <<>> THEN (IF e.r[1] = 0 /\ e.r[3] = 1 THEN {s.b} ELSE {})
  ELSE IF e.a[1] < Top(b.q)[2] THEN (IF e.r[1] = -Top(b.q)[2] /\ e.r[3] = 1 THEN {s.b} ELSE {})
  ELSE IF e.r = <<Top(b.q)[2], Top(b.q)[1], 1>> THEN {[s.b EXCEPT ![e.o] = SetQ(b, Front(b.q))]}
  ELSE {}

ResizeNext(s, e) ==
  LET b == s.b[e.o]  n == e.a[1]
      fits == Total(b.q) <= n
  IN IF n < 0 THEN (IF e.r[1] \in {0, Threw} THEN {s.b} ELSE {})                          \* refused, by exception or by its result
     ELSE IF e.r[1] = Threw THEN (IF fits /\ ~b.rev THEN {} ELSE {s.b})
     ELSE IF (fits \/ b.q = <<>>) /\ e.r[1] = 1 THEN {[s.b EXCEPT ![e.o].cap = n]} ELSE {}

Next0(s, e) ==
  CASE e.op = "push" -> PushNext(s, e)
    [] e.op = "pop" -> PopNext(s, e)
    [] e.op = "reverse" -> {[s.b EXCEPT ![e.o].q = Rev(@), ![e.o].rev = IF s.b[e.o].q = <<>> THEN FALSE ELSE TRUE]}
    [] e.op = "clear" -> {[s.b EXCEPT ![e.o] = [@ EXCEPT !.q = <<>>, !.rev = FALSE]]}
    [] e.op = "new" -> {[s.b EXCEPT ![e.o] = Fresh(e.a[1])]}
    [] e.op = "resize" -> ResizeNext(s, e)
    [] e.op \in {"mctor", "massign"} -> {[s.b EXCEPT ![e.a[1]] = s.b[e.o], ![e.o] = Fresh(-1)]}
    [] e.op \in {"cctor", "cassign"} -> {[s.b EXCEPT ![e.a[1]] = s.b[e.o]]}
    [] e.op = "swap" -> {[s.b EXCEPT ![e.a[1]] = s.b[e.o], ![e.o] = s.b[e.a[1]]]}
    [] OTHER -> {}

\* calls that may not change anything an observer can see
Unchanging(s, e) == \/ e.op = "push" /\ e.r[1] = 0
                    \/ e.op = "pop" /\ e.r[1] <= 0
                    \/ e.op = "resize" /\ (e.r[1] = Threw \/ e.a[1] < 0)

Post0(h, s, e) ==
  CASE e.k = "obs" -> Observe(s.b, e.obs, <<>>)
    [] e.k = "op" ->
         IF e.r # <<>> /\ e.r[1] = Threw /\ e.op # "resize" THEN {}
         ELSE IF Unchanging(s, e) /\ e.obs # s.last THEN {}
         ELSE UNION {Observe(b2, e.obs, s.last) : b2 \in Next0(s, e)}
    [] e.k = "end" -> IF (Judge = "ALL" => e.leak = 0) /\ (Judge = "SPACE" => e.guard = 1) THEN {s} ELSE {}
    [] OTHER -> {}            \* Crash (memory error), Hang
=============================================================================

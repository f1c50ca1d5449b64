------------------------------- MODULE CircBuf -------------------------------
(* C18, C19, C20: CircularBuffer / CircularBufferRaw under scripts of calls.  *)
(*                                                                            *)
(* State of one object: q, the stored blocks oldest first as <<id, size>>;    *)
(* cap (-1: fixed by the next observation); fresh, newly created or cleared;  *)
(* run, bytes used by all blocks pushed since then: while they all fit the    *)
(* smallest capacity since (lo), no layout has had a reason to wrap.          *)
(* Observation of an object, as for the stack:                                *)
(*   <<object, capacity, -1, nextDataSize, empty, largest size offered,       *)
(*     smallest size refused>>                                                *)
(* Judge "FIFO" (C18), "SPACE" (C19), "ALL" (C20).                            *)
EXTENDS TraceBase
CONSTANT Judge

Threw == -1000000000
Hdr == 4
RECURSIVE Total(_), MaxSize(_)
Total(q) == IF q = <<>> THEN 0 ELSE q[1][2] + Hdr + Total(Tail(q))
MaxSize(q) == IF q = <<>> THEN 0 ELSE LET m == MaxSize(Tail(q)) IN IF q[1][2] > m THEN q[1][2] ELSE m
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

Fresh(c) == [q |-> <<>>, cap |-> c, fresh |-> TRUE, run |-> 0, lo |-> c]
Start0(h) ==
  {[b |-> [o \in 0..2 |-> IF o = 0 THEN Fresh(IF h.cap < 0 THEN 0 ELSE h.cap) ELSE Fresh(0)], last |-> <<>>]}

Content == Judge # "SPACE"
Space   == Judge = "SPACE"

ObsOk(b, x) ==
  /\ Content => /\ x[4] = (IF b.q = <<>> THEN 0 ELSE b.q[1][2])
                /\ x[5] = (IF b.q = <<>> THEN 1 ELSE 0)
  /\ Judge = "ALL" /\ b.cap >= 0 => x[2] = b.cap
  /\ Space => /\ Total(b.q) <= x[2]
              /\ b.fresh /\ b.q = <<>> => x[6] = Max2(0, x[2] - Hdr) /\ x[7] = x[6] + 1
              /\ b.q = <<>> => x[7] > (x[2] \div 2) - Hdr
              /\ x[6] > 0 => x[6] + Hdr + Total(b.q) <= x[2]
  /\ Judge = "ALL" /\ b.q = <<>> => x[7] > (x[2] \div 2) - Hdr
Observe(bs, obs) ==
  LET seen(o) == {k \in 1..Len(obs) : obs[k][1] = o}
      fix(o) == IF seen(o) # {} /\ bs[o].cap < 0
                THEN LET c == obs[CHOOSE k \in seen(o) : TRUE][2] IN [bs[o] EXCEPT !.cap = c, !.lo = c] ELSE bs[o]
  IN IF \A k \in 1..Len(obs) : ObsOk(bs[obs[k][1]], obs[k])
     THEN {[b |-> [o \in 0..2 |-> fix(o)], last |-> obs]} ELSE {}

\* only the sizes of the blocks matter where this is used: it does not matter which one of several equal ones goes
RemoveSize(q, n) == LET K == {j \in 1..Len(q) : q[j][2] = n}  k == CHOOSE j \in K : \A m \in K : j <= m
                    IN IF K = {} THEN {} ELSE {SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))}

PushNext(s, e) ==
  IF e.a[1] = 0 THEN (IF e.r[1] = 0 THEN {s.b} ELSE {})
  ELSE IF Space /\ e.r[1] # e.r[2] THEN {}
  ELSE IF e.r[1] = 1 THEN {[s.b EXCEPT ![e.o] = [@ EXCEPT !.q = Append(@, <<e.a[1], e.a[2]>>), !.fresh = FALSE,
                                                         !.run = @ + e.a[2] + Hdr]]}
  ELSE {s.b}

PopNext(s, e) ==
  LET b == s.b[e.o] IN
  IF Judge = "SPACE"
  THEN IF e.r[1] > 0 THEN {[s.b EXCEPT ![e.o].q = q2] : q2 \in RemoveSize(b.q, e.r[1])} ELSE {s.b}
  ELSE IF b.q = <<>> THEN (IF e.r[1] = 0 /\ e.r[3] = 1 THEN {s.b} ELSE {})
  ELSE IF e.a[1] < b.q[1][2] THEN (IF e.r[1] = -b.q[1][2] /\ e.r[3] = 1 THEN {s.b} ELSE {})
  ELSE IF e.r = <<b.q[1][2], b.q[1][1], 1>> THEN {[s.b EXCEPT ![e.o].q = Tail(b.q)]}
  ELSE {}

\* the most that oldest to newest can occupy: the blocks, plus what a wrap may have left unused at the end (there has
\* been no wrap while nothing was removed or all blocks since the start fit with room for another one)
Occupied(b) == Total(b.q) + (IF b.run = Total(b.q) \/ b.run + 8 <= b.lo THEN 0 ELSE Max2(7, MaxSize(b.q) + Hdr - 1))
ResizeNext(s, e) ==
  LET b == s.b[e.o]  n == e.a[1] IN
  IF e.r[1] = Threw
  THEN IF n >= b.cap \/ n > Occupied(b) \/ b.q = <<>> THEN {} ELSE {s.b}
  ELSE IF Total(b.q) <= n THEN {[s.b EXCEPT ![e.o] = [@ EXCEPT !.cap = n, !.lo = Min2(@, n)]]} ELSE {}

Next0(s, e) ==
  CASE e.op = "push" -> PushNext(s, e)
    [] e.op = "pop" -> PopNext(s, e)
    [] e.op = "clear" -> {[s.b EXCEPT ![e.o] = Fresh(@.cap)]}
    [] e.op = "new" -> {[s.b EXCEPT ![e.o] = Fresh(e.a[1])]}
    [] e.op = "resize" -> ResizeNext(s, e)
    [] e.op \in {"mctor", "massign"} -> {[s.b EXCEPT ![e.a[1]] = s.b[e.o], ![e.o] = Fresh(-1)]}
    [] e.op \in {"cctor", "cassign"} -> {[s.b EXCEPT ![e.a[1]] = s.b[e.o]]}
    [] OTHER -> {}

Unchanging(e) == \/ e.op = "push" /\ e.r[1] = 0
                 \/ e.op = "pop" /\ e.r[1] <= 0
                 \/ e.op = "resize" /\ e.r[1] = Threw

\* what two observations must agree on for the judged property
View(x) == IF Judge = "FIFO" THEN <<x[1], x[4], x[5], x[6], x[7]>> ELSE x
Same(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : View(a[k]) = View(b[k])
\* objects an operation did not involve keep every observer's answer; a copy's source too
Touched(e) == CASE e.op \in {"mctor", "massign"} -> {e.o, e.a[1]}
                [] e.op \in {"cctor", "cassign"} -> {e.a[1]}
                [] OTHER -> {e.o}
Untouched(s, e) == \A k \in 1..Len(e.obs) : e.obs[k][1] \notin Touched(e) => e.obs[k] = s.last[k]
CopyEqual(s, e) == \A j \in 1..Len(e.obs), k \in 1..Len(e.obs) :
   e.obs[j][1] = e.o /\ e.obs[k][1] = e.a[1] => \A f \in {2, 4, 5} : e.obs[j][f] = e.obs[k][f]

Post0(h, s, e) ==
  CASE e.k = "obs" -> Observe(s.b, e.obs)
    [] e.k = "op" ->
         IF e.r # <<>> /\ e.r[1] = Threw /\ e.op # "resize" THEN {}
         ELSE IF Unchanging(e) /\ ~Same(e.obs, s.last) THEN {}
         ELSE IF Judge = "ALL" /\ ~Untouched(s, e) THEN {}
         ELSE IF e.op \in {"cctor", "cassign"} /\ ~CopyEqual(s, e) THEN {}
         ELSE UNION {Observe(b2, e.obs) : b2 \in Next0(s, e)}
    [] e.k = "end" -> IF (Judge = "ALL" => e.leak = 0) /\ (Space => e.guard = 1) THEN {s} ELSE {}
    [] OTHER -> {}
=============================================================================

--------------------------- MODULE WorkQueueOps -----------------------------
(* Abstract specification of WorkQueue.                                       *)
(* A state s is a record                                                      *)
(*   sub     accepted blocks whose submission has been called, id -> thread   *)
(*   ret     accepted blocks whose submission call has returned               *)
(*   started, ended, taken   sets of block ids (taken: handed out by          *)
(*           getWorkBlock to a caller)                                        *)
(*   run     blocks being executed: set of [b, t, w], w = 1 on a worker       *)
(*   pend    pending calls: thread -> [op, a]                                 *)
(*   closing a close or the destructor has been called                        *)
(*   closed  a close or the destructor has returned                           *)
(*   rest    the harness saw every accepted block completed                   *)
(*   hi, me, lo, cnt, ratio   the three waiting sequences and the medium      *)
(*           counter, for the selection rule (single consumer)                *)
(*   alone   the thread whose call is the only one in progress, with nothing  *)
(*           having happened since it was called; -1 otherwise                *)
(* Judge: ONCE (C11)  WAKE (C35)  CLOSE (C13)  ORDER (C12)  REST (C36)        *)
(*        ALL (but ORDER)                                                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANT Judge

Jd(j) == Judge = j \/ (Judge = "ALL" /\ j # "ORDER")
DefaultRatio == 4
StartW(h) == {[sub |-> {}, ret |-> {}, started |-> {}, ended |-> {}, taken |-> {}, run |-> {},
               pend |-> [x \in {} |-> 0], closing |-> FALSE, closed |-> FALSE, rest |-> FALSE,
               hi |-> <<>>, me |-> <<>>, lo |-> <<>>, cnt |-> 0, ratio |-> DefaultRatio, alone |-> -1, due |-> {}]}

Range(q) == {q[k] : k \in 1..Len(q)}
Adds == {"addh", "addm", "addl", "addq"}
Closes == {"close", "destroy"}

\* ---- the selection rule of C12: the block the next take must deliver, and the state after it
NextBlock(s) ==
  IF s.hi # <<>> THEN <<Head(s.hi)>>
  ELSE IF s.cnt >= s.ratio /\ s.lo # <<>> THEN <<Head(s.lo)>>
  ELSE IF s.me # <<>> THEN <<Head(s.me)>>
  ELSE IF s.lo # <<>> THEN <<Head(s.lo)>>
  ELSE <<>>
AfterTake(s) ==
  IF s.hi # <<>> THEN [s EXCEPT !.hi = Tail(@)]
  ELSE IF s.cnt >= s.ratio /\ s.lo # <<>> THEN [s EXCEPT !.lo = Tail(@), !.cnt = 0]
  ELSE IF s.me # <<>> THEN [s EXCEPT !.me = Tail(@), !.cnt = @ + 1]
  ELSE IF s.lo # <<>> THEN [s EXCEPT !.lo = Tail(@)]
  ELSE s
Enqueue(s, op, a) ==
  CASE op \in {"addh", "addq"} -> [s EXCEPT !.hi = @ \o a]
    [] op = "addm" -> [s EXCEPT !.me = @ \o a]
    [] op = "addl" -> [s EXCEPT !.lo = @ \o a]

\* a negative count asks for the default: one more than the hardware threads, of which the harness shows 2
Workers(h) == IF h.cap < 0 THEN 3 ELSE h.cap
Waiting(s) == s.ret \ (s.started \cup s.taken)
BusyWorkers(s) == {x \in s.run : x.w = 1}
\* a pending submission is legitimate only while its own thread executes a block in it
Inline(s, t) == \E x \in s.run : x.w = 0

Call(s, e) == [s EXCEPT !.pend = [u \in (DOMAIN @) \cup {e.t} |->
                 IF u = e.t THEN [op |-> e.op, a |-> e.a] ELSE @[u]]]
Forget(s, t) == [s EXCEPT !.pend = [u \in (DOMAIN @) \ {t} |-> @[u]]]
Keep(c, s) == IF c THEN {s} ELSE {}

\* nothing can run (unless a timeout fires)
WakeOK(h, s) ==
  \/ s.closing
  \/ /\ Workers(h) > 0 => (Waiting(s) = {} \/ Cardinality(BusyWorkers(s)) >= Workers(h))
     /\ \A t \in DOMAIN s.pend : s.pend[t].op \in Adds => Inline(s, t)
ClosePending(s) == \E t \in DOMAIN s.pend : s.pend[t].op \in Closes
\* closing waits for blocks that are executing, and not for those that had not begun when it was first seen waiting
CloseOK(s) == ClosePending(s) => \E x \in s.run : s.due = {} \/ x.b \in s.due
Due(s) == IF ClosePending(s) /\ s.due = {} THEN [s EXCEPT !.due = {x.b : x \in s.run}] ELSE s
OnceOK(s) == s.closing \/ s.rest \/ s.run # {} \/ Waiting(s) = {}

\* no worker is between taking a block and executing it: the blocks waiting are exactly known
Settled(h, s) == Waiting(s) = {} \/ Cardinality(BusyWorkers(s)) >= Workers(h)
ObsOK(h, s, e, op) ==
  /\ (op \in {"numblock", "isempty"} /\ ~s.closing /\ s.alone = e.t /\ Settled(h, s)) =>
       e.r[1] = (IF op = "numblock" THEN Cardinality(Waiting(s)) ELSE IF Waiting(s) = {} THEN 1 ELSE 0)
  /\ (op = "wcount" /\ ~s.closing) => e.r[1] = Workers(h)

PostR(h, s, e) ==
  CASE e.k = "i" ->
         LET c == Call(s, e) IN
         IF e.op \in Adds THEN {LET x == [c EXCEPT !.sub = @ \cup Range(e.a)] IN Enqueue(x, e.op, e.a)}
         ELSE IF e.op \in Closes THEN {[c EXCEPT !.closing = TRUE]}
         ELSE IF e.op = "ratio" THEN {[c EXCEPT !.ratio = IF e.a[1] > 0 THEN e.a[1] ELSE DefaultRatio]}
         ELSE {c}
    [] e.k = "r" ->
         LET p == s.pend[e.t]  x == Forget(s, e.t) IN
         CASE p.op \in Adds ->
                LET y == [x EXCEPT !.ret = @ \cup Range(p.a)] IN
                Keep((Jd("ONCE") /\ Workers(h) = 0 /\ ~s.closing) => Range(p.a) \subseteq s.ended, y)
           [] p.op \in Closes ->
                Keep(Jd("CLOSE") => BusyWorkers(s) = {}, [x EXCEPT !.closed = TRUE])
           [] p.op = "wcount" ->
                Keep((Jd("CLOSE") /\ s.closed => e.r[1] = 0) /\ (Jd("REST") => ObsOK(h, s, e, p.op)), x)
           [] p.op \in {"numblock", "isempty"} -> Keep(Jd("REST") => ObsOK(h, s, e, p.op), x)
           [] p.op = "take" ->
                LET b == e.r[1] IN
                IF Judge = "ORDER"
                THEN Keep(NextBlock(s) = IF b = 0 THEN <<>> ELSE <<b>>, [AfterTake(x) EXCEPT !.taken = @ \cup {b}])
                \* a finished "required" block may surface here; it is never executed
                ELSE Keep((Jd("ONCE") /\ b # 0) => b \notin (s.started \cup s.taken),
                          [x EXCEPT !.taken = @ \cup {b}])
           [] OTHER -> {x}
    [] e.k = "st" ->
         LET y == [s EXCEPT !.started = @ \cup {e.b}, !.run = @ \cup {[b |-> e.b, t |-> e.t, w |-> e.w]}]
             own == e.w = 0 /\ e.b \in s.taken     \* executed by the caller that took it
         IN IF Judge = "ORDER"
            THEN IF own THEN {y} ELSE Keep(NextBlock(s) = <<e.b>>, AfterTake(y))
            ELSE Keep(/\ Jd("ONCE") => /\ e.b \in s.sub /\ e.b \notin s.started
                                       /\ (e.b \in s.taken => e.w = 0)
                                       \* zero workers: inside the submitting call
                                       /\ (Workers(h) = 0 => (e.t \in DOMAIN s.pend /\ e.b \in Range(s.pend[e.t].a)))
                                       /\ (Workers(h) > 0 => (e.w = 1 \/ own))
                      /\ Jd("CLOSE") => e.b \notin s.started /\ ~(s.closed /\ e.w = 1), y)
    [] e.k = "en" -> {[s EXCEPT !.ended = @ \cup {e.b}, !.run = {x \in @ : ~(x.b = e.b /\ x.t = e.t)}]}
    [] e.k = "idle" -> Keep(/\ Jd("WAKE") => WakeOK(h, s)
                            /\ Jd("CLOSE") => CloseOK(s), Due(s))
    [] e.k \in {"stuck", "Hang"} ->
         Keep(/\ Jd("WAKE") => WakeOK(h, s)
              /\ Jd("CLOSE") => CloseOK(s)
              /\ Jd("ONCE") => OnceOK(s), s)
    [] e.k = "rest" -> Keep(Jd("ONCE") => s.sub \subseteq (s.ended \cup s.taken), [s EXCEPT !.rest = TRUE])
    [] e.k \in {"to", "end"} -> {s}
    [] e.k \in {"Crash", "Exc"} ->
         Keep(~(IF s.closing THEN Jd("CLOSE") ELSE Jd("ONCE") \/ Judge = "ORDER"), s)
    [] OTHER -> {}
PostW(h, s, e) ==
  {[y EXCEPT !.alone = IF e.k = "i" /\ DOMAIN y.pend = {e.t} THEN e.t ELSE -1] : y \in PostR(h, s, e)}
=============================================================================

----------------------------- MODULE QueueTrace -----------------------------
(* Conformance of recorded concurrent histories with ConcQueue.               *)
(* Judge selects the property that decides: observations that belong to other *)
(* properties are adopted instead of judged.                                  *)
(*   LIN  (C01-C03)  results must be those of a linearization                 *)
(*   PROG (C04-C05)  at quiescence only legitimately blocked calls remain     *)
(*   TIME (C06)      timeouts and functor calls                               *)
(*   REST (C07)      observers agree at rest                                  *)
EXTENDS ConcQueue, TraceBase
CONSTANT Judge


Kinds == {"S", "B", "P"}
\* which results decide
Judged(op) == CASE Judge = "LIN"  -> TRUE
                [] Judge = "TIME" -> op \in {"timed", "poc"}
                [] OTHER          -> FALSE
\* LIN compares complete results, the others only "something or nothing"
Agree(r, x) ==
  IF Judge = "LIN" THEN r = x
  ELSE IF r = <<>> \/ x = <<>> THEN TRUE ELSE r[1] = x[1]

\* the call of thread t returned x: states in which it took effect with that result
Returned(h, s, t, x) == {y \in Closure(h.kind, s) : y.pend[t].st = "d" /\ Agree(y.pend[t].r, x)}
\* the same, adopting results that another property judges: if no state explains the
\* result, the call is taken to have had no effect
Adopted(h, s, t, x) ==
  LET R == Returned(h, s, t, x) IN IF R # {} THEN R ELSE {s}

PostQ(h, s, e) ==
  CASE e.k = "i"    -> LET c == Call(s, e.t, e.op, e.a)
                       IN \* where timeouts are not judged a timed pop may give up at any time
                          IF Judge # "TIME" /\ e.op = "timed" THEN {[c EXCEPT !.pend[e.t].to = TRUE]} ELSE {c}
    [] e.k = "r"    -> {Forget(x, e.t) : x \in IF Judged(s.pend[e.t].op) THEN Returned(h, s, e.t, e.r)
                                               ELSE Adopted(h, s, e.t, e.r)}
    [] e.k = "to"   -> \* the calls wait expires, at after want has been asked for: not before, nor much later
                       IF Judge = "TIME" /\ "at" \in DOMAIN e /\ e.at < e.want THEN {s}
                       ELSE IF Judge = "TIME" /\ "at" \in DOMAIN e /\ e.at \div 3 > e.want + 4 THEN {}
                       ELSE {[s EXCEPT !.pend[e.t].to = TRUE]}
    [] e.k = "call" -> LET can == {y \in Closure(h.kind, s) : y.pend[e.t].em}
                       IN {[x EXCEPT !.pend[e.t].em = FALSE, !.pend[e.t].ca = 1] :
                               x \in IF Judge = "TIME" THEN can ELSE {s}}
    [] e.k = "blk"  -> IF Judge = "TIME" /\ s.pend[e.t].op = "poc" /\ s.pend[e.t].ca = 0 THEN {} ELSE {s}
    [] e.k = "idle" -> \* nothing can run unless a timeout fires
                       IF Judge = "TIME"
                       THEN {x \in Closure(h.kind, s) : \A t \in Threads(x) :
                                 x.pend[t].op = "timed" => (x.pend[t].st = "c" /\ IsEmpty(x))}
                       ELSE {s}
    [] e.k = "stuck" -> IF Judge = "PROG" THEN {x \in Closure(h.kind, s) : AllBlocked(x)} ELSE {s}
    [] e.k = "rest" -> CASE Judge = "LIN"  -> IF e.drain = s.p \o s.n THEN {s} ELSE {}
                         [] Judge = "REST" -> IF /\ (e.empty = (IF e.drain = <<>> THEN 1 ELSE 0))
                                                 /\ (h.kind # "P" => e.size = Len(e.drain))
                                                 /\ (e.peek = IF e.drain = <<>> THEN <<0>> ELSE <<1, e.drain[1]>>)
                                                 /\ e.after = <<1, 0, 0>>
                                              THEN {s} ELSE {}
                         [] OTHER          -> {s}
    [] e.k = "Hang"  -> IF Judge = "PROG" THEN {} ELSE {s}
    [] e.k \in {"Crash", "Exc"} -> IF Judge = "PROG" THEN {s} ELSE {}
    [] OTHER -> {}

StartQ(h) == {Empty}

=============================================================================

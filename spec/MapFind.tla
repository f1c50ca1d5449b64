------------------------------ MODULE MapFind ------------------------------
(* C33: the recorded answers of mapFind                                       *)
EXTENDS TraceBase, MapFindOps

Start0(h) == {0}
Content(e) == LET n == Len(e.in) \div 2
              IN [k \in {e.in[2 * z - 1] : z \in 1..n} |-> e.in[2 * (CHOOSE z \in 1..n : e.in[2 * z - 1] = k)]]
Post0(h, s, e) ==
  IF e.k = "try" THEN {s}
  ELSE IF e.k = "map" /\ e.same = 1
     /\ LET f == Content(e) IN
        \A z \in 1..(Len(e.out) \div 4) :
          LET k == e.out[4 * z - 3]  d == e.out[4 * z - 2]  o == e.out[4 * z - 1]  v == e.out[4 * z]
          IN IF d >= 0 THEN o = 1 /\ v = Find(f, k, d) ELSE <<o, v>> = Opt(f, k)
  THEN {s + 1} ELSE {}
=============================================================================

------------------------------ MODULE MappedOps ------------------------------
(* The mapped containers: a sequence of elements plus, for each kind of       *)
(* search term, a partial function from terms to positions.                   *)
(*   d = [q |-> elements, m1 |-> [terms -> 0..Len(q)-1 or -1], m2 |-> ...]    *)
(* Positions count from 0 as in the C++ interface; -1 is "not bound" and, as  *)
(* a term, "no term given".  Every call is a relation: the set of possible    *)
(* outcomes <<d', result>>.                                                   *)
EXTENDS Integers, Sequences, FiniteSets

Empty(ts) == [q |-> <<>>, m1 |-> [t \in ts |-> -1], m2 |-> [t \in ts |-> -1]]
N(d) == Len(d.q)
Bound(m, t) == t >= 0 /\ m[t] >= 0
Bind(m, t, x) == IF t < 0 THEN m ELSE [m EXCEPT ![t] = x]
Map(d, k) == IF k = 1 THEN d.m1 ELSE d.m2
SetMap(d, k, m) == IF k = 1 THEN [d EXCEPT !.m1 = m] ELSE [d EXCEPT !.m2 = m]

\* a term given to insert that is bound already may keep its element or be given to the new one;
\* with one kind of term this does not arise (the insertion is refused)
Insert(d, t1, t2, v) ==
  LET given == {k \in {1, 2} : (IF k = 1 THEN t1 ELSE t2) >= 0}
      bound == {k \in given : Bound(Map(d, k), IF k = 1 THEN t1 ELSE t2)}
  IN IF given # {} /\ given = bound THEN {<<d, -1>>}
     ELSE {<<[q |-> Append(d.q, v),
             m1 |-> IF 1 \in keep THEN d.m1 ELSE Bind(d.m1, t1, N(d)),
             m2 |-> IF 2 \in keep THEN d.m2 ELSE Bind(d.m2, t2, N(d))], N(d)>> : keep \in SUBSET bound}

\* all given terms lead to the value at the returned position; one given and bound term, or two that lead
\* to the same element, mean that element is assigned; otherwise an existing element or a new one takes the value
Assign(d, t1, t2, v) ==
  LET b == (IF Bound(d.m1, t1) THEN {d.m1[t1]} ELSE {}) \cup (IF Bound(d.m2, t2) THEN {d.m2[t2]} ELSE {})
      given == (IF t1 >= 0 THEN 1 ELSE 0) + (IF t2 >= 0 THEN 1 ELSE 0)
      nb == (IF Bound(d.m1, t1) THEN 1 ELSE 0) + (IF Bound(d.m2, t2) THEN 1 ELSE 0)
      At(x) == <<[q |-> IF x = N(d) THEN Append(d.q, v) ELSE [d.q EXCEPT ![x + 1] = v],
                  m1 |-> Bind(d.m1, t1, x), m2 |-> Bind(d.m2, t2, x)], x>>
  IN IF nb = given /\ Cardinality(b) = 1 THEN {At(x) : x \in b}
     ELSE {At(x) : x \in b \cup {N(d)}}

\* an insertion or assignment whose element cannot be constructed fails (result -3) without any effect;
\* an insertion that is refused anyway may be refused first
Failing(d, ins, t1, t2) ==
  {<<d, -3>>} \cup (IF ins THEN {x \in Insert(d, t1, t2, 0) : x[2] = -1} ELSE {})

AddIdx(d, k, t, x) == IF x >= 0 /\ x < N(d) /\ ~Bound(Map(d, k), t)
                      THEN {<<SetMap(d, k, Bind(Map(d, k), t, x)), 1>>} ELSE {<<d, 0>>}
AddTerm(d, k, t, k2, t2) == IF Bound(Map(d, k2), t2) THEN AddIdx(d, k, t, Map(d, k2)[t2]) ELSE {<<d, 0>>}

\* stable storage: only the last element is really taken out, another one is unlinked from its terms
RemoveAt(d, x, stable) ==
  IF x < 0 \/ x >= N(d) THEN d
  ELSE LET out == ~stable \/ x = N(d) - 1
           Shift(m) == [t \in DOMAIN m |-> IF m[t] = x THEN -1 ELSE IF out /\ m[t] > x THEN m[t] - 1 ELSE m[t]]
       IN [q |-> IF out THEN SubSeq(d.q, 1, x) \o SubSeq(d.q, x + 2, N(d)) ELSE d.q,
           m1 |-> Shift(d.m1), m2 |-> Shift(d.m2)]
RemoveTerm(d, k, t, stable) == IF Bound(Map(d, k), t) THEN RemoveAt(d, Map(d, k)[t], stable) ELSE d

Sound(d) == \A k \in {1, 2} : \A t \in DOMAIN Map(d, k) : Map(d, k)[t] \in -1..(N(d) - 1)
=============================================================================

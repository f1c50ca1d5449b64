--------------------------- MODULE BlockVecLayout ---------------------------
(* StableBlockVector as it lays elements out: a table of blocks of BS places  *)
(* filled from slot 0 to slot ix, of which the last holds bs elements, and a  *)
(* pile of free blocks.  The sequence itself is StableSeq.tla.  Every         *)
(* transition out of every class of layouts (Class) becomes a script for the   *)
(* real class (EmitEdge).                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS BS, Counts, Sizes, MaxSlots, Track, Emit
VARIABLES s, path
vars == <<s, path>>

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
Last(q) == q[Len(q)]
Front(q) == SubSeq(q, 1, Len(q) - 1)

Nothing == [slots |-> 0, tab |-> <<>>, ix |-> 0, bs |-> BS, n |-> 0, free |-> <<>>, fsl |-> 0, nx |-> 1, bad |-> FALSE]

Ix(i) == i + 1
InTab(x, i) == i >= 0 /\ i < x.slots
At(x, i) == IF Track /\ InTab(x, i) THEN x.tab[Ix(i)] ELSE 0
Set(x, i, b) == IF ~InTab(x, i) THEN [x EXCEPT !.bad = TRUE] ELSE IF Track THEN [x EXCEPT !.tab[Ix(i)] = b] ELSE x
NewTab(k) == IF Track THEN [i \in 1..k |-> 0] ELSE <<>>
Block(x, i) == IF x.free = <<>> THEN Set([x EXCEPT !.nx = @ + 1], i, x.nx)
               ELSE Set([x EXCEPT !.free = Front(@)], i, Last(x.free))
Release(x, i) == [x EXCEPT !.free = Append(@, At(x, i)),
                           !.fsl = IF Len(x.free) >= @ THEN (IF @ = 0 THEN 64 ELSE 2 * @) ELSE @]

Push(x) ==
  LET y == IF x.bs < BS THEN x
           ELSE LET z == IF x.slots = 0 THEN [x EXCEPT !.slots = 64, !.tab = NewTab(64), !.ix = -1]
                         ELSE IF x.ix >= x.slots - 2 THEN [x EXCEPT !.slots = 2 * @, !.tab = @ \o NewTab(x.slots)]
                         ELSE x
                IN [Block(z, z.ix + 1) EXCEPT !.ix = @ + 1, !.bs = 0]
  IN [y EXCEPT !.bs = @ + 1, !.n = @ + 1]
Pop(x) == IF x.n = 0 THEN x
          ELSE IF x.bs > 0 THEN [x EXCEPT !.bs = @ - 1, !.n = @ - 1]
          ELSE [Release(x, x.ix) EXCEPT !.ix = @ - 1, !.bs = BS - 1, !.n = @ - 1]

RECURSIVE Rep(_, _, _), ReleaseDown(_, _, _), Blocks(_, _, _)
Rep(what, x, k) == IF k = 0 THEN x ELSE Rep(what, IF what = "e" THEN Push(x) ELSE Pop(x), k - 1)
ReleaseDown(x, hi, lo) == IF hi < lo THEN x ELSE ReleaseDown(Release(x, hi), hi - 1, lo)
Blocks(x, lo, hi) == IF lo > hi THEN x ELSE Blocks(Block(x, lo), lo + 1, hi)

Clear(x) == IF x.slots = 0 THEN x
            ELSE [ReleaseDown(x, x.ix, 1) EXCEPT !.ix = 0, !.n = 0, !.bs = 0]
Shrink(x) == [x EXCEPT !.free = <<>>]
Sized(k) == LET sl == Max(k \div BS + 2, 64)
            IN Blocks([Nothing EXCEPT !.slots = sl, !.tab = NewTab(sl), !.ix = k \div BS, !.bs = k % BS, !.n = k], 0, k \div BS)
CopyOf(x) == IF x.n = 0 THEN Nothing
             ELSE Rep("e", [Nothing EXCEPT !.slots = x.slots, !.tab = NewTab(x.slots), !.ix = -1], x.n)
Assign(x, k) == IF k <= x.n THEN Rep("B", x, x.n - k) ELSE Rep("e", x, k - x.n)

Step(t, y) == s' = y /\ path' = path \o " " \o t
Str(k) == ToString(k)
Init == s = Nothing /\ path = ""
Next ==
  \/ \E w \in {"e", "B"}, k \in Counts : Step("0:" \o w \o Str(k), Rep(w, s, k))
  \/ \E k \in Sizes : Step("0:C" \o Str(k), Sized(k))
  \/ \E k \in Sizes \cup {Max(s.n - 1, 0), s.n, s.n + 1} : Step("0:a" \o Str(k), Assign(s, k))
  \/ Step("0:c", Clear(s))
  \/ Step("0:s", Shrink(s))
  \/ Step("0:K1 1:K0", CopyOf(CopyOf(s)))
  \/ Step("0:M1 1:M0", s)
  \/ Step("1:N 0:Q1 1:M0", Rep("e", Nothing, s.n))
Spec == Init /\ [][Next]_vars
EmitEdge == Emit => PrintT("EDGE:" \o path')
Bounded == s.slots <= MaxSlots

Class(x) == <<Min(x.ix, 3), Min(x.slots - 1 - x.ix, 4), IF x.bs \in {0, 1, BS - 1, BS} THEN x.bs ELSE 2, Min(x.n, 3),
              Min(Len(x.free), 2), Min(x.fsl - Len(x.free), 2), IF x.slots <= 64 THEN x.slots ELSE IF x.slots = 128 THEN 128 ELSE 65>>
---------------------------------------------------------------------------
Places == s.slots # 0 => s.bs \in 0..BS /\ s.n = s.ix * BS + s.bs
Table == /\ ~s.bad
         /\ s.slots # 0 => 0 <= s.ix /\ s.ix <= s.slots - 1
         \* the end iterator behind a full last block reads the next slot
         /\ s.slots # 0 /\ s.bs = BS => s.ix + 1 < s.slots
Used == {s.tab[Ix(i)] : i \in 0..s.ix}
Piled == {s.free[k] : k \in 1..Len(s.free)}
Owned == Track /\ s.slots # 0 => /\ Cardinality(Used) = s.ix + 1 /\ 0 \notin Used
                                 /\ Used \cap Piled = {} /\ Cardinality(Piled) = Len(s.free)
Pile == Len(s.free) <= s.fsl
\* the view keeps states that violate an invariant apart from those that do not
view == <<Class(s), Places /\ Table /\ Owned /\ Pile>>
=============================================================================

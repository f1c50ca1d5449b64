-------------------------- MODULE BlockDequeLayout --------------------------
(* StableBlockDeque as it lays elements out: a table of blocks of BS places,  *)
(* used from slot front to slot back, the free places of the first and last   *)
(* block, and a pile of free blocks.  The sequence of elements itself is      *)
(* StableSeq.tla; here only where they are kept.                              *)
(*                                                                            *)
(* The calls come with counts so that the ends of the table and the full pile *)
(* of free blocks are reached.  Every transition out of every class of        *)
(* layouts (Class) becomes a script for the real class (EmitEdge).             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS BS,              \* block size
          Counts,          \* repetition counts of pushes and pops
          Drifts,          \* of drifts
          Sizes,           \* of construction and assign
          MaxSlots,
          Track,           \* follow the blocks themselves
          Emit

VARIABLES s, path
vars == <<s, path>>

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a < b THEN b ELSE a
Last(q) == q[Len(q)]
Front(q) == SubSeq(q, 1, Len(q) - 1)

\* slots: table size, tab: slot -> block (0 undefined), fr/bk: first/last slot in use,
\* fs: place in front of the first element, bs: place behind the last one,
\* free: free blocks, fsl: size of their table, nx: next unused block number
Nothing == [slots |-> 0, tab |-> <<>>, fr |-> 0, bk |-> 0, fs |-> -1, bs |-> BS, n |-> 0, free |-> <<>>, fsl |-> 0, nx |-> 1,
            bad |-> FALSE]

Ix(i) == i + 1   \* slots are numbered from 0
InTab(x, i) == i >= 0 /\ i < x.slots
At(x, i) == IF Track THEN x.tab[Ix(i)] ELSE 0
Set(x, i, b) == IF ~InTab(x, i) THEN [x EXCEPT !.bad = TRUE] ELSE IF Track THEN [x EXCEPT !.tab[Ix(i)] = b] ELSE x
NewTab(k) == IF Track THEN [i \in 1..k |-> 0] ELSE <<>>

\* a block for slot i: from the pile or a new one
Block(x, i) == IF x.free = <<>> THEN Set([x EXCEPT !.nx = @ + 1], i, x.nx)
               ELSE Set([x EXCEPT !.free = Front(@)], i, Last(x.free))
Release(x, i) == [x EXCEPT !.free = Append(@, At(x, i)),
                           !.fsl = IF Len(x.free) >= @ THEN (IF @ = 0 THEN 64 ELSE 2 * @) ELSE @]

\* copy slots from..to to position d on (within the table)
CopySlots(t, from, to, d) == IF ~Track THEN t ELSE [i \in 1..Len(t) |-> IF i - 1 >= d /\ i - 1 <= d + to - from THEN t[i - d + from] ELSE t[i]]

BlockCheck(x) ==
  IF x.bs < BS THEN x
  ELSE IF x.slots = 0
  THEN Block([x EXCEPT !.slots = 64, !.tab = NewTab(64), !.fr = 30, !.bk = 30, !.fs = BS \div 2 - 1, !.bs = BS \div 2], 30)
  ELSE LET y == IF x.bk < x.slots - 2 THEN x
                ELSE IF x.fr > 5
                THEN [x EXCEPT !.tab = CopySlots(@, x.fr, x.bk, x.fr \div 2), !.fr = x.fr \div 2,
                               !.bk = x.fr \div 2 + x.bk - x.fr]
                ELSE [x EXCEPT !.tab = @ \o NewTab(x.slots), !.slots = 2 * @]
       IN Block([y EXCEPT !.bk = @ + 1, !.bs = 0], y.bk + 1)

BlockCheckFront(x) ==
  IF x.fs >= 0 THEN x
  ELSE IF x.slots = 0
  THEN Block([x EXCEPT !.slots = 64, !.tab = NewTab(64), !.fr = 30, !.bk = 30, !.fs = BS \div 2, !.bs = BS \div 2 + 1], 30)
  ELSE LET y == IF x.fr # 0 THEN x
                ELSE IF x.bk < x.slots - 5
                THEN LET d == (x.slots - x.bk) \div 2
                     IN [x EXCEPT !.tab = CopySlots(@, 0, x.bk, d), !.fr = d, !.bk = d + x.bk]
                ELSE [x EXCEPT !.tab = NewTab(x.slots) \o @, !.fr = x.slots, !.bk = x.slots + x.bk, !.slots = 2 * @]
       IN Block([y EXCEPT !.fr = @ - 1, !.fs = BS - 1], y.fr - 1)

PushBack(x)  == LET y == BlockCheck(x) IN [y EXCEPT !.bs = @ + 1, !.n = @ + 1]
PushFront(x) == LET y == BlockCheckFront(x) IN [y EXCEPT !.fs = @ - 1, !.n = @ + 1]
PopBack(x) == IF x.n = 0 THEN x
              ELSE IF x.bs > 0 THEN [x EXCEPT !.bs = @ - 1, !.n = @ - 1]
              ELSE LET y == Release(x, x.bk) IN [y EXCEPT !.bk = @ - 1, !.bs = BS - 1, !.n = @ - 1]
PopFront(x) == IF x.n = 0 THEN x
               ELSE IF x.fs # BS - 1 THEN [x EXCEPT !.fs = @ + 1, !.n = @ - 1]
               ELSE LET y == Release(x, x.fr) IN [y EXCEPT !.fr = @ + 1, !.fs = 0, !.n = @ - 1]
DriftB(x) == PopFront(PushBack(x))
DriftF(x) == PopBack(PushFront(x))

RECURSIVE Rep(_, _, _), ReleaseDown(_, _, _)
Do(what, x) == CASE what = "e" -> PushBack(x) [] what = "h" -> PushFront(x) [] what = "B" -> PopBack(x)
                 [] what = "F" -> PopFront(x) [] what = "d" -> DriftB(x) [] what = "D" -> DriftF(x)
Rep(what, x, k) == IF k = 0 THEN x ELSE Rep(what, Do(what, x), k - 1)
ReleaseDown(x, hi, lo) == IF hi < lo THEN x ELSE ReleaseDown(Release(x, hi), hi - 1, lo)

Clear(x) == IF x.slots = 0 \/ x.n = 0 THEN x
            ELSE LET m == ReleaseDown(x, x.bk - 1, x.fr + 1)
                     y == IF x.fr < x.bk THEN Release(m, x.bk) ELSE m
                     i == x.slots \div 2
                 IN [Set(y, i, At(y, x.fr)) EXCEPT !.n = 0, !.fs = BS \div 2, !.bs = BS \div 2 + 1, !.fr = i, !.bk = i]
Shrink(x) == [x EXCEPT !.free = <<>>]

RECURSIVE Blocks(_, _, _)
Blocks(x, lo, hi) == IF lo > hi THEN x ELSE Blocks(Block(x, lo), lo + 1, hi)
Sized(k) ==
  LET sl == Max(k \div BS + 4, 64)
      b0 == k \div BS
      b  == IF b0 > 0 THEN b0 + 1 ELSE IF k + 2 > BS \div 2 THEN 1 ELSE 0
      z  == [Nothing EXCEPT !.slots = sl, !.tab = NewTab(sl), !.n = k]
      h  == k \div 2
      med == k % BS
  IN IF k = 0 THEN Block([z EXCEPT !.fr = 30, !.bk = 30, !.bs = BS \div 2, !.fs = BS \div 2 - 1], 30)
     ELSE IF b = 0
     THEN LET f == BS \div 2 - h - 1 IN Block([z EXCEPT !.fr = 30, !.bk = 30, !.fs = f, !.bs = f + k + 1], 30)
     ELSE IF b = 1
     THEN Blocks([z EXCEPT !.fr = 30, !.bk = 31, !.fs = BS - h - 1, !.bs = k - h], 30, 31)
     ELSE LET f == (sl - b) \div 2
          IN Blocks([z EXCEPT !.fr = f, !.bk = f + b, !.fs = BS - med \div 2 - 1, !.bs = med - med \div 2], f, f + b)

CopyOf(x) ==
  LET sl == Max(x.slots, 64)
      z  == [Nothing EXCEPT !.slots = sl, !.tab = NewTab(sl)]
  IN IF x.slots = 0 THEN Block([z EXCEPT !.fr = 30, !.bk = 30, !.bs = BS \div 2, !.fs = BS \div 2 - 1], 30)
     ELSE Rep("e", Block([z EXCEPT !.fr = x.fr, !.bk = x.fr, !.fs = x.fs, !.bs = x.fs + 1], x.fr), x.n)

Assign(x, k) == IF k <= x.n THEN Rep("B", x, x.n - k) ELSE Rep("e", x, k - x.n)

Step(t, y) == s' = y /\ path' = path \o " " \o t
Str(k) == ToString(k)
Init == s = Nothing /\ path = ""
Next ==
  \/ \E w \in {"e", "h", "B", "F"}, k \in Counts : Step("0:" \o w \o Str(k), Rep(w, s, k))
  \/ \E w \in {"d", "D"}, k \in Drifts : Step("0:" \o w \o Str(k), Rep(w, s, k))
  \/ \E k \in Sizes : Step("0:C" \o Str(k), Sized(k))
  \/ \E k \in Sizes \cup {Max(s.n - 1, 0), s.n, s.n + 1} : Step("0:a" \o Str(k), Assign(s, k))
  \/ Step("0:c", Clear(s))
  \/ Step("0:s", Shrink(s))
  \/ Step("0:K1 1:K0", CopyOf(CopyOf(s)))
  \/ Step("0:M1 1:M0", s)
  \/ Step("1:N 0:Q1 1:M0", Rep("e", Nothing, s.n))
Spec == Init /\ [][Next]_vars
EmitEdge == Emit => PrintT("EDGE:" \o path')
Bounded == s.slots <= MaxSlots

\* classes of layouts: what the code distinguishes, distances to thresholds capped
Class(x) == LET c(v, m) == Min(v, m)
                room == x.slots - 1 - x.bk
            IN <<IF x.fr \in 1..5 THEN 1 ELSE c(x.fr, 6), IF room \in 2..3 THEN 2 ELSE c(room, 5), c(x.bk - x.fr, 2),
                 IF x.fs \in {-1, 0, BS - 1} THEN x.fs ELSE 1, IF x.bs \in {0, 1, BS - 1, BS} THEN x.bs ELSE 2,
                 c(x.n, 2), c(Len(x.free), 1), IF Len(x.free) >= x.fsl - 1 THEN 1 ELSE 0, IF x.slots <= 64 THEN x.slots ELSE 65>>
---------------------------------------------------------------------------
Places == s.slots # 0 => /\ s.fs \in -1..(BS - 1) /\ s.bs \in 0..BS
                         /\ s.n = s.bs - s.fs - 1 + (s.bk - s.fr) * BS
Table == /\ ~s.bad
         /\ s.slots # 0 => 0 <= s.fr /\ s.fr <= s.bk /\ s.bk <= s.slots - 1 /\ (Track => Len(s.tab) = s.slots)
         \* the end iterator behind a full last block reads the next slot
         /\ s.slots # 0 /\ s.bs = BS => s.bk + 1 < s.slots
Used == {s.tab[Ix(i)] : i \in s.fr..s.bk}
Owned == Track /\ s.slots # 0 => /\ Cardinality(Used) = s.bk - s.fr + 1 /\ 0 \notin Used
                        /\ Used \cap {s.free[k] : k \in 1..Len(s.free)} = {}
                        /\ Cardinality({s.free[k] : k \in 1..Len(s.free)}) = Len(s.free)
Pile == Len(s.free) <= s.fsl
\* the view keeps states that violate an invariant apart from those that do not
view == <<Class(s), Places /\ Table /\ Owned /\ Pile>>
=============================================================================

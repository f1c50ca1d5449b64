----------------------------- MODULE StackLayout -----------------------------
(* StackBufferRaw / StackBuffer as laid out in memory: data growing up from   *)
(* the start, 8-byte descriptors growing down from the end.  As CircLayout,   *)
(* model checked and used as a source of scripts.                             *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Caps, InitCaps, Sizes, MaxBlocks, Emit

VARIABLES cap, nxt, tab,      \* tab: descriptors bottom to top, <<offset, size>>
          rev,                \* reverse used since last empty
          bad, path
vars == <<cap, nxt, tab, rev, bad, path>>
view == <<cap, nxt, tab, rev, bad>>

D == 8
Init == /\ cap \in InitCaps /\ nxt = 0 /\ tab = <<>> /\ rev = FALSE /\ bad = FALSE
        /\ path = ToString(cap) \o ";"
Avail(z) == cap - nxt - (Len(tab) + 1) * D >= z
Live(k) == <<tab[k][1], tab[k][1] + tab[k][2]>>

Push(z) ==
  /\ Len(tab) < MaxBlocks
  /\ path' = path \o " p" \o ToString(z)
  /\ IF Avail(z)
     THEN /\ tab' = Append(tab, <<nxt, z>>) /\ nxt' = nxt + z
          /\ bad' = (bad \/ nxt + z > cap - (Len(tab) + 1) * D \/ \E k \in 1..Len(tab) : Live(k)[2] > nxt)
     ELSE UNCHANGED <<tab, nxt, bad>>
  /\ UNCHANGED <<cap, rev>>
Pop ==
  /\ path' = path \o " o"
  /\ IF tab = <<>> THEN UNCHANGED <<nxt, tab, rev>>
     ELSE LET t == tab[Len(tab)]
              t2 == SubSeq(tab, 1, Len(tab) - 1)
          IN /\ tab' = t2
             /\ nxt' = IF t2 = <<>> THEN 0 ELSE IF t[1] + t[2] = nxt THEN nxt - t[2] ELSE nxt
             /\ rev' = (rev /\ t2 # <<>>)
  /\ UNCHANGED <<cap, bad>>
Reverse == /\ path' = path \o " v"
           /\ tab' = [k \in 1..Len(tab) |-> tab[Len(tab) + 1 - k]]
           /\ rev' = (tab # <<>>)
           /\ UNCHANGED <<cap, nxt, bad>>
Clr == /\ path' = path \o " c" /\ nxt' = 0 /\ tab' = <<>> /\ rev' = FALSE /\ UNCHANGED <<cap, bad>>
Resize(n) ==
  /\ n # cap
  /\ path' = path \o " r" \o ToString(n)
  /\ IF tab = <<>> THEN cap' = n /\ nxt' = 0
     ELSE IF n > cap \/ n >= nxt + D * Len(tab) THEN cap' = n /\ nxt' = nxt
     ELSE UNCHANGED <<cap, nxt>>
  /\ UNCHANGED <<tab, rev, bad>>
Next == (\E z \in Sizes : Push(z)) \/ Pop \/ Reverse \/ Clr \/ (\E n \in Caps : Resize(n))
Spec == Init /\ [][Next]_vars
EmitEdge == Emit => PrintT("EDGE:" \o path')
---------------------------------------------------------------------------
RECURSIVE Sum(_)
Sum(t) == IF t = <<>> THEN 0 ELSE t[1][2] + Sum(Tail(t))
Sound == ~bad
InMemory == \A k \in 1..Len(tab) : Live(k)[1] >= 0 /\ Live(k)[2] <= nxt
Below == nxt + D * Len(tab) <= cap \/ tab = <<>>
Disjoint == \A j, k \in 1..Len(tab) : j < k => Live(j)[2] <= Live(k)[1] \/ Live(k)[2] <= Live(j)[1]
Exact == ~rev => nxt = Sum(tab)
Safe == nxt >= Sum(tab)
EmptyOffers == tab = <<>> => \A z \in 1..cap : Avail(z) <=> z <= cap - D
=============================================================================

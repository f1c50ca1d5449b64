----------------------------- MODULE CircLayout -----------------------------
(* CircularBufferRaw / CircularBuffer as they lay blocks out in memory: read  *)
(* and write offsets, 4-byte block headers, the wrap marker.  Model checked   *)
(* exhaustively for small capacities; every transition found becomes a script *)
(* for the real class (the path printed by EmitEdge), judged by CircBuf.tla.  *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Caps,        \* capacities resize may use; the first state uses any of InitCaps
          InitCaps, Sizes, MaxBlocks, Emit

VARIABLES cap, r, w, blk,     \* blk: live blocks oldest first, <<offset, size>>
          mk,                 \* offset of the live wrap marker, -1 if there is none
          bad,                \* a read or write went where it must not
          path                \* the calls that led here (not part of the view)
vars == <<cap, r, w, blk, mk, bad, path>>
view == <<cap, r, w, blk, mk, bad>>

H == 4
Init == /\ cap \in InitCaps
        /\ r = 0 /\ w = 0 /\ blk = <<>> /\ mk = -1 /\ bad = FALSE
        /\ path = ToString(cap) \o ";"

Contig == w > r \/ (w = r /\ blk = <<>>)
Avail(z) == IF Contig THEN cap - w >= z + H \/ r >= z + H ELSE r - w >= z + H

Live == {<<blk[k][1], blk[k][1] + blk[k][2] + H>> : k \in 1..Len(blk)} \cup (IF mk >= 0 THEN {<<mk, mk + H>>} ELSE {})
Clear(a, b) == /\ a >= 0 /\ b <= cap
               /\ \A x \in Live : b <= x[1] \/ a >= x[2]

\* the oldest block's position as the reader computes it
ReadPos(rr, b, m) == IF cap - rr < H \/ rr = m THEN 0 ELSE rr

Push(z) ==
  /\ Len(blk) < MaxBlocks
  /\ path' = path \o " p" \o ToString(z)
  /\ cap' = cap /\ r' = r
  /\ IF ~Avail(z) THEN UNCHANGED <<w, blk, mk, bad>>
     ELSE IF Contig /\ cap - w >= z + H
     THEN LET w2 == w + z + H
              eager == cap - w2 < 8 /\ r > 0
              marks == eager /\ cap - w2 >= H
          IN /\ w' = IF eager THEN 0 ELSE w2
             /\ blk' = Append(blk, <<w, z>>)
             /\ mk' = IF marks THEN w2 ELSE mk
             /\ bad' = (bad \/ ~Clear(w, w2) \/ (marks /\ (mk >= 0 \/ ~Clear(w2, w2 + H))))
     ELSE IF Contig
     THEN LET marks == cap - w >= H
          IN /\ w' = z + H
             /\ blk' = Append(blk, <<0, z>>)
             /\ mk' = IF marks THEN w ELSE mk
             /\ bad' = (bad \/ ~Clear(0, z + H) \/ (marks /\ (mk >= 0 \/ ~Clear(w, w + H) \/ w < z + H)))
     ELSE /\ w' = w + z + H
          /\ blk' = Append(blk, <<w, z>>)
          /\ mk' = mk
          /\ bad' = (bad \/ ~Clear(w, w + z + H))

Pop ==
  /\ path' = path \o " o"
  /\ cap' = cap /\ w' = w
  /\ IF blk = <<>> THEN UNCHANGED <<r, blk, mk, bad>>
     ELSE LET p == ReadPos(r, blk, mk)
              r1 == p + blk[1][2] + H
              b2 == Tail(blk)
              m1 == IF p # r THEN -1 ELSE mk
              p2 == ReadPos(r1, b2, m1)
          IN /\ bad' = (bad \/ p # blk[1][1])
             /\ blk' = b2
             /\ r' = IF b2 = <<>> THEN w ELSE p2
             /\ mk' = IF b2 = <<>> \/ p2 # r1 THEN -1 ELSE m1

Clr == /\ path' = path \o " c"
       /\ r' = 0 /\ w' = 0 /\ blk' = <<>> /\ mk' = -1 /\ UNCHANGED <<cap, bad>>

Shift(d, from) == [k \in 1..Len(blk) |-> IF blk[k][1] >= from THEN <<blk[k][1] + d, blk[k][2]>> ELSE blk[k]]
ShiftMk(d, from) == IF mk >= from THEN mk + d ELSE mk
Resize(n) ==
  /\ n # cap
  /\ path' = path \o " r" \o ToString(n)
  /\ bad' = bad
  /\ IF blk = <<>> THEN cap' = n /\ r' = 0 /\ w' = 0 /\ blk' = blk /\ mk' = -1
     ELSE IF n > cap
     THEN IF r < w THEN cap' = n /\ UNCHANGED <<r, w, blk, mk>>
          ELSE /\ cap' = n /\ w' = w /\ r' = r + (n - cap)
               /\ blk' = Shift(n - cap, r) /\ mk' = ShiftMk(n - cap, r)
     ELSE IF r < w
     THEN IF w <= n THEN cap' = n /\ UNCHANGED <<r, w, blk, mk>>
          ELSE IF w - r < n
          THEN /\ cap' = n /\ r' = 0 /\ w' = w - r /\ blk' = Shift(-r, 0) /\ mk' = mk
          ELSE UNCHANGED <<cap, r, w, blk, mk>>
     ELSE IF cap - r + w < n
     THEN /\ cap' = n /\ w' = w /\ r' = r + (n - cap)
          /\ blk' = Shift(n - cap, r) /\ mk' = ShiftMk(n - cap, r)
     ELSE UNCHANGED <<cap, r, w, blk, mk>>

Next == (\E z \in Sizes : Push(z)) \/ Pop \/ Clr \/ (\E n \in Caps : Resize(n))
Spec == Init /\ [][Next]_vars

EmitEdge == Emit => PrintT("EDGE:" \o path')
---------------------------------------------------------------------------
Sound == ~bad
HeadFound == blk # <<>> => ReadPos(r, blk, mk) = blk[1][1]
InMemory == \A k \in 1..Len(blk) : blk[k][1] >= 0 /\ blk[k][1] + blk[k][2] + H <= cap
Disjoint == \A j, k \in 1..Len(blk) : j < k =>
               blk[j][1] + blk[j][2] + H <= blk[k][1] \/ blk[k][1] + blk[k][2] + H <= blk[j][1]
EmptyOffers == blk = <<>> => \A z \in 1..cap : z + H <= cap \div 2 => Avail(z)
FreshOffers == r = 0 /\ w = 0 /\ blk = <<>> => \A z \in 1..(cap + 8) : Avail(z) <=> z + H <= cap
Offsets == r \in 0..cap /\ w \in 0..cap
=============================================================================

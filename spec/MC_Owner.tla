------------------------------ MODULE MC_Owner ------------------------------
(***************************************************************************)
(* Ownership and the merge of one cell, over all level sets, marks and      *)
(* vacua: every cell has exactly one owner, of which all materials know;    *)
(* the merged cell is its new owner's; marks decide whose level sets count. *)
(***************************************************************************)
EXTENDS Multi, FiniteSets

CONSTANTS Levels,        \* magnitudes of level sets
          OldOwner       \* faulty design: the owner before the merge provides the state

VARIABLES old, lev, marks, voids, ready
vars == << old, lev, marks, voids, ready >>
Mats == LSET + 1
Signed == Levels \cup { 0 - x : x \in Levels }
Init ==
  /\ ready = FALSE
  /\ old \in [1..LSET -> Signed]
  /\ lev \in [1..Mats -> [1..LSET -> Signed]]
  /\ marks \in [1..Mats -> {0, 1}]
  /\ voids \in SUBSET (0..(Mats - 1))
Next == ~ready /\ ready' = TRUE /\ UNCHANGED << old, lev, marks, voids >>
Spec == Init /\ [][Next]_vars

Cell(x, l) == Build(NV - LSET, LAMBDA k : FI(100 * x + k)) \o Build(LSET, LAMBDA k : FI(l[k]))
U == Cell(9, old)
Grids == Build(Mats, LAMBDA i : Cell(i, lev[i]))
Masks == [i \in 1..Mats |-> << marks[i] >>]
Void(o) == o \in voids
Out == IF OldOwner
       THEN LET w == Merged(U, Grids, Masks, Void, 0)
                o == MaterialIndex(U)
            IN (IF Void(o) THEN VZero(NV - LSET) ELSE SubSeq(Grids[o + 1], 1, NV - LSET)) \o LevelSets(w)
       ELSE Merged(U, Grids, Masks, Void, 0)
Ls(q) == LevelSets(q)
Owner(q) == MaterialIndex(q)

\* materials are nested: where level set k + 1 is not negative, level set k is not
Nested == \A k \in 1..(LSET - 1) : old[k + 1] >= 0 => old[k] >= 0
\* the owner's indicator is negative or zero, everybody else's positive or zero; zero only on an interface
OneOwner ==
  Nested =>
  LET o == Owner(U)
      ind(i) == Indicator(U, << 1 >>, i, Mats)[1]
  IN /\ o \in 0..(Mats - 1)
     /\ \A i \in 0..(Mats - 1) :
          /\ (FLt(ind(i), F0) => i = o)
          /\ ((\A k \in 1..LSET : old[k] # 0) => (FLt(ind(i), F0) <=> i = o))
\* deeper level sets do not count: the owner is the number of leading level sets that are not negative
Leading == Nested => LET o == Owner(U) IN
  /\ \A k \in 1..o : old[k] >= 0
  /\ o < LSET => old[o + 1] < 0
OfItsOwner ==
  LET o == Owner(Out) IN
  SubSeq(Out, 1, NV - LSET) = IF Void(o) THEN VZero(NV - LSET) ELSE SubSeq(Grids[o + 1], 1, NV - LSET)
Heard == { i \in 1..Mats : marks[i] = 1 }
Average ==
  \A k \in 1..LSET :
    LET x == Ls(Out)[k] IN
    IF Heard = {} THEN FEq(x, FI(old[k]))
    ELSE /\ \E i \in Heard : FLe(FI(lev[i][k]), x (+) FS("1e-12"))
         /\ \E i \in Heard : FLe(x (-) FS("1e-12"), FI(lev[i][k]))
         /\ (Cardinality(Heard) = 1 => \A i \in Heard : FEq(x, FI(lev[i][k])))
Holds == ready => OneOwner /\ Leading /\ OfItsOwner /\ Average
=============================================================================

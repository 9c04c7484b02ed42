------------------------------ MODULE MC_Slabs ------------------------------
(***************************************************************************)
(* The parallel split step: every thread relaxes the extended rows of its   *)
(* slab, reconstructs from them and updates its own rows, then relaxes them *)
(* again, in any interleaving.  Rows are symbols: a row is known by how     *)
(* often it was relaxed and, once updated, by the relaxations of the        *)
(* extended rows that its update saw.  The result has to be the serial one  *)
(* for every number of threads and every schedule, and no two threads may   *)
(* touch the same row.                                                      *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS MaxRows, MaxThreads, G, SharedUb     \* G: ghost rows per side

VARIABLES nx, T, pc, at, ub, own, u
vars == << nx, T, pc, at, ub, own, u >>

First(t) == (t * nx) \div T
Last(t) == ((t + 1) * nx) \div T        \* exclusive
Slab(t) == First(t)..(Last(t) - 1)
ExtSlab(t) == IF SharedUb \/ Last(t) >= First(t) THEN First(t)..(Last(t) + 2 * G - 1) ELSE {}

Init ==
  /\ nx \in 1..MaxRows /\ T \in 1..MaxThreads
  /\ pc = [t \in 0..(T - 1) |-> "begin"]
  /\ at = [t \in 0..(T - 1) |-> 0]
  /\ ub = [r \in 0..(nx + 2 * G - 1) |-> 0]                  \* relaxations of the extended rows
  /\ own = [t \in 0..(T - 1) |-> << >>]                      \* private copies
  /\ u = [r \in 0..(nx - 1) |-> [relaxed |-> 0, saw |-> {}]]

\* a thread copies the extended rows of its slab (or works on the shared ones)
Copy(t) ==
  /\ pc[t] = "begin"
  /\ own' = [own EXCEPT ![t] = [r \in ExtSlab(t) |-> ub[r]]]
  /\ pc' = [pc EXCEPT ![t] = "relax"] /\ at' = [at EXCEPT ![t] = First(t)]
  /\ UNCHANGED << nx, T, ub, u >>

\* it relaxes them row by row, its own rows of u along with them
Relax(t) ==
  /\ pc[t] = "relax"
  /\ LET r == at[t] IN
     IF r \in ExtSlab(t)
     THEN /\ IF SharedUb THEN ub' = [ub EXCEPT ![r] = @ + 1] /\ own' = own
             ELSE own' = [own EXCEPT ![t] = [@ EXCEPT ![r] = @ + 1]] /\ ub' = ub
          /\ u' = IF r \in Slab(t) THEN [u EXCEPT ![r].relaxed = @ + 1] ELSE u
          /\ at' = [at EXCEPT ![t] = r + 1] /\ pc' = pc
     ELSE /\ pc' = [pc EXCEPT ![t] = "update"] /\ at' = [at EXCEPT ![t] = First(t)]
          /\ UNCHANGED << ub, own, u >>
  /\ UNCHANGED << nx, T >>

\* it updates its rows from the extended rows around them and relaxes them again
Update(t) ==
  /\ pc[t] = "update"
  /\ LET r == at[t] IN
     IF r \in Slab(t)
     THEN /\ u' = [u EXCEPT ![r] =
                   [relaxed |-> @.relaxed + 1,
                    saw |-> { << k - r, IF SharedUb THEN ub[k] ELSE own[t][k] >> : k \in r..(r + 2 * G) }]]
          /\ at' = [at EXCEPT ![t] = r + 1] /\ pc' = pc
     ELSE pc' = [pc EXCEPT ![t] = "end"] /\ UNCHANGED << u, at >>
  /\ UNCHANGED << nx, T, ub, own >>

Next == (\E t \in 0..(T - 1) : Copy(t) \/ Relax(t) \/ Update(t))
        \/ ((\A t \in 0..(T - 1) : pc[t] = "end") /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Done == \A t \in 0..(T - 1) : pc[t] = "end"
Serial == [relaxed |-> 2, saw |-> { << k, 1 >> : k \in 0..(2 * G) }]

Partition == /\ UNION { Slab(t) : t \in 0..(T - 1) } = 0..(nx - 1)
             /\ \A s, t \in 0..(T - 1) : s # t => Slab(s) \cap Slab(t) = {}
Deterministic == Done => \A r \in 0..(nx - 1) : u[r] = Serial
InBounds == \A t \in 0..(T - 1) : \A r \in Slab(t) : (r..(r + 2 * G)) \subseteq ExtSlab(t)
=============================================================================

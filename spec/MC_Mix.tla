------------------------------- MODULE MC_Mix -------------------------------
(***************************************************************************)
(* Reactive mixtures over a lattice of pairs of phases and states: phases   *)
(* are in equilibrium, it does not matter which is called the first, equal  *)
(* phases are one, and a vanishing phase does not count; the reaction only  *)
(* consumes, never below nothing, in pieces as in one, and to its order.    *)
(***************************************************************************)
EXTENDS Mixture, Lattice

CONSTANTS Deep,        \* more states
          Blend        \* faulty design: both phases have the density of the mixture

VARIABLES first, second, r, p, lam, kind, ready
vars == << first, second, r, p, lam, kind, ready >>
given == << first, second, r, p, lam, kind >>
Pairs == { "gas", "water", "explosive", "metal", "liquid" }
Init ==
  /\ ready = FALSE
  /\ first \in Pairs /\ second \in Pairs
  /\ r \in (IF Deep THEN {70, 90, 110, 130} ELSE {90, 110}) /\ p \in (IF Deep THEN {1, 2, 4} ELSE {2})
  /\ lam \in (IF Deep THEN {0, 1, 10, 50, 90, 99, 100} ELSE {0, 10, 50, 90, 100}) /\ kind \in -1..2
Next == ~ready /\ ready' = TRUE /\ UNCHANGED given
Spec == Init /\ [][Next]_vars

Law(l) == [LawOf(l) EXCEPT !.rho0 = F1] @@ RawPar
Reactive == [Kc |-> F1, Ti |-> F3, Bc |-> F2, Ea |-> FI(4), Rc |-> F1,
             I |-> FI(4), G1 |-> FQ(1, 2), G2 |-> FQ(1, 3), a |-> FQ(-1, 5), b |-> FQ(2, 3), c |-> FQ(2, 3), d |-> FQ(1, 9),
             e |-> FQ(1, 3), g |-> F1, x |-> FI(4), y |-> F2, z |-> F1, phiI |-> FQ(1, 50), phiG1 |-> FQ(4, 5),
             phiG2 |-> FQ(1, 5)]
Mix(l1, l2, k) == [MULTI |-> TRUE, MP2 |-> [MULTI |-> TRUE] @@ Law(l2), REACTION |-> k, Qc |-> F0]
                  @@ (Reactive @@ Law(l1))
m == Mix(first, second, kind)
L == FQ(lam, 100)
rho == FQ(r, 100)
Energy(mm, l) == (l (.) EofRP(mm, rho, FI(p))) (+) ((F1 (-) l) (.) EofRP(mm.MP2, rho, FI(p)))
StateOf(mm, l, e) == << rho, rho (.) e >> \o VZero(3) \o Flat(MScale(FCbrt(rho), MId(3))) \o << rho (.) l >> \o VZero(LSET)
Q == StateOf(m, L, Energy(m, L))
Ph(mm, q, a) == IF Blend THEN << Shared(mm, q, q[1], q[1]), q[1], q[1] >> ELSE Phases(mm, q, a)
S == Ph(m, Q, L)
In == Mixed(m, Q)
Ok(s) == VFinite(s) /\ FLt(F0, s[2]) /\ FLt(F0, s[3]) /\ FLt(FAbs(s[1]), FI(1000))
\* a solution was found, well inside
Found == Ok(S) /\ (Blend \/ FLe(FAbs(Gap(m, Q, FractionOf(Q, S[2]))), FS("1e-7"))) /\ FLt(FQ(1, 50), FractionOf(Q, S[2])) /\ FLt(FractionOf(Q, S[2]), FQ(49, 50))

Balance ==
  In /\ Found => LET x == MixtureResiduals(m, Q, S[1], S[2], S[3]) IN
           /\ FClose(x[1], MicroEnergy(m, Q), FS("1e-9"), FS("1e-9"))
           /\ FClose(x[2], x[3], FS("1e-7"), FS("1e-7"))
           /\ FClose(x[4], F1 (/) Q[1], FS("1e-9"), F0)
Renamed ==
  In /\ Found =>
    LET n == Mix(second, first, kind)
        q == StateOf(n, F1 (-) L, Energy(m, L))
        s == Ph(n, q, F1 (-) FractionOf(Q, S[2]))
    IN VClose(s, << S[1], S[3], S[2] >>, FS("1e-6"), FS("1e-6"))
Twins == first = second => VClose(S, << PofRE(m, rho, MicroEnergy(m, Q)), rho, rho >>, FS("1e-8"), FS("1e-8"))
Alone ==
  (lam = 100 => FEq(S[1], FMax(F0, PofRE(m, rho, MicroEnergy(m, Q)))))
  /\ (lam = 0 => FEq(S[1], FMax(F0, PofRE(m.MP2, rho, MicroEnergy(m, Q)))))

\* reactions
h == FQ(1, 10)
X == Q[1] (/) S[2]
Lasts(n) == React(m, Q, L, h (/) FI(n), n, X)
Reacts ==
  kind >= 0 /\ (lam = 0 \/ (In /\ Found)) =>
    LET a == Lasts(2)  b == Lasts(4)  c == Lasts(8)
        rate == Rate(m, Q, IF In THEN FractionOf(Q, S[2]) ELSE F0)
        switches == kind = 0 \/ kind = 2       \* rates that start or stop at a temperature or concentration
        half == React(m, Q, L, h (/) FI(8), 4, X)
        rest == React(m, Q, half, h (/) FI(8), 4, X)
        usable == FIsFinite(a) /\ FIsFinite(b) /\ FIsFinite(c) /\ FIsFinite(rate)
    IN usable =>
       /\ FLe(F0, rate)
       /\ \A y \in {a, b, c} : FLe(F0, y) /\ FLe(y, L)
       /\ (lam = 0 => c = L /\ rate = F0)
       /\ FClose(rest, c, FS("1e-10"), FS("1e-10"))
       \* (where the steps resolve it: equilibria may jump)
       /\ (~switches /\ FLt(FAbs(a (-) b), FS("1e-5")) => FLe(FAbs(b (-) c), FAbs(a (-) b) (+) FS("1e-9")))
       \* at first, it goes as the rate says
       /\ (~switches => LET y == React(m, Q, L, FS("1e-5"), 1, X)
                        IN FClose(L (-) y, FS("1e-5") (.) rate, FS("1e-3"), FS("1e-9")))
Holds == ready => Balance /\ Renamed /\ Twins /\ Alone /\ Reacts
=============================================================================

----------------------------- MODULE MC_Predict -----------------------------
(***************************************************************************)
(* The space-time predictor and the half step of the specification over a   *)
(* lattice of cells: an undisturbed state stays; a disturbance along one    *)
(* axis of two gives what it gives in one dimension, along either axis; a   *)
(* linear profile of a level set is carried along exactly; a state without  *)
(* gradients relaxes alike in every node, implicitly as explicitly, and to  *)
(* the order of the scheme as its rate says.                                *)
(***************************************************************************)
EXTENDS Scheme, Lattice, Symmetry

CONSTANT SameWidth      \* faulty design: the width of the first direction for both

VARIABLES law, kind, shape, v, tilt, ready
vars == << law, kind, shape, v, tilt, ready >>
given == << law, kind, shape, v, tilt >>
Tilts == << << 0, 0, 0 >>, << 1, 0, 0 >>, << 0, 1, 0 >>, << 1, -1, 1 >> >>   \* of density, shear flow, distortion
Init ==
  /\ ready = FALSE
  /\ law \in Laws /\ kind \in {"viscous", "solid"} /\ shape \in {0, 5}
  /\ v \in { << 0, 0, 0 >>, << 1, -2, 1 >> } /\ tilt \in DOMAIN Tilts
Next == ~ready /\ ready' = TRUE /\ UNCHANGED given
Spec == Init /\ [][Next]_vars

m == MaterialOf(law, kind)
Q0 ==
  LET rho == FQ(11, 10) (.) m.rho0  u == Build(3, LAMBDA k : FQ(v[k], 8))
      A == DistortionOf(shape, FQ(11, 10))  J == << FQ(shape, 20), FQ(-1, 10), F0 >> IN
  << rho, rho (.) TotalEnergy(m, rho, F1, u, A, J, F1) >> \o VScale(rho, u) \o Flat(A)
  \o (IF THERMAL THEN VScale(rho, J) ELSE << >>)
  \o Build(LSET, LAMBDA k : FQ(k, 4))
sc == << m.rho0, FAbs(Q0[2]) (+) m.rho0 >> \o Build(3, LAMBDA k : m.rho0) \o Build(NV - 5, LAMBDA k : F1)
T == Tilts[tilt]
\* the state at x in a cell, with slopes along the axis, and level sets with slopes of their own
At_(x) ==
  LET s(n) == FI(n) (.) (FQ(1, 20) (.) (x (-) Half))
  IN Build(NV, LAMBDA k :
       Q0[k] (+) (IF k = 1 THEN s(T[1]) (.) sc[1] ELSE IF k = 2 THEN s(T[1]) (.) sc[2]
                  ELSE IF k = 4 THEN s(T[2]) (.) sc[4] ELSE IF k = 7 THEN s(T[3])
                  ELSE IF k > NV - LSET THEN x ELSE F0))
w1 == Build(N, LAMBDA a : At_(Nodes[a]))
wx == Build(N * N, LAMBDA s : w1[((s - 1) \div N) + 1])
\* the same along the second axis
Swap(q) == Seq_(TurnState(<< 2, 1, 3 >>, << 1, 1, 1 >>, q))
wy == Build(N * N, LAMBDA s : Swap(w1[((s - 1) % N) + 1]))
dt == FQ(1, 100)
H == FQ(1, 2)
G == FQ(1, 5)
Width(X) == IF SameWidth THEN Build(Len(X), LAMBDA k : X[1]) ELSE X
Same(x, y, t) == VCloseS(x, y, sc, t)

One == Predict(m, 1, w1, dt, << H >>, sc)
AlongX == Predict(m, 2, wx, dt, Width(<< H, G >>), sc)
AlongY == Predict(m, 2, wy, dt, Width(<< G, H >>), sc)
Converges == One.ok /\ AlongX.ok /\ AlongY.ok
Embedded ==
  /\ \A t \in 1..N : \A s \in 1..(N * N) :
       /\ Same(AlongX.q[t][s], One.q[t][((s - 1) \div N) + 1], FS("1e-7"))
       /\ Same(Swap(AlongY.q[t][s]), One.q[t][((s - 1) % N) + 1], FS("1e-7"))
  /\ LET a == HalfStep(m, 1, w1, dt, << H >>)
         b == HalfStep(m, 2, wx, dt, Width(<< H, G >>))
         c == HalfStep(m, 2, wy, dt, Width(<< G, H >>))
     IN \A s \in 1..(N * N) :
          /\ Same(b[s], a[((s - 1) \div N) + 1], FS("1e-11"))
          /\ Same(Swap(c[s]), a[((s - 1) % N) + 1], FS("1e-11"))
Quiet == T = << 0, 0, 0 >>          \* no gradients but of level sets
Plain(x) == SubSeq(x, 1, NV - LSET)
Alike(x, y, t) == VCloseS(Plain(x), Plain(y), Plain(sc), t)
Carried ==
  Quiet => \A t \in 1..N : \A a \in 1..N : \A k \in 1..LSET :
    FClose(One.q[t][a][NV - LSET + k],
           At_(Nodes[a])[NV - LSET + k] (-) ((Q0[3] (/) Q0[1]) (.) ((dt (.) Nodes[t]) (/) H)), F0, FS("1e-9"))
\* without gradients: the rate equation
RECURSIVE Rk(_, _, _)
Rk(q, h, n) ==
  IF n = 0 THEN q
  ELSE LET a == Source(m, q)  b == Source(m, VAxpy(Half (.) h, a, q))  c == Source(m, VAxpy(Half (.) h, b, q))
           d == Source(m, VAxpy(h, c, q))
       IN Rk(VAxpy(h (/) FI(6), VAdd(VAdd(a, d), VScale(F2, VAdd(b, c))), q), h, n - 1)
Rates ==
  Quiet =>
    LET stiff == PredictorIter(m, 1, w1, Predictor0(1, w1), dt, << H >>, TRUE, sc, 60)
        gone == VMaxAbs(VHad(Source(m, Q0), Build(NV, LAMBDA k : dt (/) sc[k])))
    IN /\ stiff.ok
       /\ \A t \in 1..N : \A a \in 1..N :
            /\ Same(One.q[t][a], stiff.q[t][a], FS("1e-7"))
            /\ Alike(One.q[t][a], One.q[t][1], FS("1e-9"))
            /\ Alike(One.q[t][a], Rk(Q0, (dt (.) Nodes[t]) (/) FI(4), 4),
                    FS("1e-9") (+) (FI(5) (.) Sq(gone)))
Still ==
  Quiet /\ kind = "solid" /\ ~THERMAL => \A t \in 1..N : \A a \in 1..N : Alike(One.q[t][a], Q0, FS("1e-10"))

Holds == ready => Converges /\ Embedded /\ Carried /\ Rates /\ Still
=============================================================================

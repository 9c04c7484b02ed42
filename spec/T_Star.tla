------------------------------- MODULE T_Star -------------------------------
(* Trace specification: states either side of material interfaces *)
EXTENDS Star, TraceBase

SameBits(a, b) == a = b
\* the variables that a step changes, in the order of the primitives
Moves == {1, 2, 3, 4, 5, 12, 13, 14} \cup (IF THERMAL THEN {15} ELSE {})
Steady(e, m, Q, P, psc) ==
  LET a == Primitives(m, Q)
      b == Primitives(m, P)
  IN \A k \in (1..NV) \ Moves : FClose(a[k], b[k], FS("1e-12"), FS("1e-13") (.) psc[k])

StepTol == FS("2e-5")
Step(e) ==
  LET L == Side(e.mL, e.L0, e.L1, e.scL, e.pscL, 1)
      steadyL == Req("only acoustic variables change (left)", Steady(e, e.mL, e.L0, e.L1, e.pscL))
      leaveL == Req("waves leave (left)", Leaving(L, StepTol))
  IN IF Vacuum(e.mR)
     THEN steadyL \cup leaveL
          \cup Req("no traction next to vacuum",
                   FLe(VMaxAbs(SubSeq(L.x, 1, 3)), StepTol (.) e.unit))
          \cup (IF ~THERMAL THEN {}
                ELSE Req("no heat flux next to vacuum", FLe(FAbs(Imp(e.L1)[1]), StepTol (.) e.pscL[15])))
     ELSE LET R == Side(e.mR, e.R0, e.R1, e.scR, e.pscR, -1)
              same(a, b, u) == FLe(FAbs(a (-) b), StepTol (.) u)
              vL == Vel(e.L1)  vR == Vel(e.R1)
              vu == FMin(e.pscL[12], e.pscR[12])
              uJ == FMin(e.mL.cal2 (.) e.pscL[15], e.mR.cal2 (.) e.pscR[15])
          IN steadyL \cup leaveL
             \cup Req("only acoustic variables change (right)", Steady(e, e.mR, e.R0, e.R1, e.pscR))
             \cup Req("waves leave (right)", Leaving(R, StepTol))
             \cup Req("normal traction", same(L.x[1], R.x[1], e.unit))
             \cup Req("normal velocity", same(vL[1], vR[1], vu))
             \cup (IF STICK
                   THEN Req("tangential traction", same(L.x[2], R.x[2], e.unit) /\ same(L.x[3], R.x[3], e.unit))
                        \cup Req("tangential velocity", same(vL[2], vR[2], vu) /\ same(vL[3], vR[3], vu))
                   ELSE Req("no tangential traction",
                            FLe(VMaxAbs(SubSeq(L.x, 2, 3) \o SubSeq(R.x, 2, 3)), StepTol (.) e.unit)))
             \cup (IF ~THERMAL THEN {}
                   ELSE Req("temperature", same(L.x[4], R.x[4], e.tunit))
                        \cup Req("heat flux", same(e.mL.cal2 (.) Imp(e.L1)[1], e.mR.cal2 (.) Imp(e.R1)[1], uJ)))

\* e.spread: how much solutions differ for inputs that differ by rounding
\* a whole solution: e.run are the pairs of states, in the frame of the normal, that alternate
\* relaxation and steps lead through (recorded from the parts); e.out is what the whole returned
Solve(e) ==
  LET n == Len(e.run)
      miss == Build(n, LAMBDA k : Mismatch(e.mL, e.mR, e.run[k][1], e.run[k][2]))
      slack == IF STICK THEN FS("1.5") ELSE FS("1.001")    \* components depend on the tangents chosen
      holds(k) == FLe((miss[k] (+) e.rounding) (.) slack, StarTol)
      may(k) == FLe(miss[k], (StarTol (.) slack) (+) e.rounding)
      ends(k) == (k = n \/ may(k)) /\ \A b \in 1..(k - 1) : ~holds(b)
      nan == (\E k \in 1..NV : FIsNaN(e.run[n][1][k])) \/ ~FLt(F0, e.run[n][1][1])
      found == \E k \in 1..n : ends(k) /\ VCloseS(e.out, e.back[k], e.sc, FS("1e-7") (+) (FI(20) (.) e.spread))
  IN IF FLt(FS("1e-3"), e.spread) THEN {}
     ELSE IF nan THEN Req("a failed solution keeps the state", found \/ SameBits(e.out, e.L))
     ELSE IF ~e.tame THEN Req("no admissible state", FLt(F0, e.out[1]) /\ \A k \in 1..NV : ~FIsNaN(e.out[k]))
     ELSE Req("is where the conditions first hold, or the last state", found)
          \cup Req("settles", ~e.settles \/ ~e.tame \/ FLe(miss[n], e.noise))

\* the solutions of the two materials, each in its own grid
Pair(e) ==
  LET t == FMax(FS("1e-6"), e.noise)
      at(m, Q) == LET s == MVec(Sigma(m, Q), e.n)
                      p == VSub(VScale(PressureOf(m, Q), e.n), s) IN p
      nL == VDot(at(e.mL, e.L1), e.n)
      nR == VDot(at(e.mR, e.R1), e.n)
      along(m, Q) == LET a == at(m, Q) IN VSub(a, VScale(VDot(a, e.n), e.n))
      vn(Q) == VDot(Vel(Q), e.n)
      vt(Q) == VSub(Vel(Q), VScale(vn(Q), e.n))
      uv == FMin(e.pscL[12], e.pscR[12])
  IN IF SameBits(e.L0, e.L1) \/ (SameBits(e.R0, e.R1) /\ ~Vacuum(e.mR)) THEN {}   \* no solution
     ELSE IF Vacuum(e.mR) THEN Req("free surface", FLe(VMaxAbs(at(e.mL, e.L1)), t (.) e.unit))
     ELSE Req("normal traction is continuous", FLe(FAbs(nL (-) nR), t (.) e.unit))
          \cup Req("normal velocity is continuous", FLe(FAbs(vn(e.L1) (-) vn(e.R1)), t (.) uv))
          \cup (IF STICK
                THEN Req("tangential traction is continuous",
                         FLe(VMaxAbs(VSub(along(e.mL, e.L1), along(e.mR, e.R1))), t (.) e.unit))
                     \cup Req("tangential velocity is continuous", FLe(VMaxAbs(VSub(vt(e.L1), vt(e.R1))), t (.) uv))
                ELSE Req("no friction", FLe(FMax(VMaxAbs(along(e.mL, e.L1)), VMaxAbs(along(e.mR, e.R1))), t (.) e.unit)))
          \cup (IF ~THERMAL THEN {}
                ELSE Req("temperature is continuous",
                         FLe(FAbs(Temperature1(e.mL, e.L1) (-) Temperature1(e.mR, e.R1)), t (.) e.tunit))
                     \cup Req("heat flux is continuous",
                              FLe(FAbs((e.mL.cal2 (.) (Temperature1(e.mL, e.L1) (.) VDot(Imp(e.L1), e.n)))
                                       (-) (e.mR.cal2 (.) (Temperature1(e.mR, e.R1) (.) VDot(Imp(e.R1), e.n)))),
                                  t (.) e.qunit)))

\* the same problem in rotated axes: e.back is its solution, rotated back
Turned(e) == Req("independent of the axes", VCloseS(e.out, e.back, e.sc, FMax(FS("1e-7"), e.noise) (+) (FI(20) (.) e.spread)))
Alone(e) == Req("equal states are left alone", VCloseS(e.out, e.L, e.sc, FS("1e-12")))
Kept(e) == Req("a failed solution keeps the state", SameBits(e.out, e.L))

EventFaults(e) ==
  CASE e.ev = "starstep" -> Step(e)
    [] e.ev = "starsolve" -> Solve(e)
    [] e.ev = "starpair" -> Pair(e)
    [] e.ev = "turned" -> Turned(e)
    [] e.ev = "alone" -> Alone(e)
    [] e.ev = "kept" -> Kept(e)
=============================================================================

------------------------------ MODULE T_Relax ------------------------------
(* Trace specification: relaxation steps of the split scheme *)
EXTENDS Relax, TraceBase

SameBits(a, b) == a = b
Keeps(a, b, S) == \A k \in S : SameBits(a[k], b[k])
A0(e) == Dist(e.Q0)
A1(e) == Dist(e.Q1)
Symmetric(M, t) == MMaxAbs(MSub(M, MT(M))) # F0 => FLe(MMaxAbs(MSub(M, MT(M))), t (.) MMaxAbs(M))

\* how far two distortions are apart, in units of the initial one's own size
Apart(a, b, Q) == FLe(VMaxAbs(VSub(SubSeq(a, 6, 14), SubSeq(b, 6, 14))),
                      (Q (.) Skew(Dist(a))) (.) FCbrt(FAbs(MDet3(Dist(a)))))
Near(x, y, tol, d0, size) == FLe(VMaxAbs(VSub(x, y)), tol (.) (d0 (.) size))

Relax_(e) ==
  LET m == e.m
      d0 == Skew(A0(e))
      d1 == Skew(A1(e))
      size == MMaxAbs(A0(e))
      a0 == SubSeq(e.Q0, 6, 14)
      a1 == SubSeq(e.Q1, 6, 14)
      fixed == {1, 2} \cup ((NV - LSET + 1)..NV) \cup (IF MULTI THEN {LamIx} ELSE {})
      mom == VAxpy(e.dt, m.dp, SubSeq(e.Q0, 3, 5))
      ode == Relaxed1(m, e.Q0, e.dt)
      \* the stretches come from a cubic's discriminant: relative roundoff eps/d0^3, under a square root
      round == FSqrt(FS("2.3e-16") (/) (d0 (.) (d0 (.) d0)))
      tol == (FS(".02") (+) (F2 (.) d0)) (+) (FI(15) (.) round)
      tiny == ~FLt(FS("3e-6"), d0)
  IN Req("density, energy, level sets and concentration stay", Keeps(e.Q0, e.Q1, fixed))
     \cup Req("momentum gains the body force",
              VClose(SubSeq(e.Q1, 3, 5), mom, FS("1e-12"), FS("1e-14") (.) VMaxAbs(mom)))
     \cup Req("finite", VFinite(e.Q1) /\ VFinite(e.Qh))
     \cup (IF m.SOLID /\ ~m.POWER_LAW THEN Req("elastic solids do not relax", SameBits(a0, a1)) ELSE {})
     \cup Req("determinant", FClose(MDet3(A1(e)), MDet3(A0(e)), FS("1e-10"), F0))
     \cup Req("principal axes", /\ Symmetric(MMul(MT(A0(e)), A1(e)), FS("1e-9"))
                                /\ Symmetric(MMul(A0(e), MT(A1(e))), FS("1e-9"))
                                /\ FLt(F0, Trace3(MMul(MT(A0(e)), A1(e)))))
     \cup Req("towards isotropy", FLe(d1, (d0 (.) FS("1.000001")) (+) FS("1e-9")))
     \cup (IF tiny THEN Req("small distortions", Near(a1, a0, F1, d0, size))
           ELSE IF FLt(d0, FS("2e-3"))
           THEN Req("as far as the source", FLe(FAbs(d1 (-) Skew(A1([Q1 |-> ode]))), tol (.) d0))
           ELSE Req("along the source", Near(a1, SubSeq(ode, 6, 14), tol, d0, size))
                \cup Req("two half steps", Near(a1, SubSeq(e.Qh, 6, 14), tol, d0, size)))
     \cup (IF ~THERMAL THEN {}
           ELSE LET J0 == SubSeq(e.Q0, 15, 17)
                    at == SubSeq(e.Q1, 1, 14) \o J0 \o SubSeq(e.Q1, 18, NV)
                    want == VScale(ImpulseFactor(m, at, e.dt), J0)
                IN Req("thermal impulse decays along itself",
                       VClose(SubSeq(e.Q1, 15, 17), want, FS("1e-6"), FS("1e-9") (.) VMaxAbs(J0))))

EventFaults(e) ==
  CASE e.ev = "relax" -> Relax_(e)
=============================================================================

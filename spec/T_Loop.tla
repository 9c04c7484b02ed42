------------------------------- MODULE T_Loop -------------------------------
(* Trace specification: time steps, maintenance of the distortion, the main loop *)
EXTENDS Loop, TraceBase

Tol == FS("1e-9")
NoDist(Q) == SubSeq(Q, 1, 5) \o SubSeq(Q, 15, NV)
DistOf(Q) == SubSeq(Q, 6, 14)
OwnerOf(e, Q) == e.mats[MaterialIndex(Q) + 1]
CloseDist(a, b) == VClose(a, b, F0, Tol (.) VMaxAbs(b))

TimeStep_(e) ==
  LET lams == { e.lam[m][k + 1] : m \in { i \in 1..Len(e.mats) : e.mats[i].EOS # VACUUM }, k \in Cells(e.nX) }
      all == UNION { { e.lam[m][k + 1] : k \in { j \in Cells(e.nX) : e.masks[m][j + 1] = 1 } }
                     : m \in { i \in 1..Len(e.mats) : e.mats[i].EOS # VACUUM } }
      want == TimeStep(all, e.dX, e.cfl, e.t, e.tf, e.count)
  IN Req("time step", FEq(e.dt, want) \/ FClose(e.dt, want, FS("1e-10"), FS("1e-14") (.) e.tf))
     \cup Req("the step passes the final time", FLe(e.t (+) e.dt, e.tf (.) FS("1.00000000000001")))

Rescale(e) ==
  UNION { LET a == CellOf(e.u0, k)  b == CellOf(e.u1, k)  m == OwnerOf(e, a) IN
          Req("rescaling changes only the distortion", SameBits(NoDist(b), NoDist(a)))
          \cup (IF m.EOS = VACUUM \/ ~FLt(F0, a[1])
                THEN Req("vacuum left alone", SameBits(b, a))
                ELSE Req("rescaled distortion", CloseDist(DistOf(b), DistOf(Rescaled(m, a))))
                     \cup Req("determinant", FClose(MDet3(Dist(b)), a[1] (/) m.rho0, Tol, F0)))
        : k \in Cells(e.nX) }

SameMetric(a, b) ==
  FLe(MMaxAbs(MSub(Metric(Dist(a)), Metric(Dist(b)))), Tol (.) MMaxAbs(Metric(Dist(a))))
SameOrientation(a, b) == FSgn(MDet3(Dist(a))) = FSgn(MDet3(Dist(b)))
Rotate_(e) ==
  UNION { LET a == CellOf(e.u0, k)  b == CellOf(e.u1, k)  m == OwnerOf(e, a) IN
          Req("rotating changes only the distortion", SameBits(NoDist(b), NoDist(a)))
          \cup (IF m.EOS = VACUUM THEN Req("vacuum left alone", SameBits(b, a))
                ELSE Req("metric", SameMetric(a, b)) \cup Req("orientation", SameOrientation(a, b)))
        : k \in Cells(e.nX) }

Above(u, nX, tol, s) == \E k \in Cells(nX) : FLt(tol (.) (F1 (+) s), Strain(CellOf(u, k)))
Contorted_(e) ==
  Req("contorted", IF e.got THEN Above(e.u, e.nX, e.tol, FNeg(Tol)) ELSE ~Above(e.u, e.nX, e.tol, Tol))

\* one turn of the loop, from the filled and advanced grids
Step_(e) ==
  LET vac(o) == e.mats[o + 1].EOS = VACUUM
      merged == Build(Prod(e.nX), LAMBDA k : Merged(e.filled, e.grids, e.masks, vac, k - 1))
      kept == Build(Prod(e.nX), LAMBDA k : Rescaled(OwnerOf(e, merged[k]), Limited(merged[k])))
      turn == ROTATE /\ e.count % 10 = 0
      flat == Flat(kept)
      reset == Above(flat, e.nX, e.tol, F0)
      unsure == Above(flat, e.nX, e.tol, FNeg(Tol)) # Above(flat, e.nX, e.tol, Tol)
      want(k) == IF reset THEN Relaxed(OwnerOf(e, kept[k]), kept[k]) ELSE kept[k]
      Ok(k) == LET g == CellOf(e.u1, k - 1)  w == want(k) IN
               /\ VClose(NoDist(g), NoDist(w), Tol, FS("1e-12") (.) VMaxAbs(NoDist(w)))
               /\ \/ turn /\ ~reset /\ (OwnerOf(e, w).EOS = VACUUM \/ (SameMetric(g, w) /\ SameOrientation(g, w)))
                  \/ CloseDist(DistOf(g), DistOf(w))
  IN Req("state after a step", unsure \/ \A k \in 1..Prod(e.nX) : Ok(k))

\* the whole run
RECURSIVE Run(_, _, _, _)
Run(s, dts, k, tf) == IF k > Len(dts) THEN s ELSE Run(After(s, dts[k], tf), dts, k + 1, tf)
Sched(e) ==
  LET s == Run(Start, e.dts, 1, e.tf)
      h == IF e.failed THEN Failed(s) ELSE Ended(s)
      place(p) == e.match[p + 1]
      filled == { p \in 0..(H - 1) : ~e.empty[p + 1] }
      bad == { p \in filled : e.nans[p + 1] }
  IN IF e.lost     \* the run reached states that the equations do not admit: its later course is open
     THEN Req("history has a hundred places", Len(e.match) = H)
          \cup UNION { Req(<< "place of the history", p >>, \E i \in DOMAIN place(p) : place(p)[i] = s.hist[p])
                      : p \in { q \in DOMAIN s.hist : q < H - 2 } }
          \cup Req("a failed state comes last, after the state before it",
                   bad = {} \/ \E p \in bad : p - 1 \in (IF e.bad THEN filled ELSE filled \ bad) /\ \A q \in filled : q <= p)
          \cup Req("the state before a failed first step is the initial one",
                   e.bad => /\ bad \cap {1, 2} # {}
                            /\ LET p == CHOOSE x \in bad : \A y \in bad : y <= x
                               IN \E i \in DOMAIN place(p - 1) : place(p - 1)[i] = 0)
     ELSE
     Req("the run ends at the final time or at a failed step", e.failed \/ Finished(s, e.tf))
     \cup Req("the run goes on after the final time",
              e.dts = << >> \/ ~Finished(Run(Start, SubSeq(e.dts, 1, Len(e.dts) - 1), 1, e.tf), e.tf))
     \cup Req("history has a hundred places", Len(e.match) = H)
     \cup UNION { Req(<< "place of the history", p >>,
                      IF p \in DOMAIN h THEN \E i \in DOMAIN place(p) : place(p)[i] = h[p]
                      ELSE e.empty[p + 1] \/ e.failed)
                : p \in 0..(H - 1) }

EventFaults(e) ==
  CASE e.ev = "timestep" -> TimeStep_(e)
    [] e.ev = "rescale" -> Rescale(e)
    [] e.ev = "rotate" -> Rotate_(e)
    [] e.ev = "contorted" -> Contorted_(e)
    [] e.ev = "step" -> Step_(e)
    [] e.ev = "sched" -> Sched(e)
=============================================================================

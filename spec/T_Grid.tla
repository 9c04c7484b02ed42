------------------------------- MODULE T_Grid -------------------------------
(* Trace specification: ghost layers, masks, and masked steps *)
EXTENDS GPR, Grid, TraceBase

CONSTANTS N, DESTRESS

Cell(u, k) == SubSeq(u, k * NV + 1, (k + 1) * NV)      \* k = 0, 1, ...

NegMom(Q, S) == [k \in 1..NV |-> IF k - 2 \in S THEN FNeg(Q[k]) ELSE Q[k]]
NegDist(Q, d) ==
  [k \in 1..NV |->
     IF k < 6 \/ k > 14 THEN Q[k]
     ELSE LET r == ((k - 6) \div 3) + 1  c == ((k - 6) % 3) + 1
          IN IF (r = d) # (c = d) THEN FNeg(Q[k]) ELSE Q[k]]
MovingLid(Q) ==
  LET R == NegMom(Q, {1, 2, 3})
      m == R[3] (+) (F2 (.) Q[1])
  IN [R EXCEPT ![3] = m, ![2] = R[2] (+) ((Sq(m) (-) Sq(Q[3])) (/) (F2 (.) Q[1]))]
Reflect(Q, t) ==
  CASE t[1] = SLIP -> NegMom(Q, {t[2]})
    [] t[1] = STICK -> NegMom(Q, {1, 2, 3})
    [] t[1] = MOVING -> MovingLid(Q)
    [] t[1] = SYMMETRIC -> NegDist(NegMom(Q, {t[2]}), t[2])
RECURSIVE Through(_, _)
Through(Q, ts) == IF ts = << >> THEN Q ELSE Through(Reflect(Q, Head(ts)), Tail(ts))

SameNumbers(a, c) == \A k \in DOMAIN c : FEq(a[k], c[k]) \/ (FIsNaN(a[k]) /\ FIsNaN(c[k]))

\* with DESTRESS a reflecting wall mirrors the stretch: the mean of a ghost cell's distortion and
\* its mirror's is the isotropic distortion of the same volume, rotated alike
Destressed(A, B) ==     \* B is the ghost of A
  LET X == MAdd(A, B)
      d == FAbs(MDet3(A))
      iso == MScale(FI(4) (.) FPow(d, FQ(2, 3)), MId(3))
      S == MMul(MT(X), A)
      sc == Sq(MMaxAbs(A)) (.) FS("1e-9")
  IN /\ FLe(MMaxAbs(MSub(MMul(MT(X), X), iso)), sc)
     /\ FLe(MMaxAbs(MSub(S, MT(S))), sc)
     /\ LET ev == MSymEig(MScale(Half, MAdd(S, MT(S))))[1] IN \A k \in 1..3 : FLt(F0, ev[k])
Walls(p) == { k \in DOMAIN p.through : p.through[k][1] \in {SLIP, STICK, MOVING} }

GhostOk(e, k) ==
  LET x == Coords(Extended(e.nX, N), k)
      p == Provenance(e.nX, N, e.bt, x)
      src == Cell(e.u, IndexOf(e.nX, p.cell))
      want == Through(src, p.through)
      got == Cell(e.ub, k)
      moved == \E j \in DOMAIN p.through : p.through[j][1] = MOVING
      wall == DESTRESS /\ Walls(p) # {}
  IN /\ \A c \in (1..NV) \ (IF wall THEN 6..14 ELSE {}) :
          IF c \in {2, 3} /\ moved
          THEN FClose(got[c], want[c], FS("1e-12"), FS("1e-12") (.) FAbs(src[c]))
          ELSE FEq(got[c], want[c])
     /\ wall /\ Cardinality(Walls(p)) = 1 /\ Len(p.through) = 1 => Destressed(Dist(src), Dist(got))

Boundaries_(e) ==
  LET ext == Extended(e.nX, N) IN
  Req("size", Len(e.ub) = NV * Prod(ext))
  \cup UNION { LET x == Coords(ext, k)
                   sides == Cardinality({ d \in 1..Len(e.nX) : Side(e.nX[d], N, x[d]) # 0 })
               IN Req(<< "interior", "ghost", "corner ghost" >>[sides + 1], GhostOk(e, k))
             : k \in 0..(Prod(ext) - 1) }

AsMask(nX, m) == [c \in { Coords(nX, k) : k \in 0..(Prod(nX) - 1) } |-> m[IndexOf(nX, c) + 1] = 1]
Mask_(e) ==
  LET ext == Extended(e.nX, 1)
      mask == AsMask(e.nX, e.mask)
      got(k) == e.maskb[k + 1] = 1
  IN Req("cells missing from the working mask",
         \A k \in 0..(Prod(ext) - 1) : MustMark(e.nX, mask, Coords(ext, k)) => got(k))
     \cup Req("extra cells in the working mask",
         \A k \in 0..(Prod(ext) - 1) : got(k) => MayMark(e.nX, mask, Coords(ext, k)))

\* a step of the marked cells alone gives them what a step of all cells gives them
MaskedStep(e) ==
  Req("masked cell differs", \A k \in 0..(Prod(e.nX) - 1) :
        e.mask[k + 1] = 1 => SameNumbers(Cell(e.masked, k), Cell(e.full, k)))

EventFaults(e) ==
  CASE e.ev = "boundaries" -> Boundaries_(e)
    [] e.ev = "mask" -> Mask_(e)
    [] e.ev = "maskedstep" -> MaskedStep(e)
=============================================================================

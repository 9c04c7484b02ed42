-------------------------------- MODULE F64 --------------------------------
(***************************************************************************)
(* IEEE-754 binary64 numbers, vectors and matrices.                        *)
(*                                                                         *)
(* A number is the pair <<hi, lo>> of the two 32-bit halves of its bit     *)
(* pattern: TLA+ equality is bit equality, and JSON traces carry values    *)
(* losslessly through TLC's 32-bit integers.  The operators below are the  *)
(* primitive operations of the arithmetic; TLC evaluates them with the     *)
(* module override java/F64.java (binary64 arithmetic of the JVM).         *)
(* Everything else in the specification is built from these in TLA+.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

LOCAL Primitive == CHOOSE x : x \notin Int   \* the body of an overridden operator

FI(n) == Primitive                      \* the number n
FQ(p, q) == Primitive                   \* p/q
FS(s) == Primitive                      \* the number written in the string s
FAdd(a, c) == Primitive
FSub(a, c) == Primitive
FMul(a, c) == Primitive
FDiv(a, c) == Primitive
FNeg(a) == Primitive
FAbs(a) == Primitive
FSqrt(a) == Primitive
FCbrt(a) == Primitive
FExp(a) == Primitive
FLog(a) == Primitive
FSin(a) == Primitive
FCos(a) == Primitive
FPow(a, c) == Primitive
FMax(a, c) == Primitive
FMin(a, c) == Primitive
FLt(a, c) == Primitive
FLe(a, c) == Primitive
FEq(a, c) == Primitive
FIsNaN(a) == Primitive
FIsFinite(a) == Primitive
FTrunc(a) == Primitive                  \* truncation towards zero, an integer
FClose(a, c, r, t) == Primitive         \* |a - c| <= r * max(|a|, |c|) + t; NaN is close to nothing
VAdd(a, c) == Primitive
VSub(a, c) == Primitive
VScale(s, a) == Primitive
VHad(a, c) == Primitive                 \* componentwise product
VDot(a, c) == Primitive
VSum(a) == Primitive
VMaxAbs(a) == Primitive
VFinite(a) == Primitive
VClose(a, c, r, t) == Primitive
VCloseS(a, c, s, t) == Primitive        \* componentwise |a[k] - c[k]| <= t * s[k]
MT(a) == Primitive
MMul(a, c) == Primitive
MAdd(a, c) == Primitive
MSub(a, c) == Primitive
MScale(s, a) == Primitive
MVec(a, v) == Primitive
MMaxAbs(a) == Primitive
MDet3(a) == Primitive                   \* determinant of a 3x3 matrix
MSolve(a, c) == Primitive               \* the matrix x with a x = c
MInv(a) == Primitive
MSpecRad(a) == Primitive                \* spectral radius
MAbsVec(a, v) == Primitive              \* |a| v, for a with real eigenvalues
MSymEig(m) == Primitive                 \* <<eigenvalues, eigenvectors as rows>> of a symmetric matrix
VZero(n) == Primitive
Rows(v, m) == Primitive                 \* the rows of width m of the sequence v
Flat(v) == Primitive                    \* concatenation of a sequence of sequences
Seq_(v) == Primitive                    \* v, evaluated
FStr(a) == Primitive
VStr(a) == Primitive

\* infix notation
a (+) c == FAdd(a, c)
a (-) c == FSub(a, c)
a (.) c == FMul(a, c)
a (/) c == FDiv(a, c)

F0 == FI(0)
F1 == FI(1)
F2 == FI(2)
F3 == FI(3)
Half == FQ(1, 2)
Third == FQ(1, 3)
Sq(a) == FMul(a, a)
IsFloat(x) == DOMAIN x = {1, 2} /\ x[1] \in Int /\ x[2] \in Int

\* evaluated sequences (TLC's function values are lazy)
Build(n, Op(_)) == Seq_([k \in 1..n |-> Op(k)])
VNeg(v) == VScale(FI(-1), v)
VAxpy(s, x, y) == VAdd(VScale(s, x), y)
RECURSIVE VSumOf(_, _, _)
VSumOf(Op(_), a, b) == IF a = b THEN Op(a) ELSE VAdd(Op(a), VSumOf(Op, a + 1, b))
RECURSIVE FSumOf(_, _, _)
FSumOf(Op(_), a, b) == IF a = b THEN Op(a) ELSE FAdd(Op(a), FSumOf(Op, a + 1, b))
MId(n) == Build(n, LAMBDA p : Build(n, LAMBDA q : IF p = q THEN F1 ELSE F0))
=============================================================================

---- MODULE RealOps ----
(***************************************************************************)
(* Real arithmetic.  TLA+ has no floating point numbers, and TLC no reals; *)
(* this module declares the operators and RealOps.java overrides them with *)
(* IEEE double arithmetic (the same mechanism TLC uses for Integers).      *)
(*                                                                         *)
(* A real is an opaque <<hi, lo>> pair of 32 bit integers, a vector a      *)
(* tuple of three reals, a quaternion <<i,j,k,w>>, a matrix three rows.    *)
(* The bodies below are never evaluated: without the override class on the *)
(* class path every check stops with an error instead of deciding anything.*)
(***************************************************************************)
EXTENDS Integers, TLC

NoOverride == Assert(FALSE, "RealOps.class is not on the class path")

F32(bits) == NoOverride  \* the real whose IEEE single precision encoding is the integer bits
Num(n) == NoOverride  \* the integer n
Rat(a, c) == NoOverride  \* a/c
RAdd(a, c) == NoOverride
RSub(a, c) == NoOverride
RMul(a, c) == NoOverride
RDiv(a, c) == NoOverride
RNeg(a) == NoOverride
RAbs(a) == NoOverride
RSqrt(a) == NoOverride
RMin(a, c) == NoOverride
RMax(a, c) == NoOverride
RSign(a) == NoOverride  \* -1, 0 or 1
RLt(a, c) == NoOverride
RLe(a, c) == NoOverride
REq(a, c) == NoOverride
RIsNaN(a) == NoOverride
RFinite(a) == NoOverride
RNear(a, c, tol) == NoOverride  \* |a - c| <= tol, or equal infinities
RFloor(a) == NoOverride
RShow(a) == NoOverride
RToMilli(a) == NoOverride  \* 1000*a rounded to an integer
V32(v) == NoOverride  \* F32 on each component (any length)
VAdd(a, c) == NoOverride
VSub(a, c) == NoOverride
VNeg(a) == NoOverride
VScale(a, s) == NoOverride
VDot(a, c) == NoOverride
VCross(a, c) == NoOverride
VLen(a) == NoOverride
VUnit(a) == NoOverride  \* a/|a|
VLerp(a, c, s) == NoOverride  \* a*(1-s) + c*s
VNear(a, c, tol) == NoOverride  \* RNear on each component
VFinite(a) == NoOverride
VMaxAbs(a) == NoOverride
QExp(v) == NoOverride  \* the rotation by |v| about v
QMul(a, c) == NoOverride  \* first c, then a
QInv(a) == NoOverride
QUnit(a) == NoOverride
QLen(a) == NoOverride
QRot(q, v) == NoOverride  \* v turned by q
QSame(a, c, tol) == NoOverride  \* the same rotation up to tol: min(|a-c|, |a+c|) <= tol
QDist(a, c) == NoOverride  \* min(|a-c|, |a+c|)
QSlerp(a, c, s) == NoOverride  \* the rotation at s on the short arc from a to c
M32(v) == NoOverride  \* nine singles, row by row
MAdd(a, c) == NoOverride
MScale(a, s) == NoOverride
MDiag(v) == NoOverride
MOuter(a, c) == NoOverride
MVec(a, v) == NoOverride
MTurn(q, m) == NoOverride  \* R m R^T for the rotation matrix R of q
MInv(a) == NoOverride  \* inverse, zero matrix if there is none
MCond(a) == NoOverride  \* |det| / (largest entry)^3
MNear(a, c, tol) == NoOverride
MFinite(a) == NoOverride
MMaxAbs(a) == NoOverride
SumR(seq) == NoOverride  \* sum of a sequence of reals, vectors, matrices
SumV(seq) == NoOverride
SumM(seq) == NoOverride
MinOf(seq) == NoOverride  \* least of a sequence of reals (infinity if empty)
MaxOf(seq) == NoOverride
SeqOf(set) == NoOverride  \* the elements of a set, in some fixed order
Fp(v) == NoOverride  \* names a value (used to emit state graphs)

(* Infix notation: ++ -- ** // for reals, \prec and \preceq to compare them, *)
(* \oplus \ominus for vectors, v \odot s to scale one.                     *)
a ++ b == RAdd(a, b)
a -- b == RSub(a, b)
a ** b == RMul(a, b)
a // b == RDiv(a, b)
a \prec b == RLt(a, b)
a \preceq b == RLe(a, b)
a \oplus b == VAdd(a, b)
a \ominus b == VSub(a, b)
a \odot s == VScale(a, s)

(* Constants *)
R0 == Num(0)
R1 == Num(1)
RHalf == Rat(1, 2)
RTwo == Num(2)
RInf == RDiv(Num(1), Num(0))
RNaN == RDiv(Num(0), Num(0))
V0 == <<R0, R0, R0>>
VX == <<R1, R0, R0>>
VY == <<R0, R1, R0>>
VZ == <<R0, R0, R1>>
Q1 == <<R0, R0, R0, R1>>
M0 == <<V0, V0, V0>>
MId == <<VX, VY, VZ>>
Vi(a, b, c) == <<Num(a), Num(b), Num(c)>>
(* The number the library calls EPSILON *)
Eps == Rat(1, 1000000)
====

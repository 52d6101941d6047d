------------------------------- MODULE Reals64 -------------------------------
(* Arithmetic on IEEE-754 doubles for TLC. TLC has 32-bit integers only; the    *)
(* records the conformance harness logs hold doubles. Every operator below is   *)
(* bound to its Java definition in java/Reals64.java (TLC binds a class to the  *)
(* module of the same name); the bodies here only fix name and arity. Only      *)
(* arithmetic, sorting, linear solves and distribution functions live in Java:  *)
(* every statistical definition and every property is written in TLA+.         *)
EXTENDS Integers, Sequences
LOCAL U == CHOOSE x : TRUE
(* scalars: integers are accepted wherever a real is expected *)
R(s) == U
RAdd(a, b) == U
RSub(a, b) == U
RMul(a, b) == U
RDiv(a, b) == U
RNeg(a) == U
RAbs(a) == U
RSqrt(a) == U
RExp(a) == U
RLn(a) == U
RLog1p(a) == U
RTanh(a) == U
RCosh(a) == U
RSin(a) == U
RPow(a, b) == U
RLt(a, b) == U
RLe(a, b) == U
REq(a, b) == U
RIsNaN(a) == U
RIsFinite(a) == U
RIsNum(a) == U
RMax2(a, b) == U
RMin2(a, b) == U
RFloor(a) == U
RRound(a, k) == U
RClose(a, b, rtol, atol) == U
VClose(s, t, rtol, atol) == U
MClose(s, t, rtol, atol) == U
VFinite(s) == U
MFinite(m) == U
(* sequences of reals *)
VSum(s) == U
VSort(s) == U
VArgsort(s) == U
VDot(s, t) == U
VAdd(s, t) == U
VSub(s, t) == U
VMul(s, t) == U
VScale(k, s) == U
VShift(s, k) == U
VAbs(s) == U
PairDiffs(s) == U
Sel(s, ix) == U
(* matrices: sequences of rows *)
MT(m) == U
MMul(a, b) == U
MV(a, x) == U
MScale(k, m) == U
MSub(a, b) == U
MInv(m) == U
MSolve(m, q) == U
MDet(m) == U
EigVals(m) == U
MSymPow(m, pw) == U
EigVecs(m) == U
Concordance(s, t) == U
ColMeans(m) == U
Scatter(m, mu) == U
SqDists(m, mu, cov) == U
(* distribution functions *)
ChiCdf(x, df) == U
ChiPpf(q, df) == U
GammaCdf(x, a) == U
NormCdf(x) == U
NormPpf(q) == U
(* the records of a JSON-lines file *)
LoadRecords(path) == U

a \oplus b == RAdd(a, b)
a \ominus b == RSub(a, b)
a \otimes b == RMul(a, b)
a \oslash b == RDiv(a, b)
a \prec b == RLt(a, b)
a \preceq b == RLe(a, b)
a \succ b == RLt(b, a)
a \succeq b == RLe(b, a)
=============================================================================

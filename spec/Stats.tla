-------------------------------- MODULE Stats --------------------------------
(* Statistical definitions shared by the specifications, over Reals64.         *)
EXTENDS Reals64, FiniteSets, Functions, TLC

N(s) == Len(s)
Idx(s) == 1..Len(s)
MapSeq(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]
SumI(S, f(_)) == FoldFunction(LAMBDA a, b : a + b, 0, [x \in S |-> f(x)])
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
AllSeq(s, P(_)) == \A i \in 1..Len(s) : P(s[i])
IsPermOf(s, n) == Len(s) = n /\ {s[i] : i \in 1..n} = 1..n
(* the positions of s that satisfy P, in order, and the matching elements *)
Positions(s, P(_)) == SelectSeq(TLCEval([i \in 1..Len(s) |-> i]), LAMBDA i : P(s[i]))
Filter(s, P(_)) == Sel(s, Positions(s, P))
CountIf(s, P(_)) == Len(Positions(s, P))
Sub(s, a, b) == [i \in 1..(b - a + 1) |-> s[a + i - 1]]
SubsetsOfSize(k, S) == {T \in SUBSET S : Cardinality(T) = k}
SetSeq(S) == LET F[T \in SUBSET S] == IF T = {} THEN <<>> ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y IN <<m>> \o F[T \ {m}] IN F[S]
Col(m, j) == [i \in 1..Len(m) |-> m[i][j]]
ColMap(m, Op(_)) == [j \in 1..Len(m[1]) |-> Op(Col(m, j))]

Sq(x) == x \otimes x
Mean(s) == VSum(s) \oslash Len(s)
VarPop(s) == LET m == Mean(s) IN VSum(MapSeq(s, LAMBDA x : Sq(x \ominus m))) \oslash Len(s)
VarSample(s) == LET m == Mean(s) IN VSum(MapSeq(s, LAMBDA x : Sq(x \ominus m))) \oslash (Len(s) - 1)
(* k-th smallest, 1-based *)
OrderStat(s, k) == VSort(s)[k]
Median(s) == LET t == VSort(s) n == Len(s) IN
  IF n % 2 = 1 THEN R(t[(n + 1) \div 2]) ELSE (t[n \div 2] \oplus t[n \div 2 + 1]) \oslash 2
MADraw(s) == LET m == Median(s) IN Median(VAbs(VShift(s, RNeg(m))))
MADN(s) == MADraw(s) \oslash NormPpf(R("0.75"))
(* linear-interpolation quantile (numpy's default), q a real in [0,1] *)
Quantile(s, q) == LET t == VSort(s) pos == q \otimes (Len(s) - 1) k == RFloor(pos) f == pos \ominus k IN
  IF k + 2 > Len(s) THEN R(t[Len(s)]) ELSE t[k + 1] \oplus (f \otimes (t[k + 2] \ominus t[k + 1]))
MinOf(s) == R(VSort(s)[1])
MaxOf(s) == R(VSort(s)[Len(s)])
MaxAbs(s) == MaxOf(VAbs(s))
Spread(s) == MaxOf(s) \ominus MinOf(s)
WMean(s, w) == VDot(s, w) \oslash VSum(w)
(* sample covariance (divisor n-1) and correlation of the rows *)
Cov(m) == MScale(R(1) \oslash (Len(m) - 1), Scatter(m, ColMeans(m)))
CorrOf(c) == [i \in 1..Len(c) |-> [j \in 1..Len(c) |-> c[i][j] \oslash RSqrt(c[i][i] \otimes c[j][j])]]
Outer(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(b) |-> a[i] \otimes b[j]]]
Diag(m) == [i \in 1..Len(m) |-> m[i][i]]
DiagOf(v) == [i \in 1..Len(v) |-> [j \in 1..Len(v) |-> IF i = j THEN R(v[i]) ELSE R(0)]]
Identity(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
MaxAbsM(m) == MaxOf([i \in 1..Len(m) |-> MaxAbs(m[i])])
Symmetric(m, tol) == MClose(m, MT(m), tol, tol \otimes MaxAbsM(m))
PSD(m, tol) == LET e == EigVals(m) IN e[Len(e)] \succeq RNeg(tol \otimes RMax2(RAbs(e[1]), R("1e-300")))
SignR(x) == IF 0 \prec x THEN 1 ELSE IF x \prec 0 THEN -1 ELSE 0

(* rho and psi functions *)
HuberRho(x, b) == IF RAbs(x) \preceq b THEN Sq(x) \oslash 2 ELSE (b \otimes RAbs(x)) \ominus (Sq(b) \oslash 2)
HuberPsi(x, b) == IF RAbs(x) \preceq b THEN R(x) ELSE b \otimes SignR(x)
BisqPsi(x, c) == IF RAbs(x) \preceq c THEN x \otimes Sq(1 \ominus Sq(x \oslash c)) ELSE R(0)
BisqRho(x, c) == IF RAbs(x) \preceq c
  THEN ((Sq(x) \oslash 2) \ominus (Sq(Sq(x)) \oslash (2 \otimes Sq(c)))) \oplus ((Sq(x) \otimes Sq(Sq(x))) \oslash (6 \otimes Sq(Sq(c))))
  ELSE Sq(c) \oslash 6
WrapPsi(z, b, c, q1, q2) == IF RAbs(z) \prec b THEN R(z)
  ELSE IF RAbs(z) \preceq c THEN (q1 \otimes RTanh(q2 \otimes (c \ominus RAbs(z)))) \otimes SignR(z) ELSE R(0)

(* clauses of a verdict: lazily evaluated, so Ok is only looked at when App *)
Cl(name, App, Ok) == <<name, IF ~App THEN "na" ELSE IF Ok THEN "ok" ELSE "fail">>
=============================================================================

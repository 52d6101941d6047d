------------------------------- MODULE Coverage -------------------------------
(* The coverage parameter alpha of the h-subset estimators. A configuration    *)
(* carries at \in {"none","int","float"} and a (the integer, or percents/1000).*)
EXTENDS Reals64
AlphaFloat(a) == a \oslash 1000
(* smallest admissible subset: a majority *)
HMinMulti(n, p) == (n + p + 1) \div 2
HMinUni(n) == n \div 2 + 1
AlphaValid(at, a, n) ==
  \/ at = "none"
  \/ at = "int" /\ ((2 * a >= n /\ a <= n) \/ a = 1)
  \/ at = "float" /\ 500 <= a /\ a <= 1000
Requested(at, a, n) ==
  IF at = "none" THEN 0
  ELSE IF at = "int" THEN (IF 2 * a >= n /\ a <= n THEN a ELSE n)
  ELSE RFloor(AlphaFloat(a) \otimes n)
HOf(at, a, n, hmin) == LET q == Requested(at, a, n) IN IF q > hmin THEN q ELSE hmin
=============================================================================

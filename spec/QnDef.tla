-------------------------------- MODULE QnDef --------------------------------
(* Rousseeuw and Croux's Qn by its definition.                                 *)
EXTENDS Stats
HOrd(n) == n \div 2 + 1
KOrd(n) == (HOrd(n) * (HOrd(n) - 1)) \div 2
Table == <<R(1), R("0.399"), R("0.994"), R("0.512"), R("0.844"), R("0.611"), R("0.857"), R("0.669"), R("0.872")>>
FiniteFactor(n) == IF n <= 9 THEN Table[n] ELSE IF n % 2 = 1 THEN n \oslash (n \oplus R("1.4")) ELSE n \oslash (n \oplus R("3.8"))
Consistency == R("2.219144")
QnOf(x, cc, fc) ==
  LET n == Len(x)
      base == OrderStat(PairDiffs(x), KOrd(n))
  IN (base \otimes (IF cc THEN Consistency ELSE R(1))) \otimes (IF fc THEN FiniteFactor(n) ELSE R(1))
=============================================================================

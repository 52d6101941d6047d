------------------------------- MODULE UniDefs -------------------------------
(* Univariate estimators that are explicit functions of the sample, shared.    *)
EXTENDS Stats
(* ---- one-step M *)
Psi(fn, u, c) == IF fn = "huber" THEN HuberPsi(u, c) ELSE BisqPsi(u, c)
Rho(fn, u, c) == IF fn = "huber" THEN HuberRho(u, c) ELSE BisqRho(u, c)
PsiW(fn, u, c) == IF RAbs(u) \preceq R("1e-5") THEN R(1) ELSE Psi(fn, u, c) \oslash u
OneLoc(x, fn, c) == LET m == Median(x) s == MADN(x) sd == IF s \prec R("1e-12") THEN R(1) ELSE s IN
  WMean(x, MapSeq(x, LAMBDA v : PsiW(fn, (v \ominus m) \oslash sd, c)))
OneScale2(x, fn, c, delta) == LET m == Median(x) s == MADN(x) IN IF s \prec R("1e-12") THEN R(0) ELSE
  (Sq(s) \otimes Mean(MapSeq(x, LAMBDA v : Sq(Psi(fn, (v \ominus m) \oslash s, c))))) \oslash delta
(* Huber location and scale with b=1.5, the preset                         *)
HuberLoc(x) == OneLoc(x, "huber", R("1.5"))
HuberScale(x) == RSqrt(OneScale2(x, "huber", R("1.5"), R("0.7784655")))
Filter2(x, d, cut) == Sel(x, Positions(d, LAMBDA q : q \prec cut))
(* ---- the univariate MCD with its defaults (h = [n/2]+1, corrected, reweighted) *)
UniWindows(x, h) == LET s == TLCEval(VSort(x)) IN [i \in 1..(Len(x) - h + 1) |-> Sub(s, i, i + h - 1)]
UniMCDOf(x) ==
  LET n == Len(x)
      h == n \div 2 + 1
      wins == TLCEval(UniWindows(x, h))
      vs == TLCEval([i \in 1..Len(wins) |-> VarPop(wins[i])])
      b == CHOOSE i \in 1..Len(vs) : \A j \in 1..Len(vs) : vs[i] \preceq vs[j]
      m == Mean(wins[b])
      v == vs[b] \otimes ((h \oslash n) \oslash ChiCdf(ChiPpf(h \oslash n, 1), 3))
      d == TLCEval([i \in 1..n |-> Sq(x[i] \ominus m) \oslash v])
      cut == TLCEval(ChiPpf(R("0.975"), 1))
      xs == TLCEval(Filter2(x, d, cut))
      del == R(Len(xs)) \oslash n
  IN [loc |-> Mean(xs), var |-> VarPop(xs) \otimes (del \oslash GammaCdf(ChiPpf(del, 1) \oslash 2, R("1.5"))),
      sure |-> (R("1e-12") \prec v) /\ (\A i \in 1..n : ~RClose(d[i], cut, R("1e-7"), 0))
               /\ (\A i \in 1..Len(vs) : i = b \/ ~RClose(vs[i], vs[b], R("1e-7"), 0))]
=============================================================================

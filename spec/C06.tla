--------------------------------- MODULE C06 ---------------------------------
(* Tau, one-step M and wrapping estimators, rho/psi functions and the wrapping *)
(* transformation, against their defining formulas.                            *)
EXTENDS UniDefs, GenKit

Kinds == {"normal", "skew", "heavy", "ints", "intdtype", "ties", "out20", "cluster", "shifted", "tiny", "huge", "bimodal", "majority", "sorted"}
Ns == {3, 4, 5, 7, 8, 10, 11, 16, 25, 40, 63, 100, 151}
TauC == [what : {"tau"}, n : Ns, rep : 1..3, kind : Kinds, c1 : {45, 30, 20}, c2 : {30, 20, 15}, cc : {"T", "F"}]
OneC == [what : {"onestep"}, n : Ns, rep : 1..3, kind : Kinds, lr : {"huber", "bisq"}, lc : {10, 15, 30}, sr : {"huber", "bisq"}, sc : {15, 25, 40}, delta : {500, 845, 778}]
PreC == [what : {"huber1", "cell1", "wrap1"}, n : Ns, rep : 1..6, kind : Kinds]
RhoC == [what : {"rho"}, fn : {"huber", "bisq"}, c : {3, 10, 15, 25, 47, 156}, unit : {1, 10, 100}, rep : 1..2]
WrapC == [what : {"wrapping"}, n : {6, 11, 20, 33, 60}, p : 1..4, rep : 1..2, kind : Kinds \ {"shifted"}, b : {10, 15}, c : {30, 40}, rescale : {"T", "F"}, def : {"T", "F"}]
Cases == << Pick(Size(300, 2500), TauC), Pick(Size(300, 2500), OneC), Pick(Size(400, 1600), PreC), Pick(Size(60, 100), RhoC), Pick(Size(250, 1200), WrapC) >>

T10(k) == k \oslash 10
(* ---- tau: weighted mean with bisquare-type weights, truncated second moment *)
TauW(u, c1) == IF RAbs(u) \preceq c1 THEN Sq(1 \ominus Sq(u \oslash c1)) ELSE R(0)
TauLoc(x, c1) == LET m == Median(x) s == MADraw(x) IN WMean(x, MapSeq(x, LAMBDA v : TauW((v \ominus m) \oslash s, c1)))
Phi(x) == RExp(RNeg(Sq(x) \oslash 2)) \oslash R("2.5066282746310002")
TauCorr(c2) == LET b == c2 \otimes NormPpf(R("0.75")) IN
  (2 \otimes ((((1 \ominus Sq(b)) \otimes NormCdf(b)) \ominus (b \otimes Phi(b))) \oplus Sq(b))) \ominus 1
TauVar(x, loc, c2) == LET s == MADraw(x) IN Sq(s) \otimes Mean(MapSeq(x, LAMBDA v : RMin2(Sq((v \ominus loc) \oslash s), Sq(c2))))
(* ---- wrapping location: tanh weights around the univariate MCD *)
WA == R("0.7532528")
WB == R("0.8430849")
WK == R("4.1517212")
Wq1 == RSqrt(WA \otimes (WK \ominus 1))
Wq2 == R("0.5") \otimes RSqrt(((WK \ominus 1) \otimes Sq(WB)) \oslash WA)
WrapW(u) == IF RAbs(u) \prec R("1.5") THEN R(1) ELSE WrapPsi(RAbs(u), R("1.5"), 4, Wq1, Wq2) \oslash RAbs(u)
(* ---- wrapping transformation of one column, median and raw MAD *)
WrapCol(x, b, c, rescale) ==
  LET m == Median(x) s == MADraw(x)
      sd == IF REq(s, 0) THEN R(1) ELSE s
      z == TLCEval(MapSeq(x, LAMBDA v : WrapPsi((v \ominus m) \oslash sd, b, c, R("1.540793"), R("0.8622731"))))
      mu == Mean(z) sg == RSqrt(VarPop(z))
      k == s \oslash (IF REq(sg, 0) THEN R(1) ELSE sg)
  IN IF rescale THEN MapSeq(z, LAMBDA v : m \oplus ((v \ominus mu) \otimes k)) ELSE MapSeq(z, LAMBDA v : m \oplus (v \otimes s))
NearBreak(x, b, c) == LET m == Median(x) s == MADraw(x) IN \E i \in 1..Len(x) : LET u == RAbs((x[i] \ominus m) \oslash s) IN ~REq(s, 0) /\
  (RClose(u, b, R("1e-9"), 0) \/ RClose(u, c, R("1e-9"), 0))

JudgeRho(r) == LET ok == r.st = "ok" o == r.out c == r.c IN
  << Cl("Returns", TRUE, ok),
     Cl("RhoDefinition", ok, \A i \in 1..Len(r.x) : RClose(o.rho[i], Rho(r.fn, r.x[i], c), R("1e-10"), R("1e-12"))),
     Cl("PsiDefinition", ok, \A i \in 1..Len(r.x) : RClose(o.psi[i], Psi(r.fn, r.x[i], c), R("1e-10"), R("1e-12"))),
     Cl("RhoEvenPsiOdd", ok, \A i \in 1..Len(r.x) : RClose(o.rho[i], o.rhoneg[i], R("1e-12"), R("1e-14")) /\ RClose(o.psi[i], RNeg(o.psineg[i]), R("1e-12"), R("1e-14"))),
     Cl("RhoNonDecreasing", ok, \A i \in 1..(Len(r.x) - 1) : (R(0) \preceq r.x[i] /\ r.x[i] \preceq r.x[i+1]) => o.rho[i] \preceq (o.rho[i+1] \oplus R("1e-12"))) >>

JudgeWrap(r) == LET ok == r.st = "ok" o == r.out p == Len(r.x) IN
  << Cl("Returns", TRUE, ok),
     Cl("WrappingDefinition", ok, \A j \in 1..p : LET x == r.x[j] IN
        NearBreak(x, r.b, r.c) \/ VClose(o[j], WrapCol(x, r.b, r.c, r.rescale), R("1e-8"), R("1e-9") \otimes (Spread(x) \oplus (R("1e-6") \otimes MaxAbs(x))))),
     Cl("RescaleKeepsLocationAndScale", ok /\ r.rescale, \A j \in 1..p : LET x == r.x[j] s == MADraw(x) IN
        REq(s, 0) \/ (RClose(Mean(o[j]), Median(x), R("1e-8"), R("1e-8") \otimes (s \oplus MaxAbs(x)))
           /\ RClose(VarPop(o[j]), Sq(s), R("1e-6"), R("1e-14") \otimes Sq(MaxAbs(x))))) >>

JudgeEst(r) ==
  LET x == r.x
      ok == r.st = "ok"
      o == r.out
      deg == REq(MADraw(x), 0)
      tol == (R("1e-9") \otimes Spread(x)) \oplus (R("1e-13") \otimes MaxAbs(x))
      vt == (R("1e-12") \otimes Sq(Spread(x))) \oplus (R("1e-16") \otimes Sq(MaxAbs(x)))
      w == r.what
  IN << Cl("Returns", TRUE, ok),
        Cl("TauLocation", ok /\ ~deg /\ w = "tau", RClose(o.loc, TauLoc(x, r.c1), R("1e-9"), tol)),
        Cl("TauScale", ok /\ ~deg /\ w = "tau", RClose(Sq(o.scale), TauVar(x, o.loc, r.c2) \oslash (IF r.cc THEN TauCorr(r.c2) ELSE R(1)), R("1e-8"), R(0))),
        Cl("OneStepLocation", ok /\ ~deg /\ w \in {"onestep", "huber1", "cell1"}, RClose(o.loc, OneLoc(x, r.lr, r.lc), R("1e-9"), tol)),
        Cl("OneStepScale", ok /\ ~deg /\ w \in {"onestep", "huber1", "cell1"}, RClose(Sq(o.scale), OneScale2(x, r.sr, r.sc, r.delta), R("1e-8"), R(0))),
        Cl("WrappingLocation", ok /\ w = "wrap1" /\ ~REq(o.mcdscale, 0),
           RClose(o.loc, WMean(x, MapSeq(x, LAMBDA v : WrapW((v \ominus o.mcdloc) \oslash o.mcdscale))), R("1e-7"), R("1e-7") \otimes o.mcdscale)),
        Cl("WrappingScaleIsMCD", ok /\ w = "wrap1", RClose(o.scale, o.mcdscale, R("1e-12"), 0)),
        Cl("DegenerateFiniteInRange", ok /\ deg, RIsFinite(o.loc) /\ RIsFinite(o.scale) /\ (MinOf(x) \ominus tol) \preceq o.loc /\ o.loc \preceq (MaxOf(x) \oplus tol)),
        Cl("DegenerateScaleZero", ok /\ deg /\ w # "wrap1", o.scale \preceq (R("1e-12") \otimes MaxAbs(x))) >>
Judge(r) == IF r.what = "rho" THEN JudgeRho(r) ELSE IF r.what = "wrapping" THEN JudgeWrap(r) ELSE JudgeEst(r)
=============================================================================

--------------------------------- MODULE C15 ---------------------------------
(* Robust scaling and robust power transforms.                                 *)
EXTENDS UniDefs, QnDef, GenKit
Kinds == {"normal", "skew", "heavy", "ints", "intdtype", "out20", "shifted", "tiny", "huge", "bimodal", "sorted"}
ScalerC == [what : {"scaler"}, n : {3, 5, 8, 12, 21, 40, 100}, p : 1..4, kind : Kinds, est : {"default", "mcd60", "qn", "tau", "huber", "wrap"}, cent : {"T", "F"}, scal : {"T", "F"},
            form : {"array", "frame", "vector"}, nan : {"T", "F"}, hist : {"fresh", "refit"}, rep : 1..2]
PKinds == {"lognormal", "shiftnormal", "gamma", "weibull", "uniform", "power7", "powerneg", "posint", "posintdtype", "out10"}
SKinds == {"normal", "heavy3", "leftskew", "gammac", "intdtype", "unif", "out10n", "centred", "power7"}
Pow(ms, ks) == [what : {"power"}, method : ms, kind : ks, n : {12, 20, 31, 50, 80, 150}, std : {"T", "F"}, q : {1000, 990, 950}, steps : 1..3, hist : {"fresh", "refit"}, rep : 1..2]
BadC == [what : {"bad"}, method : {"boxcox", "name", "boxcoxT"}, n : {12, 31}, std : {"T", "F"}, which : {"zero", "negative", "integer"}]
Cases == << Pick(Size(400, 4000), ScalerC), Pick(Size(150, 2500), Pow({"boxcox"}, PKinds)), Pick(Size(150, 2500), Pow({"yeojohnson"}, PKinds \cup SKinds)),
            Pick(Size(120, 1500), Pow({"auto"}, PKinds \cup SKinds)), BadC >>

Map(s, Op(_)) == TLCEval(MapSeq(s, Op))
(* ---- the published transforms *)
BoxCox(x, lam) == IF REq(lam, 0) THEN RLn(x) ELSE (RPow(x, lam) \ominus 1) \oslash lam
YJ(x, lam) == IF 0 \preceq x THEN (IF REq(lam, 0) THEN RLog1p(x) ELSE (RPow(1 \oplus x, lam) \ominus 1) \oslash lam)
              ELSE (IF REq(lam, 2) THEN RNeg(RLog1p(RNeg(x))) ELSE RNeg((RPow(1 \ominus x, 2 \ominus lam) \ominus 1) \oslash (2 \ominus lam)))
T(m, x, lam) == IF m = "boxcox" THEN BoxCox(x, lam) ELSE YJ(x, lam)
(* derivative: positive everywhere *)
DT(m, x, lam) == IF m = "boxcox" THEN RPow(x, lam \ominus 1) ELSE IF 0 \preceq x THEN RPow(1 \oplus x, lam \ominus 1) ELSE RPow(1 \ominus x, 1 \ominus lam)
LogJac(m, x) == IF m = "boxcox" THEN RLn(x) ELSE SignR(x) \otimes RLog1p(RAbs(x))
(* negative profile log-likelihood of lambda *)
NLL(m, s, lam) == LET t == Map(s, LAMBDA v : T(m, v, lam)) IN
  ((Len(s) \oslash 2) \otimes RLn(VarPop(t))) \ominus ((lam \ominus 1) \otimes VSum(Map(s, LAMBDA v : LogJac(m, v))))
HStd(t) == LET l == HuberLoc(t) s == HuberScale(t) IN Map(t, LAMBDA v : (v \ominus l) \oslash s)
(* distance of the transformed sample to normality *)
Crit(m, s, lam) ==
  LET n == Len(s)
      z == TLCEval(VSort(HStd(TLCEval(Map(s, LAMBDA v : T(m, v, lam))))))
  IN VSum([i \in 1..n |-> BisqRho(z[i] \ominus NormPpf((i \ominus (1 \oslash 3)) \oslash (n \oplus (1 \oslash 3))), R("0.5"))])

(* ---- the rectified transforms: beyond the changepoint (1.5 times the transformed quartile, within the *)
(* range of the transform, within the data) the transform goes on linearly                                *)
InvT(m, y, lam) ==
  IF m = "boxcox" THEN (IF REq(lam, 0) THEN RExp(y) ELSE RPow((lam \otimes y) \oplus 1, 1 \oslash lam))
  ELSE IF 0 \preceq y THEN (IF REq(lam, 0) THEN RExp(y) \ominus 1 ELSE RPow((lam \otimes y) \oplus 1, 1 \oslash lam) \ominus 1)
  ELSE (IF REq(lam, 2) THEN 1 \ominus RExp(RNeg(y)) ELSE 1 \ominus RPow(1 \oplus ((lam \ominus 2) \otimes y), 1 \oslash (2 \ominus lam)))
Quart(n) == (n + 3) \div 4
Change(m, s, lam) ==
  LET n == Len(s)
      q == IF lam \prec 1 THEN s[n - Quart(n) + 1] ELSE s[Quart(n)]
      a == R("1.5") \otimes T(m, q, lam)
      b == IF lam \prec 0 THEN RMin2(a, RAbs(1 \oslash lam) \ominus R("1e-5"))
           ELSE IF m = "boxcox" THEN (IF 0 \prec lam THEN RMax2(a, R("1e-5") \ominus (1 \oslash lam)) ELSE a)
           ELSE (IF 2 \prec lam THEN RMax2(a, R("1e-5") \oplus (1 \oslash (2 \ominus lam))) ELSE a)
  IN RMin2(RMax2(InvT(m, b, lam), s[1]), s[n])
Rect(m, s, lam) ==
  IF REq(lam, 1) THEN (IF m = "boxcox" THEN VShift(s, R(-1)) ELSE s)
  ELSE LET c == TLCEval(Change(m, s, lam)) tc == TLCEval(T(m, c, lam)) dc == TLCEval(DT(m, c, lam))
       IN Map(s, LAMBDA v : IF (IF lam \prec 1 THEN c \prec v ELSE v \prec c) THEN tc \oplus (dc \otimes (v \ominus c)) ELSE T(m, v, lam))
(* Yeo-Johnson continues on the side of its sign only (the data are centred) *)
RectDomain(m, s, lam) == m = "boxcox" \/ REq(lam, 1) \/ (LET c == Change(m, s, lam) IN IF lam \prec 1 THEN 0 \preceq c ELSE c \preceq 0)

JudgeScaler(r) ==
  LET ok == r.st = "ok"
      o == r.out
      p == Len(r.loc)
      Row(x) == [j \in 1..p |-> (x[j] \ominus r.loc[j]) \oslash r.scale[j]]
      big == [j \in 1..p |-> MaxAbs(Filter(Col(r.Z, j), LAMBDA v : RIsFinite(v)))]
      okc == TLCEval({j \in 1..p : RIsFinite(r.scale[j]) /\ (R("1e-12") \otimes (big[j] \oplus RAbs(r.loc[j]))) \prec r.scale[j]})
  IN << Cl("Returns", TRUE, ok),
        Cl("FittedLocation", ok, VClose(o.loc, r.loc, R("1e-12"), 0)),
        Cl("FittedScale", ok, VClose(o.scale, r.scale, R("1e-12"), 0)),
        Cl("QnScale", ok /\ r.est = "qn" /\ r.scal /\ ~r.nan, \A j \in 1..p : RClose(o.scale[j], QnOf(Col(r.X, j), TRUE, TRUE), R("1e-9"), R("1e-13") \otimes MaxAbs(Col(r.X, j)))),
        Cl("Standardises", ok /\ okc # {}, \A j \in okc : VClose(Col(o.t, j), [i \in 1..Len(r.Z) |-> (r.Z[i][j] \ominus r.loc[j]) \oslash r.scale[j]], R("1e-9"), R("1e-12"))),
        Cl("InverseRestores", ok /\ okc # {}, \A j \in okc : VClose(Col(o.inv, j), Col(r.Z, j), R("1e-9"), R("1e-10") \otimes (r.scale[j] \oplus RAbs(r.loc[j])))) >>

JudgePower(r) ==
  LET ok == r.st = "ok"
      o == r.out
      m == IF ok THEN o.method ELSE "none"
      lam == o.lam
      pre(v) == IF m = "boxcox" THEN v \oslash o.spre ELSE (v \ominus o.lpre) \oslash o.spre
      x == TLCEval(Map(r.x, LAMBDA v : pre(v)))
      z == TLCEval(Map(r.z, LAMBDA v : pre(v)))
      tx == TLCEval(Map(x, LAMBDA v : T(m, v, lam)))
      tz == TLCEval(Map(z, LAMBDA v : T(m, v, lam)))
      post(v) == (v \ominus o.lpost) \oslash o.spost
      atol == R("1e-9") \otimes (1 \oplus RAbs(o.lpost \oslash o.spost))
      tp == TLCEval(Map(tz, LAMBDA v : post(v)))
      (* what one rounding error of the transformed value means on the original scale *)
      cond(i) == ((RAbs(tz[i]) \oplus RAbs(o.lpost)) \oplus (1 \oplus (1 \oslash RAbs(lam)))) \oslash DT(m, z[i], lam)
      usable == TLCEval({i \in 1..Len(z) : RIsFinite(cond(i)) /\ cond(i) \prec R("1e9")})
      w == IF ~r.weighted THEN [i \in 1..Len(x) |-> i]
           ELSE LET h == TLCEval(HStd(TLCEval(Map(x, LAMBDA v : T(m, v, o.lprev))))) cut == RSqrt(ChiPpf(r.q, 1)) IN Positions(h, LAMBDA v : RAbs(v) \preceq cut)
      edge == IF ~r.weighted THEN FALSE ELSE LET h == TLCEval(HStd(TLCEval(Map(x, LAMBDA v : T(m, v, o.lprev))))) cut == RSqrt(ChiPpf(r.q, 1)) IN \E i \in 1..Len(h) : RClose(RAbs(h[i]), cut, R("1e-3"), 0)
      xw == TLCEval(Sel(x, w))
      txw == Sel(tx, w)
      inner(l) == R("-3.4") \prec l /\ l \prec R("5.4")
      lik == ok /\ r.likok /\ inner(lam) /\ inner(o.lprev) /\ ~edge /\ m = r.ml
      f(l) == NLL(m, xw, l)
      f0 == f(lam)
      cb == Crit("boxcox", TLCEval(Map(r.x, LAMBDA v : v \oslash o.bspre)), o.blam)
      cy == Crit("yeojohnson", TLCEval(Map(r.x, LAMBDA v : (v \ominus o.yloc) \oslash o.yscale)), o.ylam)
  IN << Cl("Returns", TRUE, ok),
        Cl("Finite", ok, RIsFinite(lam) /\ VFinite(o.tx)),
        Cl("PublishedFormula", ok, VClose(o.tx, Map(tx, LAMBDA v : post(v)), R("1e-9"), atol)),
        Cl("PublishedFormulaNewData", ok, VClose(o.tz, tp, R("1e-9"), atol)),
        Cl("StrictlyIncreasing", ok, \A i \in 1..(Len(r.z) - 1) : IF i \in usable /\ (i + 1) \in usable /\ (R("1e-6") \otimes (1 \oplus RAbs(z[i]))) \prec (z[i + 1] \ominus z[i])
                                        THEN o.tz[i] \prec o.tz[i + 1] ELSE o.tz[i] \preceq (o.tz[i + 1] \oplus atol)),
        Cl("InverseRestores", ok, \A i \in usable : RAbs((pre(o.inv[i])) \ominus z[i]) \preceq ((R("1e-8") \otimes RAbs(z[i])) \oplus (R("1e-10") \oplus (R("1e-13") \otimes cond(i))))),
        Cl("InverseFiniteAnywhere", ok, VFinite(o.far)),
        Cl("PreStandardisation", ok /\ r.std, IF m = "boxcox" THEN RClose(o.spre, Median(r.x), R("1e-10"), 0)
             ELSE RClose(o.lpre, Median(r.x), R("1e-10"), R("1e-12") \otimes MaxAbs(r.x)) /\ RClose(o.spre, MADN(r.x), R("1e-10"), 0)),
        Cl("LambdaMaximisesLikelihood", lik, \A d \in {"1e-2", "-1e-2", "1e-1", "-1e-1"} : f0 \preceq (f(lam \oplus R(d)) \oplus (R("1e-7") \otimes (1 \oplus RAbs(f0))))),
        Cl("PostLocation", lik /\ r.std, RClose(o.lpost, Mean(txw), R("1e-8"), R("1e-8") \otimes Spread(txw))),
        Cl("PostScale", lik /\ r.std, RClose(o.spost, RSqrt(VarPop(txw)), R("1e-8"), 0)),
        Cl("RowOrderIrrelevant", ok, RClose(o.plam, lam, R("1e-9"), R("1e-9"))),
        Cl("DtypeIrrelevant", ok /\ r.isint, RClose(o.dlam, lam, 0, 0) /\ VClose(o.dtx, o.tx, R("1e-12"), R("1e-12"))),
        Cl("RefitStateless", ok, RClose(o.rlam, lam, 0, 0) /\ o.rmethod = m),
        Cl("RectifiedTransform", ok /\ r.hasrect, LET xs == TLCEval(VSort(x)) IN \A k \in 1..Len(o.rect) : RectDomain(m, xs, R(o.rect[k].lam)) =>
              LET e == TLCEval(Rect(m, xs, R(o.rect[k].lam))) IN VClose(o.rect[k].t, e, R("1e-6"), R("1e-9") \otimes (1 \oplus RAbs(e[1])))),
        (* the two methods at the powers where their formulas change form *)
        Cl("SpecialPowers", ok, \A k \in 1..Len(o.spec) : LET e == o.spec[k] IN
             /\ \A i \in 1..Len(e.x) : RClose(e.t[i], T(m, e.x[i], e.lam), R("1e-9"), R("1e-12"))
             /\ VClose(e.inv, e.x, R("1e-8"), R("1e-10"))),
        Cl("AutoNeedsPositive", ok /\ r.method = "auto" /\ ~(0 \prec MinOf(r.x)), m = "yeojohnson"),
        Cl("AutoTakesLowerObjective", ok /\ r.method = "auto" /\ r.positive, IF RClose(cb, cy, R("1e-6"), R("1e-9")) THEN TRUE ELSE (m = "boxcox") <=> (cb \prec cy)) >>

JudgeBad(r) == << Cl("InvalidInputRejected", TRUE, r.st = "ok" /\ r.out.exc = "ValueError") >>
Judge(r) == IF r.what = "scaler" THEN JudgeScaler(r) ELSE IF r.what = "power" THEN JudgePower(r) ELSE JudgeBad(r)
=============================================================================

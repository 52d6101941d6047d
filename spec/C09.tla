--------------------------------- MODULE C09 ---------------------------------
(* LTS regression: concentrated subset, scale and reweighting.                 *)
EXTENDS Regr, LTSFactors, GenKit
Xs == {"normal", "corr", "skew", "scales", "ints"}
Conts == {"none", "vertical", "scattered", "leverage", "mixed"}
Alp == {500, 550, 600, 667, 750, 800, 875, 880, 900, 950, 1000}
Ns == {8, 10, 13, 16, 21, 30, 45, 60, 85, 120}
Space(init) == [x : Xs, cont : Conts, n : Ns, p : 1..5, a : Alp, rw : {"T", "F"}, seed : 0..5, starts : IF init = "T" THEN {1, 3} ELSE {10, 40}, ics : 1..3, nbest : {1, 3, 10}, unit : {"one", "big"}, init : {init}]
Exh == [x : {"normal", "skew", "scales"}, cont : {"none", "vertical", "scattered"}, n : {7}, p : {1}, a : {500, 600}, rw : {"F"}, seed : 0..9, starts : {300}, ics : {1, 2}, nbest : {1, 5}, unit : {"one"}, init : {"F"}]
(* the small-sample factors themselves, also for an intercept only (p = 0) and many observations *)
Factors == [what : {"factor"}, p : 0..9, n : {30, 57, 130, 900}, seed : 0..3]
Cases == << Pick(Size(600, 5000), Space("F")), Pick(Size(80, 600), Space("T")), Pick(Size(30, 200), Exh), Pick(Size(100, 200), Factors) >>
LossOf(X, y, ix) == VSum(Sel(SqRes(X, y, LSOn(X, y, ix)), ix)) \oslash Len(ix)
CStep(X, y, f, h) == Sub(VArgsort(SqRes(X, y, f)), 1, h)
(* the loss after the initial C-steps from an elemental fit *)
FromStart(X, y, T, h, k) ==
  LET F[i \in 0..k] == IF i = 0 THEN LSOn(X, y, SetSeq(T)) ELSE LSOn(X, y, TLCEval(CStep(X, y, F[i-1], h)))
  IN LossOf(X, y, CStep(X, y, F[k-1], h))

(* C-steps until the subset is stable: the deterministic end of a search that
   starts from given coefficients                                              *)
RECURSIVE Concentrate(_, _, _, _, _)
Concentrate(X, y, f, h, k) ==
  LET a == TLCEval(CStep(X, y, f, h))
      g == TLCEval(LSOn(X, y, a))
      b == TLCEval(CStep(X, y, g, h))
  IN IF k = 0 \/ {a[i] : i \in 1..h} = {b[i] : i \in 1..h} THEN g ELSE Concentrate(X, y, g, h, k - 1)

JudgeFit(r) ==
  LET ok == r.st = "ok"
      o == r.out
      X == r.X  y == r.y  n == r.n  p == r.p
      h == Len(o.ix)
      f == TLCEval(LSOn(X, y, o.ix))
      r2 == TLCEval(SqRes(X, y, f))
      loss == TLCEval(VSum(Sel(r2, o.ix)) \oslash h)
      ord == TLCEval(VArgsort(r2))
      g == TLCEval(LSOn(X, y, Sub(ord, 1, h)))
      lossg == SumSmallest(SqRes(X, y, g), h) \oslash h
      slack == R("1e-14") \oplus (R("1e-9") \otimes loss)
      raw == TLCEval(RawCorrection(p, n, r.a) \otimes RSqrt(loss))
      cut == TLCEval((NormPpf(R("0.9875")) \otimes Consistency(h, n)) \otimes raw)
      ar == TLCEval([i \in 1..n |-> RSqrt(r2[i])])
      clear == \A i \in 1..n : ~RClose(ar[i], cut, R("1e-6"), 0)
      kept == TLCEval(Positions(ar, LAMBDA v : v \preceq cut))
      gk == TLCEval(LSOn(X, y, kept))
      lk == VSum(Sel(SqRes(X, y, gk), kept)) \oslash Len(kept)
      tol == R("1e-7") \otimes (Spread(y) \oplus RSqrt(loss))
      Fits(u) == VClose(o.fitted, LinPred(X, u.b0, u.b), R("1e-7"), tol)
      wellposed == Len(kept) > p + 1
  IN << Cl("Returns", TRUE, ok),
        Cl("ConcentratedSubset", ok, (loss \ominus lossg) \preceq slack),
        Cl("RawModelIsLeastSquaresOnSubset", ok /\ ~r.rw, Fits(f)),
        Cl("RawScale", ok, RClose(o.rawscale, raw, R("1e-6"), R("1e-9") \otimes Spread(y))),
        Cl("ReweightedModel", ok /\ r.rw /\ clear /\ wellposed, Fits(gk)),
        Cl("ReweightedScale", ok /\ r.rw /\ clear /\ wellposed,
             RClose(o.scale, RewCorrection(p, n, r.a) \otimes RSqrt(lk), R("1e-6"), R("1e-9") \otimes Spread(y))),
        Cl("NotWorseThanAnyElementalStart", ok /\ r.full,
             \A T \in SubsetsOfSize(r.p + 1, 1..n) : loss \preceq (FromStart(X, y, T, h, r.ics) \oplus slack)),
        Cl("MoreCandidatesNeverWorse", ok /\ Len(r.chain) > 1, \A k \in 2..Len(r.chain) : r.chain[k] \preceq (r.chain[k - 1] \oplus (R("1e-7") \otimes (r.chain[k - 1] \oplus (R("1e-7") \otimes Spread(y)))))),
        Cl("InitialWeightsRespected", ok /\ r.init /\ ~r.rw /\ r.steady, Fits(Concentrate(X, y, r.w, h, 200))),
        Cl("PredictIsAffine", ok, VClose(o.fitted, LinPred(X, o.b0, o.b), R("1e-7"), tol)) >>
JudgeFactor(r) ==
  << Cl("Returns", TRUE, r.st = "ok"),
     Cl("FactorsAsPublished", r.st = "ok" /\ r.there, \A i \in 1..Len(r.al) : RClose(r.raw[i], RawCorrection(r.p, r.n, r.al[i]), R("1e-9"), 0)
                                                     /\ RClose(r.rew[i], RewCorrection(r.p, r.n, r.al[i]), R("1e-9"), 0)) >>
Judge(r) == IF "what" \in DOMAIN r.case THEN JudgeFactor(r) ELSE JudgeFit(r)
=============================================================================

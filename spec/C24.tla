--------------------------------- MODULE C24 ---------------------------------
(* Robust PCA: orthonormal bases, numbers of components, variances, scores and *)
(* projections; ROBPCA stage by stage; spherical PCA from its definition.      *)
EXTENDS PCADefs, GenKit
Kinds == {"normal", "indep", "corr", "heavy", "skew", "rows15", "cluster30", "shift", "scales", "tinyscale", "cells"}
Fits == [est : {"robpca", "robpca", "sph"}, kind : Kinds, n : {12, 15, 20, 27, 40, 60}, p : {2, 3, 4, 6}, nc : {0, 0, 1, 2, 3, 6}, kmin : {500, 800, 950, 999, 1000}, alpha : {500, 625, 750, 875, 1000}, mcd : {"F", "T"}, seed : 0..5]
Wide == [est : {"robpca", "sph"}, kind : {"indep", "rows15"}, n : {12, 14, 18}, p : {15, 25}, nc : {0, 2, 3}, kmin : {500, 800}, alpha : {750}, mcd : {"F"}, seed : 0..5]
Flat == [est : {"robpca", "sph"}, kind : {"flat"}, n : {15, 20, 40}, p : {3, 4, 5}, nc : {0, 1, 2}, kmin : {800, 1000}, alpha : {500, 750, 1000}, mcd : {"F", "T"}, seed : 0..5]
Cases == << Pick(Size(230, 4000), Fits), Pick(Size(30, 80), Wide), Pick(Size(30, 300), Flat) >>

Judge(r) ==
  LET ok == r.st = "ok"
      o == r.out
      X == r.X
      n == Len(X)
      p == Len(X[1])
      C == o.C
      k == Len(o.ev)
      sc == MaxAbsM(X)
      sized == ok /\ k >= 1 /\ Len(C) = p /\ Len(C[1]) = k
      isR == sized /\ r.est = "robpca"
      g == TLCEval(RobpcaOf(X, r.outl, r.a, r.nc, r.kmin))
      sure == isR /\ g.sure /\ g.k >= 1
      tot == VSum(g.val)
      spread == TLCEval(RSqrt(MaxOf(EigVals(Cov(X)))))
      tl == (R("1e-6") \otimes spread) \oplus (R("1e-9") \otimes sc)
      SameM(a, b, s) == MClose(a, b, 0, s)
      noMcd == sure /\ (~r.mcd \/ g.k = 1)
      withMcd == sure /\ r.mcd /\ g.k > 1 /\ r.mcdok
      isS == sized /\ r.est = "sph"
      sphC == TLCEval(SignCov(X, o.loc))
      sv == TLCEval(EigVals(sphC))
      sE == TLCEval(EigVecs(sphC))
      fsc == TLCEval(Scores(X, o.loc, sE))
      mads == TLCEval([j \in 1..p |-> Sq(MADN(Col(fsc, j)))])
      dist == \A j \in 1..(p - 1) : RClose(sv[j], sv[j + 1], 0, R("1e-5")) = FALSE
      scum == TLCEval(Cumul(mads))
      kS == IF r.nc = 0 THEN FirstReach(scum, r.kmin) ELSE MinI(r.nc, p)
      kSsure == r.nc # 0 \/ \A j \in 1..(p - 1) : ~RClose(scum[j], r.kmin, R("1e-9"), 0)
      wide == n - 1 < p
      Y == TLCEval(MSub(r.Y, [i \in 1..Len(r.Y) |-> o.loc]))
      T == TLCEval(MMul(Y, C))
      tt == R("1e-9") \otimes RMax2(MaxAbsM(r.Y), MaxAbs(o.loc))
  IN << Cl("Returns", TRUE, ok),
        Cl("ShapesAgree", ok, sized /\ o.k = k /\ Len(o.ratio) = k),
        Cl("OrthonormalComponents", sized, MClose(MMul(MT(C), C), Identity(k), 0, R("1e-8"))),
        Cl("FiniteLocation", ok, VFinite(o.loc) /\ Len(o.loc) = p),
        Cl("VariancesNonNegative", sized, \A j \in 1..k : RIsFinite(o.ev[j]) /\ 0 \preceq o.ev[j]),
        Cl("VariancesDescending", isR, \A j \in 1..(k - 1) : o.ev[j + 1] \preceq (o.ev[j] \otimes R("1.0000001"))),
        Cl("RatioIsCumulated", sized, (\A j \in 1..k : 0 \preceq o.ratio[j] /\ o.ratio[j] \preceq R("1.0000001")) /\ (\A j \in 1..(k - 1) : o.ratio[j] \preceq (o.ratio[j + 1] \otimes R("1.0000001")))),
        Cl("ScoresAreProjectionsOnComponents", sized, SameM(o.T, T, tt)),
        Cl("ProjectionStaysInSubspace", sized, SameM(o.P, MMul(T, MT(C)), tt)),
        Cl("RobpcaNumberOfComponents", sure, o.k = g.k),
        Cl("RobpcaShares", sure /\ o.k = g.k, VClose(o.ratio, Sub(g.cum, 1, g.k), R("1e-6"), R("1e-8"))),
        Cl("RobpcaLocation", noMcd, VClose(o.loc, g.loc, 0, tl)),
        Cl("RobpcaSubspace", noMcd /\ o.k = g.k, SameM(MMul(C, MT(C)), Projector(g.B), R("1e-4"))),
        Cl("RobpcaVariances", noMcd /\ o.k = g.k, VClose(o.ev, g.val, R("1e-5"), R("1e-9") \otimes tot)),
        Cl("RobpcaStageForMCD", withMcd, VClose(r.ref.loc1, g.loc, 0, tl) /\ SameM(r.ref.P1, Projector(g.B), R("1e-4"))),
        Cl("RobpcaMCDLocation", withMcd, VClose(o.loc, r.ref.loc, 0, tl)),
        Cl("RobpcaMCDModel", withMcd, SameM(ModelCov(C, o.ev), r.ref.cov, R("1e-5") \otimes MaxAbsM(r.ref.cov))),
        Cl("SphericalLocationIsSpatialMedian", isS, LET b == TLCEval(Weisz(X, o.loc, 40)) IN F(X, o.loc) \preceq ((F(X, b) \otimes R("1.00001")) \oplus tl)),
        Cl("SphericalComponents", isS /\ dist /\ ~wide /\ kSsure, o.k = kS /\ \A j \in 1..k : RClose(RAbs(VDot(Col(C, j), sE[j])), 1, 0, R("1e-5"))),
        Cl("SphericalVariances", isS /\ dist /\ ~wide /\ kSsure /\ o.k = kS, VClose(o.ev, Sub(mads, 1, k), R("1e-4"), R("1e-9") \otimes Sq(spread))),
        Cl("SphericalShares", isS /\ dist /\ ~wide /\ kSsure /\ o.k = kS, VClose(o.ratio, Sub(scum, 1, k), R("1e-4"), R("1e-8"))),
        Cl("SphericalWideSpectrum", isS /\ wide, \A j \in 1..MinI(k, n - 2) : RClose(VDot(Col(C, j), MV(sphC, Col(C, j))), sv[j], R("1e-5"), R("1e-7"))),
        Cl("RowOrderIrrelevant", isS /\ dist /\ ~wide, o.sameperm),
        Cl("RefitIrrelevant", ok, o.refit) >>
=============================================================================

--------------------------------- MODULE C27 ---------------------------------
(* Geometric helpers against their definitions.                                *)
EXTENDS Geo, GenKit
WMs == [f : {"wmed"}, kind : {"normal", "ints", "ties", "heavy", "sorted", "majority", "huge"}, n : {1, 2, 3, 4, 5, 8, 13, 30, 61}, w : {"ones", "ints", "unif", "onebig", "halves", "zeros"}, rep : 1..3]
L1s == [f : {"l1"}, kind : {"normal", "indep", "heavy", "ties", "scales", "tinyscale", "shift", "cluster30", "intdtype"}, n : {3, 5, 8, 12, 20, 33}, p : 1..4, hit : {"no", "mean", "dup", "majority", "cross"}, rep : 1..2]
Ds == [f : {"maha"}, kind : {"normal", "corr", "scales", "shift", "intdtype", "heavy"}, n : {1, 2, 10, 25}, p : 1..5, form : {"array", "frame", "fortran"}, loc : {"vec", "row", "col"}]
Invs == [f : {"inv"}, p : 1..8, k : 0..8, ord : {"sorted", "perm"}, cond : {"good", "scaled"}, rep : 1..3]
SDs == [f : {"sd"}, kind : {"normal", "indep", "heavy", "skew", "ties", "rows15", "scales"}, n : {6, 7, 9}, p : 1..3, pts : {2, 3}, seed : 0..9, dup : {"F", "F", "T"}]
Cases == << Pick(Size(300, 3000), WMs), Pick(Size(220, 1500), L1s), Pick(Size(120, 1000), Ds), Pick(Size(200, 384), Invs), Pick(Size(120, 900), SDs) >>

(* --- weighted median --- *)
WBelow(s, w, v) == LET k == Positions(s, LAMBDA x : x \prec v) IN IF k = <<>> THEN R(0) ELSE VSum(Sel(w, k))
WAbove(s, w, v) == LET k == Positions(s, LAMBDA x : v \prec x) IN IF k = <<>> THEN R(0) ELSE VSum(Sel(w, k))
(* --- Stahel-Donoho --- *)
Cross3(a, b) == << (a[2] \otimes b[3]) \ominus (a[3] \otimes b[2]), (a[3] \otimes b[1]) \ominus (a[1] \otimes b[3]), (a[1] \otimes b[2]) \ominus (a[2] \otimes b[1]) >>
Directions(X, pts, p) == LET n == Len(X) IN
  IF pts = 2 THEN {<<i, j>> \in (1..n) \X (1..n) : i < j} ELSE {q \in (1..n) \X (1..n) \X (1..n) : q[1] < q[2] /\ q[2] < q[3]}
DirOf(X, q) == IF Len(q) = 2 THEN VSub(X[q[1]], X[q[2]]) ELSE Cross3(VSub(X[q[2]], X[q[1]]), VSub(X[q[3]], X[q[1]]))
Outl(X, d) == LET t == TLCEval(MV(X, VScale(1 \oslash Norm(d), d))) m == TLCEval(Median(t)) s == TLCEval(MADraw(t))
              IN TLCEval([i \in 1..Len(X) |-> RAbs(t[i] \ominus m) \oslash s])

Judge(r) ==
  LET ok == r.st = "ok"
      o == r.out
      isW == ok /\ r.f = "wmed"
      tot == VSum(r.w)
      half == (tot \oslash 2) \otimes R("1.000000000001")
      is1 == ok /\ r.f = "l1"
      X == r.X
      n == Len(X)
      lt == R("1e-12") \otimes (n \otimes MaxAbsM(X))
      fm == TLCEval(F(X, o.m))
      isM == ok /\ r.f = "maha"
      isI == ok /\ r.f = "inv"
      k == Len(r.ix)
      subA == TLCEval([a \in 1..k |-> [b \in 1..k |-> r.A[r.ix[a]][r.ix[b]]]])
      isS == ok /\ r.f = "sd"
      dirs == TLCEval(SetToSeq(Directions(X, r.pts, r.p)))
      ds == TLCEval([q \in 1..Len(dirs) |-> DirOf(X, dirs[q])])
      defd == TLCEval(Positions(ds, LAMBDA d : (R("1e-9") \otimes (IF r.pts = 2 THEN r.size ELSE Sq(r.size))) \prec Norm(d)))
      big == \A q \in 1..Len(defd) : LET t == TLCEval(MV(X, VScale(1 \oslash Norm(ds[defd[q]]), ds[defd[q]]))) IN (R("1e-7") \otimes r.size) \prec MADraw(t)
      exact == isS /\ (r.pts = 2 \/ (r.p = 3 /\ ~r.dup)) /\ big
      all == TLCEval([q \in 1..Len(defd) |-> Outl(X, ds[defd[q]])])
      sup == TLCEval([i \in 1..n |-> MaxOf(Col(all, i))])
      Eq(a, b) == VClose(a, b, R("1e-6"), R("1e-9"))
  IN << Cl("Returns", TRUE, ok),
        Cl("WeightedMedianIsAnElement", isW, \E i \in 1..Len(r.x) : REq(r.x[i], o.v)),
        Cl("WeightedMedianSplitsTheWeight", isW, WBelow(r.x, r.w, o.v) \preceq half /\ WAbove(r.x, r.w, o.v) \preceq half),
        Cl("L1Finite", is1, VFinite(o.m)),
        Cl("L1NotAboveObservations", is1, \A i \in 1..n : fm \preceq (lt \oplus (F(X, X[i]) \otimes R("1.000001")))),
        Cl("L1NotImprovable", is1, LET b == TLCEval(Weisz(X, o.m, 60)) IN fm \preceq ((F(X, b) \otimes R("1.000002")) \oplus lt)),
        Cl("L1NotImprovableFromMedian", is1, LET b == TLCEval(Weisz(X, ColMap(X, Median), 60)) IN fm \preceq ((F(X, b) \otimes R("1.000002")) \oplus lt)),
        Cl("MahalanobisGivesAnArray", isM, o.array),
        Cl("MahalanobisDefinition", isM, LET q == TLCEval(SqDists(X, r.loc, r.cov)) IN VClose(o.d, [i \in 1..n |-> RSqrt(q[i])], R("1e-7"), R("1e-10"))),
        Cl("SubmatrixInverse", isI, k = 0 \/ MClose(MMul(subA, o.inv), Identity(k), 0, R("1e-6"))),
        Cl("SubmatrixInverseShape", isI, Len(o.inv) = k),
        Cl("OutlyingnessNonNegative", isS, \A i \in 1..n : ~RIsNaN(o.out[i]) /\ 0 \preceq o.out[i]),
        Cl("OutlyingnessSeedReproducible", isS, \A i \in 1..n : REq(o.out[i], o.again[i])),
        Cl("OutlyingnessShiftScaleInvariant", exact, Eq(o.out, o.moved)),
        Cl("OutlyingnessBelowSupremum", exact, \A i \in 1..n : o.few[i] \preceq (sup[i] \otimes R("1.000001"))),
        Cl("OutlyingnessReachesSupremum", exact, Eq(o.out, sup)),
        Cl("OutlyingnessGrowsWithDirections", exact, \A i \in 1..n : o.one[i] \preceq (o.few[i] \otimes R("1.000001")) /\ o.few[i] \preceq (o.out[i] \otimes R("1.000001"))),
        Cl("OneDirectionIsOneProjection", exact /\ ~r.dup, \E q \in 1..Len(all) : Eq(o.one, all[q])) >>
=============================================================================

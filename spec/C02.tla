--------------------------------- MODULE C02 ---------------------------------
(* The chosen h-subset is concentrated, and its statistics are its own.        *)
EXTENDS DetDefs, GenKit
Kinds == {"normal", "indep", "corr", "heavy", "skew", "rows15", "cluster30", "shift", "cells", "scales", "tinyscale"}
Als == << <<"none", 0>>, <<"float", 500>>, <<"float", 600>>, <<"float", 750>>, <<"float", 900>>, <<"int", 1>>, <<"int", 2>>, <<"int", 3>> >>
Base(e, ns, ps, pt) == [est : {e}, kind : Kinds, n : ns, p : ps, al : 1..8, part : pt, seed : 0..3, full : {"F"}, ics : IF e = "fast" THEN {1, 2, 3} ELSE {2}, nbest : IF e = "fast" THEN {1, 3, 10} ELSE {10}]
Exh == [est : {"fast"}, kind : Kinds, n : {7}, p : {2}, al : {1, 3}, part : {1}, seed : 0..9, full : {"T"}, ics : {2}, nbest : {3, 10}]
Exh3 == [est : {"fast"}, kind : {"normal", "corr", "heavy", "skew"}, n : {8}, p : {3}, al : {1}, part : {1}, seed : 0..9, full : {"T"}, ics : {2}, nbest : {10}]
Flat(S) == {[est |-> c.est, kind |-> c.kind, n |-> c.n, p |-> c.p, part |-> c.part, seed |-> c.seed, full |-> c.full, ics |-> c.ics, nbest |-> c.nbest, at |-> Als[c.al][1], a |-> Als[c.al][2]] : c \in S}
Ns == {8, 11, 14, 17, 22, 30, 31, 45, 60, 90}
Cases == << Flat(Pick(Size(300, 3000), Base("fast", Ns, 2..5, 0..3))), Flat(Pick(Size(250, 2500), Base("det", Ns, 2..5, {0}))),
            Flat(Pick(Size(5, 40), Base("fast", {601, 800}, {2, 4}, {0, 1, 2}))), Flat(Pick(Size(5, 40), Base("det", {1000, 1100}, {2, 4}, {0}))),
            Flat(Pick(Size(30, 200), Exh)), Flat(Pick(Size(5, 40), Exh3)) >>

(* the best determinant after two concentration steps from any p+1 observations *)
TwoSteps(X, T, h) == CStep(X, TLCEval(CStep(X, SetSeq(T), h)), h)
Judge(r) ==
  LET ok == r.st = "ok" /\ ~r.out.classical
      o == r.out
      X == r.X
      h == Len(o.ix)
      mu == TLCEval(SubLoc(X, o.ix))
      S == TLCEval(SubCov(X, o.ix))
      det == MDet(S)
      next == TLCEval(CStep(X, o.ix, h))
      nd == DetOf(X, next)
      scale == MaxAbsM(X)
      slack == R("1e-7") \otimes RAbs(det)
      search == ok /\ r.est = "det" /\ r.six
      chains == TLCEval(DetChains(X, h))
  IN << Cl("Returns", TRUE, r.st = "ok"),
        Cl("SubsetLocation", ok, VClose(o.hloc, mu, R("1e-9"), R("1e-10") \otimes scale)),
        Cl("SubsetCovariance", ok, MClose(o.hcov, S, R("1e-7"), R("1e-8") \otimes MaxAbsM(S))),
        Cl("SubsetDeterminant", ok, RClose(o.hdet, det, R("1e-5"), R("1e-300"))),
        Cl("FixedPoint", ok, (det \ominus nd) \preceq slack),
        Cl("NotWorseThanAnyElementalStart", ok /\ r.full,
             \A T \in SubsetsOfSize(r.p + 1, 1..r.n) : det \preceq (DetOf(X, TwoSteps(X, T, h)) \oplus slack)),
        Cl("MoreCandidatesNeverWorse", r.st = "ok" /\ Len(r.chain) > 1, \A k \in 2..Len(r.chain) : r.chain[k] \preceq (r.chain[k - 1] \oplus (R("1e-7") \otimes RAbs(r.chain[k - 1])))),
        Cl("NotWorseThanAnyInitialEstimate", search, \A k \in DOMAIN chains : det \preceq (chains[k] \oplus (R("1e-6") \otimes det))) >>
=============================================================================

--------------------------------- MODULE C03 ---------------------------------
(* From the h-subset to the estimates: consistency correction, reweighting.    *)
EXTENDS MCD, GenKit
Kinds == {"normal", "corr", "heavy", "skew", "rows15", "cluster30", "shift", "cells", "scales"}
Als == << <<"none", 0>>, <<"float", 500>>, <<"float", 750>>, <<"float", 900>>, <<"int", 1>>, <<"int", 2>>, <<"float", 1000>>, <<"int", 0>> >>
Ns == {10, 13, 16, 25, 40, 55, 80, 120}
Base(e, ns, pt, A) == [est : {e}, kind : Kinds, n : ns, p : 2..6, al : A, part : pt, seed : 0..3, cc : {"T", "F"}, rw : {"T", "F"}]
Full(e) == {[est |-> c.est, kind |-> c.kind, n |-> c.n, p |-> c.p, part |-> c.part, seed |-> c.seed, cc |-> c.cc, rw |-> c.rw, at |-> c.al, a |-> IF c.al = "float" THEN 1000 ELSE 0] :
             c \in Pick(Size(15, 100), [est : {e}, kind : Kinds, n : Ns, p : 2..6, al : {"float"}, part : {0, 2}, seed : {0}, cc : {"T", "F"}, rw : {"T", "F"}])}
Flat(S) == {[est |-> c.est, kind |-> c.kind, n |-> c.n, p |-> c.p, part |-> c.part, seed |-> c.seed, cc |-> c.cc, rw |-> c.rw, at |-> Als[c.al][1], a |-> Als[c.al][2]] : c \in S}
Cases == << Flat(Pick(Size(300, 3000), Base("fast", Ns, 0..2, 1..6))), Flat(Pick(Size(300, 3000), Base("det", Ns, {0}, 1..6))),
            Flat(Pick(Size(4, 30), Base("fast", {650}, {0}, 1..6))), Full("fast"), Full("det") >>

Judge(r) ==
  LET ok == r.st = "ok"
      o == r.out
      X == r.X
      p == r.p
      isfull == (r.at = "float" /\ r.a = 1000) \/ (r.at = "int" /\ r.a = r.n)
      sub == ok /\ ~o.classical /\ ~isfull
      mu == TLCEval(SubLoc(X, o.ix))
      S == TLCEval(SubCov(X, o.ix))
      d2raw == TLCEval(SqDists(X, mu, S))
      f == TLCEval(IF r.cc THEN RawFactor(d2raw, p) ELSE R(1))
      raw == TLCEval(MScale(f, S))
      d2 == TLCEval([i \in 1..Len(d2raw) |-> d2raw[i] \oslash f])
      cut == TLCEval(Cut(p))
      clear == \A i \in 1..Len(d2) : ~RClose(d2[i], cut, R("1e-7"), 0)
      kept == TLCEval(Positions(d2, LAMBDA v : v \prec cut))
      wcov == TLCEval(MScale(IF r.cc THEN RewFactor(p) ELSE R(1), SubCov(X, kept)))
      C == Cov(X)
      tl == R("1e-9") \otimes MaxAbsM(X)
      SameM(A, B) == MClose(A, B, R("1e-6"), R("1e-8") \otimes MaxAbsM(B))
  IN << Cl("Returns", TRUE, ok),
        Cl("RawLocation", sub /\ ~r.rw, VClose(o.loc, mu, R("1e-9"), tl)),
        Cl("RawCovariance", sub /\ ~r.rw /\ ~r.cc, SameM(o.cov, S)),
        Cl("CorrectedRawCovariance", sub /\ ~r.rw /\ r.cc, SameM(o.cov, raw)),
        Cl("ReweightedLocation", sub /\ r.rw /\ clear, VClose(o.loc, SubLoc(X, kept), R("1e-9"), tl)),
        Cl("ReweightedCovariance", sub /\ r.rw /\ clear, SameM(o.cov, wcov)),
        Cl("CorrectionIsPositive", sub /\ r.cc, 0 \prec f /\ RewFactor(p) \succ 1),
        Cl("FullCoverageIsClassical", ok /\ isfull, VClose(o.loc, ColMeans(X), R("1e-9"), tl) /\ SameM(o.cov, C)) >>
=============================================================================

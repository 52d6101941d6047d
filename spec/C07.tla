--------------------------------- MODULE C07 ---------------------------------
(* Location-scale equivariance, order independence and NaN removal of every    *)
(* univariate estimator: each record holds the estimates of one fit on x and   *)
(* of one fit on its transform.                                                *)
EXTENDS Stats, Coverage, GenKit

Est == {"mcd", "mcd75", "mcdraw", "qn", "tau", "tauc", "huber1", "cell1", "wrap1", "onestep"}
Kinds == {"normal", "skew", "heavy", "ints", "intdtype", "ties", "out20", "cluster", "bimodal", "uniform", "sorted", "shifted"}
Ns == {2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 25, 40, 63, 100}
Scales == {"one", "minus", "neg3", "p1e-8", "n1e-5", "p1e5", "n17"}
Space == [est : Est, kind : Kinds, n : Ns, rep : 1..6, op : {"affine"}, a : Scales, b : {0, 1, -1000}]
Perms == [est : Est, kind : Kinds, n : Ns, rep : 1..6, op : {"perm", "reverse"}, a : {"one"}, b : {0}]
NaNs  == [est : Est, kind : Kinds \ {"intdtype"}, n : Ns, rep : 1..6, op : {"nan", "nanmany"}, a : {"one"}, b : {0}]
(* an exact translation far from zero *)
Far == [est : Est, kind : Kinds \ {"shifted", "cluster", "heavy", "out20"}, n : Ns, rep : 1..6, op : {"affine"}, a : {"far"}, b : {4194304, -16777216}]
Cases == << Pick(Size(200, 1500), Far), Pick(Size(1100, 9000), Space), Pick(Size(500, 3000), Perms), Pick(Size(300, 2000), NaNs) >>

IsMcd(e) == e \in {"mcd", "mcd75", "mcdraw", "wrap1"}
HE(e, n) == IF e = "mcd75" THEN HOf("float", 750, n, HMinUni(n)) ELSE HMinUni(n)
(* the minimum-variance window is unique, so the estimate is determined *)
Unique(x, h) ==
  LET s == TLCEval(VSort(x))
      v == TLCEval([i \in 1..(Len(x) - h + 1) |-> VarPop(Sub(s, i, i + h - 1))])
      m == OrderStat(v, 1)
  IN Len(v) = 1 \/ (OrderStat(v, 2) \succ ((m \otimes R("1.00001")) \oplus (R("1e-10") \otimes Sq(MaxAbs(x)))))
(* no observation sits on the reweighting cutoff of the base fit *)
ClearCut(x, loc, var) == \A i \in 1..Len(x) : ~RClose(Sq(x[i] \ominus loc) \oslash var, ChiPpf(R("0.975"), 1), R("1e-5"), 0)

Judge(r) ==
  LET x == r.x
      ok == r.st = "ok"
      o == r.out
      n == Len(x)
      a == r.a
      det == IF ~IsMcd(r.est) THEN r.est = "qn" \/ 0 \prec MADraw(x) ELSE (Unique(x, HE(r.est, n)) /\ (HE(r.est, n) = n \/ (0 \prec o.rawvar /\ ClearCut(x, o.rawloc, o.rawvar))))
      tol == ((R("1e-8") \otimes RAbs(a)) \otimes (Spread(x) \oplus (R("1e-6") \otimes MaxAbs(x)))) \oplus (R("1e-13") \otimes RAbs(r.b))
      same == /\ RClose(o.loc2, (a \otimes o.loc) \oplus r.b, R("1e-9"), tol)
              /\ RClose(o.scale2, RAbs(a) \otimes o.scale, R("1e-6"), tol)
  IN << Cl("Returns", TRUE, ok),
        Cl("LocationScaleEquivariant", ok /\ r.op = "affine" /\ det, same),
        Cl("OrderIndependent", ok /\ r.op \in {"perm", "reverse"} /\ (~IsMcd(r.est) \/ HE(r.est, n) = n \/ 0 \prec o.rawvar), same),
        Cl("NaNsAreDropped", ok /\ r.op \in {"nan", "nanmany"}, same) >>
=============================================================================

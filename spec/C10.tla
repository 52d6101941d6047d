--------------------------------- MODULE C10 ---------------------------------
(* Equivariance, exact fit and prediction of the regression estimators.        *)
EXTENDS Regr, GenKit
Est == {"lts", "ltsraw", "lts1", "s", "s0", "mm", "mmlts"}
Xs == {"normal", "corr", "skew", "ints"}
Ns == {14, 20, 31, 50, 80}
Conts == {"none", "vertical", "scattered", "leverage", "mixed"}
Space(ops, ks) == [est : Est, x : Xs, cont : Conts, n : Ns, p : 1..4, seed : {1, 7, 42}, op : ops, k : ks]
Cases == << Pick(Size(200, 2000), Space({"yscale"}, 0..6)), Pick(Size(150, 1500), Space({"xaff", "regr"}, {0})),
            Pick(Size(200, 2000), Space({"exact"}, {0})), Pick(Size(200, 2000), Space({"predict"}, {0})) >>
Judge(r) ==
  LET ok == r.st = "ok"
      o == r.out
      want == [i \in 1..Len(o.f1) |-> (o.c \otimes o.f1[i]) \oplus o.add[i]]
      tol == ((R("1e-5") \otimes RAbs(o.c)) \otimes o.size) \oplus (IF r.est \in {"mm", "mmlts"} THEN R("1e-5") ELSE R("0"))
      lin == LinPred(o.Z, o.b0, o.b)
      t2 == R("1e-9") \otimes (MaxAbs(o.b) \oplus RAbs(o.b0))
  IN << Cl("Returns", TRUE, ok),
        Cl("Equivariant", ok /\ r.op \in {"yscale", "xaff", "regr"}, VClose(o.f2, want, R("1e-5"), tol)),
        Cl("ScaleEquivariant", ok /\ r.op \in {"yscale", "xaff", "regr"}, RClose(o.s2, RAbs(o.c) \otimes o.s1, R("1e-5"), R("1e-12"))),
        Cl("ExactFit", ok /\ r.op = "exact", VClose(o.pred, o.want, R("1e-6"), R("1e-8") \otimes o.size)),
        Cl("PredictionIsAffine", ok /\ r.op = "predict", VClose(o.batch, lin, R("1e-9"), t2)),
        Cl("SingleRowsAgree", ok /\ r.op = "predict", VClose(o.single, o.batch, R("1e-9"), t2)),
        Cl("RowOrderAndType", ok /\ r.op = "predict",
             /\ VClose(o.frame, o.batch, R("1e-9"), t2)
             /\ VClose([i \in 1..Len(o.rev) |-> o.rev[Len(o.rev) + 1 - i]], o.batch, R("1e-9"), t2)),
        Cl("ConstantColumns", ok /\ r.op = "predict", VClose(o.const, LinPred(o.two, o.b0, o.b), R("1e-9"), t2)) >>
=============================================================================

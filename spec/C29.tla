--------------------------------- MODULE C29 ---------------------------------
(* The life of estimator objects (Session29): every history generated here is  *)
(* replayed on real objects; every read is that of a new object constructed    *)
(* with the configuration and fitted on the data the state names. The answers  *)
(* an object inherits from scikit-learn (score, error_norm, get_precision,     *)
(* inverse_transform, feature names) are those of its own estimates.           *)
EXTENDS Stats, GenKit, Session29
Cov_ == {"fast", "det", "ogk", "wrap", "kendall"}
Reg_ == {"lts", "s", "mm"}
Pca_ == {"robpca", "loc"}
Tr_ == {"scaler", "power", "clean"}
Est == Cov_ \cup Reg_ \cup Pca_ \cup Tr_
Slow == {"cell"}
Plain == {"umcd", "tau", "qn", "huber", "cellm", "wrap1", "ddc"}   (* no get_params: copies only *)
HasTr == Pca_ \cup Tr_
E(op, o, j, d, e, r) == [op |-> op, o |-> o, j |-> j, d |-> d, e |-> e, r |-> r]
Fit(o, d) == E("fit", o, 0, d, 1, 0)
Read(o, e, r) == E("read", o, 0, 0, e, r)
ReadAll(o) == <<Read(o, 1, 0), Read(o, 2, 1), Read(o, 2, 2)>>
Set(o, c, r) == E("set", o, 0, c, 1, r)
To(op, o, j) == E(op, o, j, 0, 1, 0)
CloneH == <<Fit(1, 1), To("clone", 1, 2), Read(2, 1, 0), Read(2, 2, 1), Fit(2, 1)>> \o ReadAll(2) \o <<Set(2, 2, 0), Fit(2, 1)>> \o ReadAll(2) \o ReadAll(1) \o <<To("clone", 2, 3), Fit(3, 2), Read(3, 1, 0), Read(2, 1, 0)>>
CopyH(op) == <<Fit(1, 1), To(op, 1, 2)>> \o ReadAll(2) \o <<Fit(1, 2)>> \o ReadAll(1) \o ReadAll(2) \o <<Fit(2, 2), Fit(1, 1)>> \o ReadAll(2) \o ReadAll(1)
SetH == <<Set(1, 2, 0), Fit(1, 1), Read(1, 1, 0), Read(1, 2, 1), Set(1, 1, 1), Fit(1, 1)>> \o ReadAll(1) \o <<E("new", 2, 0, 2, 1, 0), Set(2, 1, 1), Set(2, 2, 1), Fit(2, 1)>> \o ReadAll(2) \o ReadAll(1)
BlankH == <<To("deep", 1, 2), To("pick", 1, 3), Read(2, 1, 0), Fit(2, 1), Read(3, 1, 0), Fit(3, 2), Read(2, 1, 0), Read(3, 2, 1), Read(1, 1, 0)>>
TrH == <<E("fittr", 1, 0, 1, 1, 0), Read(1, 1, 0), To("clone", 1, 2), E("fittr", 2, 0, 2, 1, 0), Read(2, 2, 1), E("fittr", 1, 0, 2, 1, 0), Read(1, 1, 1)>>
Ops == <<"fit", "fit", "fit", "read", "read", "read", "read", "set", "clone", "deep", "pick", "new", "fittr">>
Draw1(op) == CASE op = "read" -> Read(RandomElement(1..3), RandomElement(1..2), RandomElement(0..3))
               [] op \in {"fit", "fittr"} -> E(op, RandomElement(1..3), 0, RandomElement(1..2), 1, 0)
               [] op \in {"set", "new"} -> E(op, RandomElement(1..3), 0, RandomElement(1..2), 1, RandomElement(0..1))
               [] OTHER -> LET o == RandomElement(1..3) IN To(op, o, 1 + ((o + RandomElement(0..1)) % 3))
RECURSIVE Draw(_, _)
Draw(k, f) == IF k = 0 THEN <<>> ELSE LET e == TLCEval(Draw1(Ops[RandomElement(1..Len(Ops))])) IN
                IF Enabled(f, e) THEN <<e>> \o Draw(k - 1, TLCEval(Step(f, e))) ELSE Draw(k, f)
L(c, s, i) == [kind |-> "life", cls |-> c, s |-> s, n |-> RandomElement({16, 24, 32}), p |-> RandomElement({2, 3}), rep |-> i]
NoSet(s) == SelectSeq(s, LAMBDA e : e.op \notin {"set", "clone"})
Cases == << {L(c, s, i) : c \in Est, s \in {CloneH, CopyH("deep"), CopyH("pick"), SetH, BlankH}, i \in 1..Size(1, 5)},
            {L(c, SetH, i) : c \in Est, i \in 6..Size(8, 20)},
            {L(c, s, i) : c \in Plain, s \in {CopyH("deep"), CopyH("pick"), BlankH}, i \in 1..Size(1, 5)},
            {L(c, TrH, i) : c \in HasTr, i \in 1..Size(2, 10)},
            {L(c, s, i) : c \in Slow, s \in {CloneH, CopyH("deep")}, i \in 1..Size(1, 2)},
            {L(c, TLCEval(Draw(12, Start(3))), i) : c \in Est \cup Plain, i \in 1..Size(4, 60)},
            Pick(Size(120, 1500), [kind : {"cov"}, cls : Cov_ \cup {"fastraw", "fastlazy", "ogklazy"}, data : {"normal", "rows15", "corr"}, n : {20, 40}, p : {2, 3, 4}, m : {1, 5, 12}, norm : {"frobenius", "spectral"}, scaling : {"T", "F"}, squared : {"T", "F"}, cont : {"array", "frame"}, rep : 1..2]),
            Pick(Size(80, 800), [kind : {"reg"}, cls : Reg_ \cup {"snoint", "ltsraw"}, data : {"normal", "rows15", "corr"}, n : {20, 40}, p : {1, 2, 4}, m : {3, 9, 20}, w : {"none", "ones", "rand"}, cont : {"array", "frame"}, rep : 1..2]),
            Pick(Size(80, 800), [kind : {"pca"}, cls : {"robpca", "robpca2", "loc", "loc2"}, data : {"normal", "rows15", "corr"}, n : {20, 40}, p : {3, 5}, m : {1, 5}, cont : {"array", "frame"}, rep : 1..2]) >>
(* Gaussian log-likelihood of the rows, per row, with the object's location and precision *)
LogLik(X, m, P) ==
  LET p == Len(P)
      C == TLCEval(MScale(R(1) \oslash Len(X), Scatter(X, m)))
      tr == VSum([i \in 1..p |-> VDot(C[i], Col(P, i))])
      ld == VSum([i \in 1..p |-> RLn(EigVals(P)[i])])
  IN ((ld \ominus tr) \ominus (p \otimes R("1.8378770664093454836"))) \oslash 2
ErrNorm(D, norm, scaling, squared) ==
  LET p == Len(D)
      s == IF norm = "frobenius" THEN VSum([i \in 1..p |-> VDot(D[i], D[i])]) ELSE EigVals(MMul(MT(D), D))[1]
      t == IF scaling = "T" THEN s \oslash p ELSE s
  IN IF squared = "T" THEN t ELSE RSqrt(t)
RSquared(y, f, w) ==
  LET mu == WMean(y, w)
      res == VDot(w, [i \in 1..Len(y) |-> Sq(y[i] \ominus f[i])])
      tot == VDot(w, [i \in 1..Len(y) |-> Sq(y[i] \ominus mu)])
  IN 1 \ominus (res \oslash tot)
Life(r) ==
  LET st == TLCEval(States(Start(3), r.ev))
      reads == TLCEval(Positions(r.ev, LAMBDA e : e.op \in {"read", "fittr"}))
      After(i) == IF r.ev[i].op = "fittr" THEN st[i + 1][r.ev[i].o] ELSE st[i][r.ev[i].o]
  IN << Cl("Legal", TRUE, \A i \in 1..Len(r.ev) : Enabled(st[i], r.ev[i])),
        Cl("HistoryConsistent", TRUE, \A q \in 1..Len(reads) : LET i == reads[q] IN r.ev[i].fc = After(i).fc /\ r.ev[i].fd = After(i).fd),
        Cl("FitReturnsItself", TRUE, \A i \in 1..Len(r.ev) : r.ev[i].self),
        Cl("ReadIsThatOfANewObject", TRUE, \A q \in 1..Len(reads) : LET i == reads[q] e == r.ev[i] IN
             (After(i).fc > 0 /\ Defined(After(i))) => (e.res = e.wres /\ Len(e.val) = Len(e.want) /\ VClose(e.val, e.want, R("1e-8"), R("1e-10")))),
        Cl("NothingFittedNothingRead", TRUE, \A q \in 1..Len(reads) : LET i == reads[q] IN Unfitted(After(i)) => r.ev[i].res # "ok"),
        Cl("ParametersAreThose", TRUE, \A i \in 1..Len(r.ev) : \A o \in 1..3 : Live(st[i + 1], o) => r.ev[i].ps[o] = r.pstr[st[i + 1][o].cfg]) >>
CovC(r) ==
  LET P == TLCEval(MInv(r.cov))
      D == [i \in 1..Len(r.cov) |-> [j \in 1..Len(r.cov) |-> r.comp[i][j] \ominus r.cov[i][j]]]
      c == r.case
      sc == R(1) \oplus RAbs(r.score)
  IN << Cl("PrecisionInvertsCovariance", r.cond, MClose(MMul(r.prec, r.cov), Identity(Len(P)), R("1e-6"), R("1e-6"))),
        Cl("ScoreIsLogLikelihood", r.cond, RClose(r.score, LogLik(r.T, r.loc, r.prec), R("1e-7"), R("1e-7") \otimes sc)),
        Cl("ErrorNorm", TRUE, RClose(r.err, ErrNorm(TLCEval(D), c.norm, c.scaling, c.squared), R("1e-7"), R("1e-9"))) >>
RegC(r) == << Cl("ScoreIsRSquared", TRUE, RClose(r.score, RSquared(r.y, r.pred, r.wts), R("1e-8"), R("1e-8") \otimes (R(1) \oplus RAbs(r.score)))) >>
PcaC(r) ==
  LET k == Len(r.comp[1])
  IN << Cl("InverseTransform", TRUE, \A i \in 1..Len(r.Z) : VClose(r.inv[i], VAdd(r.loc, MV(r.comp, r.Z[i])), R("1e-8"), R("1e-8"))),
        Cl("InverseOfTransformIsProjection", TRUE, \A i \in 1..Len(r.T) : VClose(r.back[i], VAdd(r.loc, r.proj[i]), R("1e-8"), R("1e-8"))),
        Cl("OneNamePerComponent", TRUE, r.names = [j \in 1..k |-> r.pre \o ToString(j - 1)]),
        Cl("FrameOutput", TRUE, r.fcols = r.names /\ Len(r.fout) = Len(r.T) /\ \A i \in 1..Len(r.T) : VClose(r.fout[i], r.tr[i], R("1e-9"), R("1e-9"))) >>
Judge(r) == << Cl("Returns", TRUE, r.st = "ok") >> \o
  (IF r.st # "ok" THEN <<>> ELSE CASE r.case.kind = "life" -> Life(r) [] r.case.kind = "cov" -> CovC(r) [] r.case.kind = "reg" -> RegC(r) [] OTHER -> PcaC(r))
=============================================================================

--------------------------------- MODULE C23 ---------------------------------
(* Fitted models applied to batches of rows: every batch is a sequence of row  *)
(* numbers of one table; row ix[k] must get result all[ix[k]] in every batch   *)
(* and every container.                                                        *)
EXTENDS Stats, GenKit
Models == {"fast", "det", "ogk", "wrap", "kendall", "lts", "ltsraw", "s", "snoint", "mm", "mm0", "robpca", "robpca2", "loc", "loc2", "scaler", "scalerq", "scalernc", "yj", "bc", "auto", "yjraw", "ddc", "ddcq"}
Slow == {"cell"}
Rows == {"normal", "train", "far", "cells", "ties"}
Conts == {"array", "f", "frame", "oddframe", "int", "fittedonframe"}
Cases == << Pick(Size(400, 6000), [cls : Models, rows : Rows, cont : Conts, n : {14, 30}, p : {2, 3, 5}, m : {5, 9}, rep : 1..2]),
            Pick(Size(40, 400), [cls : {"yj", "bc", "auto", "yjraw"}, rows : {"normal", "train"}, cont : Conts, n : {30, 60}, p : {2}, m : {5, 9}, rep : {2}]),
            [cls : Models, rows : {"normal", "far"}, cont : {"array", "frame", "fittedonframe"}, n : {30}, p : {1, 3}, m : {7}, rep : {1}],
            Pick(Size(12, 60), [cls : Slow, rows : Rows, cont : Conts, n : {50}, p : {3}, m : {6}, rep : 1..2]) >>
Judge(r) ==
  LET ok == r.st = "ok"
      RowOk(o) == \A q \in 1..Len(o.b) : LET t == o.b[q] IN
                    Len(t.res) = Len(t.ix) /\ \A k \in 1..Len(t.ix) : VClose(t.res[k], o.all[t.ix[k]], R("1e-8"), o.tol)
      Which(o, kinds) == [o EXCEPT !.b = SelectSeq(o.b, LAMBDA t : t.kind \in kinds)]
      AllO(kinds) == \A i \in 1..Len(r.ops) : RowOk(Which(r.ops[i], kinds))
  IN << Cl("Returns", TRUE, ok),
        Cl("WholeBatch", ok, \A i \in 1..Len(r.ops) : Len(r.ops[i].all) = r.m),
        Cl("SingleRows", ok, AllO({"single"})),
        Cl("AnyOrder", ok, AllO({"perm"})),
        Cl("AnySplit", ok, AllO({"split"})),
        Cl("WithOtherRows", ok, AllO({"repeat", "with"})),
        Cl("AnyContainer", ok, AllO({"cont"})) >>
=============================================================================

--------------------------------- MODULE C21 ---------------------------------
(* Every public call on every container; after each call of a history all of   *)
(* the caller's objects must be what they were.                                *)
EXTENDS Stats, GenKit
Classes == {"umcd", "umcda", "tau", "qn", "huber", "cellm", "wrap1", "fast", "fastraw", "det", "detraw", "ogk", "ogkrw", "wrap", "kendall", "lts", "ltsraw", "s", "snoint", "mm", "mm0",
            "robpca", "robpca2", "loc", "loc2", "scaler", "scalerq", "scalernc", "yj", "bc", "auto", "yjraw", "ddc", "ddcq", "clean", "clean2"}
CellC == {"cell", "cell9", "ddcw"}
Conts == {"c", "f", "view", "rev", "int", "frame", "framev", "iframe"}
Utils == {"stahel_donoho", "l1median", "weighted_median", "mahalanobis_distance", "wrapping_transformation", "inverse_submatrix", "truncated_covariance", "covariance_to_correlation", "adjusted_boxplot",
          "bisquare", "huberrho", "od_cutoff", "lambda_range", "initial_weights", "cellobjective"}
Bad == {"none", "nan", "inf", "const"}
(* data for which a copy can be skipped: centred, standardised, sorted *)
Shape == {"centred", "unit", "sorted"}
Cases == << Pick(Size(340, 6000), [what : {"cls"}, cls : Classes, cont : Conts, bad : Bad \cup Shape, n : {12, 30, 31}, p : {1, 2, 4}]),
            [what : {"cls"}, cls : Classes, cont : Conts, bad : {"none"}, n : {30}, p : {3}],
            [what : {"cls"}, cls : Classes, cont : {"c", "frame"}, bad : Shape, n : {31}, p : {2}],
            Pick(Size(24, 200), [what : {"cls"}, cls : CellC, cont : Conts, bad : Bad, n : {40}, p : {2, 4}]),
            [what : {"util"}, fn : Utils, cont : Conts, bad : {"none", "nan"} \cup Shape, n : {11, 30}, p : {3}] >>
Judge(r) ==
  LET ok == r.st = "ok"
      All(P(_)) == \A i \in 1..Len(r.steps) : P(r.steps[i])
      Raising(P(_)) == \A i \in 1..Len(r.steps) : r.steps[i].raised => P(r.steps[i])
      F(k) == All(LAMBDA s : Len(s.after) = Len(r.before) /\ \A i \in 1..Len(r.before) : s.after[i][k] = r.before[i][k])
  IN << Cl("Returns", TRUE, ok /\ Len(r.steps) > 0),
        Cl("ValuesUnchanged", ok, F("val")),
        Cl("TypesUnchanged", ok, F("dtype")),
        Cl("LabelsUnchanged", ok, F("labels")),
        Cl("LayoutUnchanged", ok, F("layout")),
        Cl("UnchangedWhenRaising", ok /\ \E i \in 1..Len(r.steps) : r.steps[i].raised, Raising(LAMBDA s : s.after = r.before)) >>
=============================================================================

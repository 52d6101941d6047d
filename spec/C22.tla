--------------------------------- MODULE C22 ---------------------------------
(* Which calls must raise, which errors, and which calls must not: the table   *)
(* of the public API. A call that must raise gives no number, and an estimator *)
(* whose only fits raised answers no read.                                     *)
EXTENDS Stats, GenKit
UniC == {"umcd", "umcda", "tau", "qn", "huber", "cellm", "wrap1"}
CovC == {"fast", "fastraw", "det", "detraw", "ogk", "ogkrw", "wrap", "kendall"}
CellC == {"cell", "cell9"}
RegC == {"lts", "ltsraw", "s", "snoint", "mm", "mmdef", "mm0"}
PcaC == {"robpca", "robpca2", "loc", "loc2"}
ScalerC == {"scaler", "scalerq", "scalernc"}
PowerC == {"yj", "bc", "auto", "yjraw"}
DdcC == {"ddc", "ddcq"}
CleanC == {"clean", "clean2"}
All == UniC \cup CovC \cup CellC \cup RegC \cup PcaC \cup ScalerC \cup PowerC \cup DdcC \cup CleanC \cup {"ddcw"}
(* the errors a read before fit may raise: as documented where the code documents one *)
NF == {"NotFittedError"}
Any3 == {"NotFittedError", "ValueError", "AttributeError"}
Premature(cls, op) ==
  CASE cls \in UniC -> NF
    [] op \in {"covariance", "distance_distance_plot", "cell_MCD_plot", "scale", "predict_reg", "dropped_columns", "dropped_rows"} -> NF
    [] op = "correlation" -> Any3
    [] cls \in DdcC -> {"ValueError"}
    [] OTHER -> Any3
(* parameters with a documented range *)
Frac(a) == R("0.5") \preceq a /\ a \preceq R("1")
Valid(r) == CASE r.param = "alpha" /\ r.kind = "float" -> Frac(r.value)
              [] r.param = "alpha" /\ r.kind = "int" /\ r.case.cls \in {"fast", "det", "umcd"} -> (r.n \preceq (2 \otimes r.value) /\ r.value \preceq r.n) \/ REq(r.value, 1)
              [] r.param = "alpha" /\ r.kind = "int" -> Frac(r.value)
              [] r.param = "min_eigenvalue" -> R("1e-6") \preceq r.value
              [] r.param = "clean_na_first" -> r.text \in {"automatic", "rows", "columns"}
              [] r.param = "method" -> r.text \in {"boxcox", "yeojohnson", "auto"}
              [] r.param = "min_n_rows" -> r.value \preceq r.n
              [] r.param = "positive" -> FALSE
              [] OTHER -> FALSE
Hist == {"new", "failed", "failed2"}
Spots == {"first", "last", "one", "column", "row", "scatter", "all", "y", "yfirst", "yall"}
Alphas == {"0.5", "0.75", "1.0", "0.51", "0.499999", "0.3", "0.0", "-0.5", "1.000001", "1.5", "2.0", "50.0", "nan"}
IntAlphas == {"lo", "lo-1", "n", "n+1", "1", "0", "-1", "2", "mid"}
Cases == << [what : {"early"}, cls : All, hist : Hist, p : {1, 3}],
            Pick(Size(420, 4000), [what : {"nan"}, cls : All \ (CellC \cup DdcC \cup CleanC \cup {"ddcw"}), spot : Spots, cont : {"array", "frame", "f"}, n : {9, 30}, p : {1, 2, 4}]),
            Pick(Size(60, 300), [what : {"shape"}, cls : UniC, n : {1, 2, 12}, p : {1, 2, 5, 12}, dims : {2, 3}, ign : BOOLEAN]),
            [what : {"param"}, cls : {"fast", "det", "umcd", "lts", "robpca", "cell", "ddcw"}, param : {"alpha"}, kind : {"float"}, v : Alphas],
            [what : {"param"}, cls : {"fast", "det", "umcd", "robpca", "cell", "lts", "ddcw"}, param : {"alpha"}, kind : {"int"}, v : IntAlphas],
            [what : {"param"}, cls : {"cell"}, param : {"min_eigenvalue"}, kind : {"float"}, v : {"1e-6", "9e-7", "0.0", "-1.0", "1e-4", "1e-9"}],
            [what : {"param"}, cls : {"clean"}, param : {"clean_na_first"}, kind : {"text"}, v : {"automatic", "rows", "columns", "row", "cols", "", "Automatic", "auto"}],
            [what : {"param"}, cls : {"clean"}, param : {"min_n_rows"}, kind : {"int"}, v : {"3", "n", "n+1", "n-1", "1000"}],
            [what : {"param"}, cls : {"yj"}, param : {"method"}, kind : {"text"}, v : {"boxcox", "yeojohnson", "auto", "box-cox", "", "yj", "BoxCox"}],
            [what : {"param"}, cls : {"bc"}, param : {"positive"}, kind : {"text"}, v : {"fitzero", "fitneg", "transfzero", "transfneg", "autotransf"}],
            [what : {"ddcinput"}, cls : DdcC, v : {"string", "bool", "few", "predictcols", "imputecols", "predictstring", "constant"}],
            [what : {"cellinput"}, cls : CellC, v : {"madzero", "fewrows", "manynan", "manyout", "nosecond"}],
            Pick(Size(40, 400), [what : {"nanok"}, cls : DdcC \cup {"cell", "ddcw"} \cup CleanC, spot : {"scatter", "row", "first", "last"}, n : {40, 60}, p : {2, 3, 5}, frac : {5, 15}]),
            Pick(Size(60, 400), [what : {"nanign"}, cls : UniC \cup ScalerC, spot : {"scatter", "first", "last", "one", "half"}, n : {15, 40}, p : {1, 3}]),
            Pick(Size(60, 400), [what : {"newnan"}, cls : CovC \cup RegC \cup PcaC \cup ScalerC, spot : {"first", "last", "scatter"}, n : {30}, p : {2, 3}]) >>
Judge(r) ==
  LET ok == r.st = "ok"
      w == IF ok THEN r.case.what ELSE "none"
      early == w = "early"
  IN << Cl("Returns", TRUE, ok),
        Cl("FailedFitRaises", early, \A i \in 1..Len(r.fits) : r.fits[i].answer = "raised"),
        Cl("NoEarlyAnswer", early, \A i \in 1..Len(r.reads) : r.reads[i].answer = "raised"),
        Cl("EarlyErrors", early, \A i \in 1..Len(r.reads) : r.reads[i].err \in Premature(r.case.cls, r.reads[i].op)),
        Cl("ReadsTried", early, Len(r.reads) >= 2),
        Cl("NaNRejected", w = "nan", r.err = "ValueError"),
        Cl("NaNNoAnswerAfter", w = "nan", \A i \in 1..Len(r.reads) : r.reads[i].answer = "raised"),
        Cl("ShapeRejected", w = "shape", r.err = "ValueError"),
        Cl("ParamRejected", w = "param" /\ ~Valid(r), r.err = "ValueError"),
        Cl("ParamAccepted", w = "param" /\ Valid(r), r.err = ""),
        Cl("InputRejected", w \in {"ddcinput", "cellinput"}, r.err = "ValueError"),
        Cl("NaNAccepted", w \in {"nanok", "nanign"}, r.err = ""),
        Cl("NaNFinite", w \in {"nanok", "nanign"} /\ r.err = "", Len(r.vals) > 0 /\ \A i \in 1..Len(r.vals) : RIsFinite(r.vals[i])),
        Cl("NaNIgnored", w = "nanign" /\ r.err = "", VClose(r.vals, r.without, R("1e-12"), R("0"))),
        Cl("NewNaNNotAnswered", w = "newnan" /\ r.err = "", \A i \in 1..Len(r.nanrows) : \E j \in 1..Len(r.nanrows[i]) : ~RIsFinite(r.nanrows[i][j])),
        Cl("NewNaNError", w = "newnan" /\ r.err # "", r.err = "ValueError") >>
=============================================================================

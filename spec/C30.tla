--------------------------------- MODULE C30 ---------------------------------
(* Records of one fit under several reporting settings; the first is the       *)
(* quietest. sts[k], vals[k]: outcome and everything that can be read of run k; *)
(* gen[k]: numpy's global generator untouched; nout[k]: characters printed.    *)
EXTENDS Stats, GenKit
Ver == {"fast", "fastpart", "fastraw", "fastfew", "det", "detraw", "ddcw", "robpca", "robpca2", "robpca1", "lts", "ltsraw", "ltsw", "s", "snoint", "ltsfew", "sfew"}
Flag == {"ddc", "ddcq"}
Hidden == {"yj", "auto", "clean", "umcd", "umcda", "mm"}   (* report through their logger only *)
Slow == {"cell", "cell9"}
C(c, d, n, p) == [cls : c, data : d, n : n, p : p, handlers : {"none", "root", "own"}, rep : 1..2]
Cases == << Pick(Size(200, 3000), C(Ver, {"normal", "corr", "rows15", "cluster30", "heavy"}, {14, 30, 60}, {2, 3, 5})),
            Pick(Size(30, 400), C(Flag, {"normal", "corr", "cells"}, {30, 50}, {2, 3, 5, 9, 10, 11, 12, 21})),
            Pick(Size(40, 400), C(Hidden, {"normal", "skew", "heavy"}, {14, 30}, {2, 3})),
            Pick(Size(5, 40), C(Slow, {"normal", "cells"}, {50}, {3})) >>
Judge(r) ==
  LET ok == r.st = "ok" /\ Len(r.sts) > 0
      K == 2..Len(r.sts)
  IN << Cl("Returns", TRUE, ok),
        Cl("QuietRunAnswers", ok, r.sts[1] = "ok"),
        Cl("SameOutcome", ok, \A k \in K : r.sts[k] = r.sts[1]),
        Cl("SameAnswers", ok, \A k \in K : r.sts[k] = "ok" => (Len(r.vals[k]) = Len(r.vals[1]) /\ VClose(r.vals[k], r.vals[1], R("1e-10"), R("1e-12")))),
        Cl("GeneratorUntouched", ok, \A k \in 1..Len(r.sts) : r.gen[k] = r.gen[1]),
        Cl("SilentWhenAsked", ok, \A k \in 1..Len(r.sts) : r.lev[k] = 60 => r.nout[k] = 0) >>
=============================================================================

--------------------------------- MODULE C05 ---------------------------------
(* Qn: the k-th smallest pairwise distance, times the documented factors.      *)
EXTENDS QnDef, GenKit

Multi(n, k) == {s \in [1..n -> 0..k] : \A i \in 1..(n-1) : s[i] <= s[i+1]}
Small == UNION {[src : {"x"}, x : Multi(n, Size(3, 5)), perm : {0, 1}, cc : {"T", "F"}, fc : {"T", "F"}, loc : {"median"}] : n \in 2..Size(7, 8)}
Sampled == [src : {"gen"}, n : (2..60) \cup {75, 76, 100, 101, 149, 150}, rep : {1, 2},
            kind : {"normal", "skew", "heavy", "ints", "intdtype", "ties", "out20", "cluster", "shifted", "tiny", "huge", "bimodal", "majority", "sorted", "neartie"},
            cc : {"T", "F"}, fc : {"T", "F"}, loc : {"median", "mean"}]
Large == [src : {"gen"}, n : {301, 512, Size(600, 1200)}, rep : {1}, kind : {"normal", "ties", "cluster", "heavy", "neartie"}, cc : {"T"}, fc : {"T"}, loc : {"median"}]
Cases == << Pick(Size(900, 8000), Small), Pick(Size(1500, 8000), Sampled), Large >>

Judge(r) ==
  LET x == r.x
      ok == r.st = "ok"
      o == r.out
      big == MaxAbs(x)
      ulp == big \otimes R("1e-14")
  IN << Cl("Returns", TRUE, ok),
        Cl("ScaleIsOrderStatistic", ok, RClose(o.scale, QnOf(x, r.cc, r.fc), R("1e-10"), ulp)),
        Cl("Location", ok, RClose(o.loc, IF r.loc = "mean" THEN Mean(x) ELSE Median(x), R("1e-10"), ulp)) >>
=============================================================================

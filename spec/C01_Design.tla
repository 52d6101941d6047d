------------------------------ MODULE C01_Design ------------------------------
(* How coverage flows through the concentration algorithm, for every small     *)
(* (n, p, alpha): the data are split in k partitions, each partition uses its   *)
(* own h, the pooled candidates are concentrated on all of the data with h.     *)
EXTENDS Coverage, FiniteSets, TLC
CONSTANTS MaxN, MaxP, MaxK
VARIABLES n, p, at, a, k, parts, hs, h, pc
vars == <<n, p, at, a, k, parts, hs, h, pc>>
FloatAlphas == {500, 501, 550, 600, 667, 750, 800, 875, 900, 990, 999, 1000}
Max(u, v) == IF u < v THEN v ELSE u
HM(m) == HMinMulti(m, p)
Init == /\ n \in 6..MaxN /\ p \in 1..MaxP /\ n >= 2 * p + 2 /\ k \in 1..MaxK /\ pc = "new" /\ at = "none" /\ a = 0
        /\ parts = <<>> /\ hs = <<>> /\ h = 0
Choose == /\ pc = "new"
          /\ \/ at' = "none" /\ a' = 0
             \/ at' = "float" /\ a' \in FloatAlphas
             \/ at' = "int" /\ a' \in ((n + 1) \div 2)..n
          /\ pc' = "split" /\ UNCHANGED <<n, p, k, parts, hs, h>>
(* numpy's array_split: the first n % k parts have one more row *)
Split == /\ pc = "split" /\ n \div k >= p + 2
         /\ parts' = [i \in 1..k |-> n \div k + (IF i <= n % k THEN 1 ELSE 0)]
         /\ h' = HOf(at, a, n, HM(n)) /\ hs' = <<>> /\ pc' = "part" /\ UNCHANGED <<n, p, at, a, k>>
(* an integer alpha refers to all of the data: a part takes its share *)
PartH(m) == IF at = "int" THEN Max((h * m) \div n, HM(m)) ELSE HOf(at, a, m, HM(m))
Part == /\ pc = "part" /\ Len(hs) < k
        /\ hs' = Append(hs, PartH(parts[Len(hs) + 1])) /\ UNCHANGED <<n, p, at, a, k, parts, h, pc>>
Pool == /\ pc = "part" /\ Len(hs) = k /\ pc' = "done" /\ UNCHANGED <<n, p, at, a, k, parts, hs, h>>
Next == Choose \/ Split \/ Part \/ Pool
Spec == Init /\ [][Next]_vars
SumS(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE F[i-1] + s[i] IN F[Len(s)]
Majority == pc \in {"part", "done"} => 2 * h > n /\ h <= n
EnoughForCovariance == pc \in {"part", "done"} => h >= p + 1
(* two h-subsets always share at least p+1 rows, or h is the documented minimum *)
Overlap == pc = "done" => 2 * h - n >= p \/ h = HM(n)
PartsCoverAll == pc \in {"part", "done"} => SumS(parts) = n
PartHValid == \A i \in 1..Len(hs) : 2 * hs[i] > parts[i] /\ hs[i] <= parts[i]
Admissible == pc # "new" => AlphaValid(at, a, n)
(* size is monotone in alpha *)
Monotone == pc = "done" /\ at = "float" => \A b \in FloatAlphas : b <= a => HOf("float", b, n, HM(n)) <= h
IntExact == pc = "done" /\ at = "int" => h = Max(a, HM(n))
FullIsAll == pc = "done" /\ ((at = "float" /\ a = 1000) \/ (at = "int" /\ a = n)) => h = n
=============================================================================

------------------------------ MODULE C24_Design ------------------------------
(* The number of components through the stages of ROBPCA: chosen on the        *)
(* h-subset's spectrum (requested, or the first to reach the threshold), then  *)
(* possibly lowered by the rank of the retained observations and of the final  *)
(* MCD. Basis, variances and shares are carried along as lengths.              *)
EXTENDS Integers, Sequences
CONSTANTS P, MaxV, Req
VARIABLES spec1, kmin, req, k, shares, basis, vars_, stage
vars == <<spec1, kmin, req, k, shares, basis, vars_, stage>>
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
Upto(s, j) == Total(SubSeq(s, 1, j))
Spectra == {s \in [1..P -> 0..MaxV] : (\A i \in 1..(P - 1) : s[i] >= s[i + 1]) /\ s[1] > 0}
Rank(s) == IF \A i \in 1..P : s[i] > 0 THEN P ELSE (CHOOSE i \in 1..P : s[i] = 0 /\ \A j \in 1..(i - 1) : s[j] > 0) - 1
Init == /\ spec1 \in Spectra /\ kmin \in {0, 1, 5, 8, 10} /\ req \in Req
        /\ k = 0 /\ shares = 0 /\ basis = 0 /\ vars_ = 0 /\ stage = "subset"
Choose == /\ stage = "subset" /\ k < P
          /\ IF req # 0 THEN k' = req /\ stage' = "filter"
             ELSE /\ k' = k + 1 /\ stage' = (IF 10 * Upto(spec1, k + 1) >= kmin * Total(spec1) THEN "filter" ELSE "subset")
          /\ UNCHANGED <<spec1, kmin, req, shares, basis, vars_>>
(* the observations within the cutoff may span fewer dimensions, never none *)
Filter == /\ stage = "filter" /\ \E r \in 1..P : k' = (IF r < k THEN r ELSE k)
          /\ basis' = k' /\ vars_' = k' /\ stage' = "mcd" /\ UNCHANGED <<spec1, kmin, req, shares>>
Mcd == /\ stage = "mcd" /\ k > 1 /\ \E r \in 1..k : k' = r
       /\ basis' = k' /\ vars_' = k' /\ stage' = "report" /\ UNCHANGED <<spec1, kmin, req, shares>>
Skip == stage = "mcd" /\ stage' = "report" /\ UNCHANGED <<spec1, kmin, req, k, shares, basis, vars_>>
Report == stage = "report" /\ shares' = k /\ stage' = "done" /\ UNCHANGED <<spec1, kmin, req, k, basis, vars_>>
Next == Choose \/ Filter \/ Mcd \/ Skip \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
AtLeastOne == stage # "subset" => k >= 1 /\ k <= P
Minimal == stage = "filter" /\ req = 0 => 10 * Upto(spec1, k) >= kmin * Total(spec1) /\ (k > 1 => 10 * Upto(spec1, k - 1) < kmin * Total(spec1))
AllMeansRank == stage = "filter" /\ req = 0 /\ kmin = 10 => k = Rank(spec1)
NeverMoreThanRequested == req # 0 /\ stage # "subset" => k <= req
LengthsAgree == stage = "done" => basis = k /\ vars_ = k /\ shares = k
Terminates == <>(stage = "done")
=============================================================================

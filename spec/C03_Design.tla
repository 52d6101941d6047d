------------------------------ MODULE C03_Design ------------------------------
(* Post-processing pipeline of the MCD on one-dimensional integer data with an *)
(* abstract cutoff: which estimate is reported for each combination of the two *)
(* options, and that every combination goes through exactly the steps asked.   *)
(* Squared distances are integers (h x - sum)^2 over the integer h*SS-sum^2.   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, MaxV, CutNum
VARIABLES x, cc, rw, S, factorApplied, kept, est, rewFactor, pc
vars == <<x, cc, rw, S, factorApplied, kept, est, rewFactor, pc>>
H == N \div 2 + 1
SumOver(T, f(_)) == LET F[R \in SUBSET T] == IF R = {} THEN 0 ELSE LET m == CHOOSE q \in R : TRUE IN f(m) + F[R \ {m}] IN F[T]
Sum(T) == SumOver(T, LAMBDA i : x[i])
V(T) == Cardinality(T) * SumOver(T, LAMBDA i : x[i] * x[i]) - Sum(T) * Sum(T)
D2(i, T) == LET k == Cardinality(T) IN (k * x[i] - Sum(T)) * (k * x[i] - Sum(T))
(* numerator of the raw factor: the lower median of the squared distances *)
Rank(i, T) == Cardinality({j \in 1..N : D2(j, T) < D2(i, T)})
MedD2(T) == LET m == CHOOSE i \in 1..N : 2 * Rank(i, T) <= N /\ 2 * Cardinality({j \in 1..N : D2(j, T) <= D2(i, T)}) >= N IN D2(m, T)
Init == x = <<>> /\ cc \in BOOLEAN /\ rw \in BOOLEAN /\ S = {} /\ factorApplied = FALSE /\ kept = {} /\ est = {} /\ rewFactor = FALSE /\ pc = "build"
Build == /\ pc = "build" /\ Len(x) < N
         /\ \E v \in 0..MaxV : v >= (IF x = <<>> THEN 0 ELSE x[Len(x)]) /\ x' = Append(x, v)
         /\ UNCHANGED <<cc, rw, S, factorApplied, kept, est, rewFactor, pc>>
Subset == /\ pc = "build" /\ Len(x) = N
          /\ \E k \in 1..(N - H + 1) : LET T == k..(k + H - 1) IN V(T) > 0 /\ (\A j \in 1..(N - H + 1) : V(T) <= V(j..(j + H - 1))) /\ S' = T
          /\ pc' = "raw" /\ UNCHANGED <<x, cc, rw, factorApplied, kept, est, rewFactor>>
Correct == pc = "raw" /\ cc /\ factorApplied' = TRUE /\ pc' = "corrected" /\ UNCHANGED <<x, cc, rw, S, kept, est, rewFactor>>
NoCorrect == pc = "raw" /\ ~cc /\ pc' = "corrected" /\ UNCHANGED <<x, cc, rw, S, factorApplied, kept, est, rewFactor>>
(* keep d2 < cut: without correction d2/V, with correction d2/med(d2) scaled *)
Keep == {i \in 1..N : IF factorApplied THEN D2(i, S) * 1 < CutNum * MedD2(S) ELSE D2(i, S) < CutNum * V(S)}
Reweight == pc = "corrected" /\ rw /\ kept' = Keep /\ est' = Keep /\ rewFactor' = cc /\ pc' = "done" /\ UNCHANGED <<x, cc, rw, S, factorApplied>>
Raw == pc = "corrected" /\ ~rw /\ est' = S /\ pc' = "done" /\ UNCHANGED <<x, cc, rw, S, factorApplied, kept, rewFactor>>
Next == Build \/ Subset \/ Correct \/ NoCorrect \/ Reweight \/ Raw
Spec == Init /\ [][Next]_vars
OptionsObeyed == pc = "done" => factorApplied = cc /\ rewFactor = (rw /\ cc) /\ (~rw => est = S)
(* with correction at least half of all observations survive the reweighting   *)
(* (the cutoff is above the median factor), so the result is still a majority  *)
MajorityKept == pc = "done" /\ rw /\ cc /\ MedD2(S) > 0 => 2 * Cardinality(est) >= N
(* without correction the bulk of the subset survives (mean squared distance 1)*)
SubsetSurvives == pc = "done" /\ rw /\ ~cc => Cardinality(est \cap S) * CutNum >= H * (CutNum - 1)
NeverEmpty == pc = "done" /\ (rw /\ cc => MedD2(S) > 0) => est # {}
=============================================================================

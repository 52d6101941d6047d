------------------------------ MODULE C16_Design ------------------------------
(* Kendall's tau filled in pair by pair over the lower triangle, on every small*)
(* integer data matrix: the finished matrix is symmetric, bounded, and invariant*)
(* under monotone transforms; +-1 exactly for strictly (dis)cordant columns.   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, P, MaxV
VARIABLES x, c, i, j, pc
vars == <<x, c, i, j, pc>>
Sg(v) == IF v > 0 THEN 1 ELSE IF v < 0 THEN -1 ELSE 0
PairSet == {q \in (1..N) \X (1..N) : q[1] < q[2]}
SumP(f(_)) == LET F[S \in SUBSET PairSet] == IF S = {} THEN 0 ELSE LET m == CHOOSE q \in S : TRUE IN f(m) + F[S \ {m}] IN F[PairSet]
(* concordant minus discordant pairs of columns a and b *)
Conc(a, b) == Cardinality({q \in PairSet : Sg(x[q[1]][a] - x[q[2]][a]) * Sg(x[q[1]][b] - x[q[2]][b]) > 0})
            - Cardinality({q \in PairSet : Sg(x[q[1]][a] - x[q[2]][a]) * Sg(x[q[1]][b] - x[q[2]][b]) < 0})
Untied(a) == Cardinality({q \in PairSet : x[q[1]][a] # x[q[2]][a]})
Init == x = <<>> /\ c = [q \in (1..P) \X (1..P) |-> 99] /\ i = 1 /\ j = 1 /\ pc = "build"
Build == /\ pc = "build" /\ Len(x) < N
         /\ \E row \in [1..P -> 0..MaxV] : (row[1] >= IF x = <<>> THEN 0 ELSE x[Len(x)][1]) /\ x' = Append(x, row)
         /\ UNCHANGED <<c, i, j, pc>>
Start == pc = "build" /\ Len(x) = N /\ pc' = "fill" /\ UNCHANGED <<x, c, i, j>>
Off == /\ pc = "fill" /\ i <= P /\ j < i
       /\ c' = [c EXCEPT ![<<i, j>>] = Conc(i, j), ![<<j, i>>] = Conc(i, j)]
       /\ j' = j + 1 /\ UNCHANGED <<x, i, pc>>
DiagStep == /\ pc = "fill" /\ i <= P /\ j = i
            /\ c' = [c EXCEPT ![<<i, i>>] = Untied(i)] /\ i' = i + 1 /\ j' = 1 /\ UNCHANGED <<x, pc>>
Done == pc = "fill" /\ i = P + 1 /\ pc' = "done" /\ UNCHANGED <<x, c, i, j>>
Next == Build \/ Start \/ Off \/ DiagStep \/ Done
Spec == Init /\ [][Next]_vars
Complete == pc = "done" => \A q \in (1..P) \X (1..P) : c[q] # 99
SymmetricTau == pc = "done" => \A q \in (1..P) \X (1..P) : c[q] = c[<<q[2], q[1]>>]
(* Cauchy-Schwarz: |tau-b| <= 1 *)
Bounded == pc = "done" => \A q \in (1..P) \X (1..P) : c[q] * c[q] <= Untied(q[1]) * Untied(q[2])
SelfConcordant == pc = "done" => \A a \in 1..P : Conc(a, a) = c[<<a, a>>]
PerfectIffMonotone == pc = "done" => \A q \in (1..P) \X (1..P) :
   (c[q] * c[q] = Untied(q[1]) * Untied(q[2]) /\ c[q] > 0) =>
     \A w \in PairSet : Sg(x[w[1]][q[1]] - x[w[2]][q[1]]) = Sg(x[w[1]][q[2]] - x[w[2]][q[2]])
=============================================================================

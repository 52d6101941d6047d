------------------------------ MODULE C08_Design ------------------------------
(* The adversary: an arbitrary clean sample of integers in L..L+V is built, then   *)
(* values are replaced one at a time by distant ones, up to M of N. At every   *)
(* step the estimators must stay within what the clean values allow:           *)
(* median (centre), MAD (scale), the shortest half / univariate MCD window,    *)
(* the trimmed-squares line through the origin of points (1, v).               *)
(* Half: the window covers N/2+1 values (the alternative covers all of them).  *)
(* Ranked: the scale uses the median deviation (the alternative the largest).  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, M, L, V, Bad, Half, Ranked
VARIABLES x, dirty, pc
vars == <<x, dirty, pc>>
Init == x = <<>> /\ dirty = {} /\ pc = "build"
(* samples up to order (the statistics below do not depend on it) *)
Build == pc = "build" /\ Len(x) < N /\ (\E v \in (IF x = <<>> THEN L ELSE x[Len(x)])..(L + V) : x' = Append(x, v)) /\ UNCHANGED <<dirty, pc>>
Done == pc = "build" /\ Len(x) = N /\ pc' = "attack" /\ UNCHANGED <<x, dirty>>
Attack == pc = "attack" /\ Cardinality(dirty) < M /\ (\E i \in 1..N, b \in Bad : i \notin dirty /\ x' = [x EXCEPT ![i] = b] /\ dirty' = dirty \cup {i}) /\ UNCHANGED pc
Next == Build \/ Done \/ Attack
Spec == Init /\ [][Next]_vars
Ready == pc = "attack"
Rank(s, k) == CHOOSE v \in {s[i] : i \in 1..N} : Cardinality({i \in 1..N : s[i] < v}) < k /\ k <= Cardinality({i \in 1..N : s[i] <= v})
Abs(v) == IF v < 0 THEN -v ELSE v
(* N is odd *)
Med(s) == Rank(s, (N + 1) \div 2)
Devs(s) == [i \in 1..N |-> Abs(s[i] - Med(s))]
Scale(s) == Rank(Devs(s), IF Ranked THEN (N + 1) \div 2 ELSE N)
H == IF Half THEN (N \div 2) + 1 ELSE N
Srt(s) == [k \in 1..N |-> Rank(s, k)]
Win(s, k) == LET t == Srt(s) IN [i \in 1..H |-> t[k + i - 1]]
RECURSIVE Sum(_, _)
Sum(s, k) == IF k = 0 THEN 0 ELSE s[k] + Sum(s, k - 1)
(* H^2 times the variance of a window *)
Var2(w) == H * Sum([i \in 1..H |-> w[i] * w[i]], H) - Sum(w, H) * Sum(w, H)
BestVar(s) == LET vs == {Var2(Win(s, k)) : k \in 1..(N - H + 1)} IN CHOOSE v \in vs : \A u \in vs : v <= u
BestMeanH(s) == LET k == CHOOSE k \in 1..(N - H + 1) : \A l \in 1..(N - H + 1) : Var2(Win(s, k)) <= Var2(Win(s, l)) IN Sum(Win(s, k), H)
CentreKept == Ready => L <= Med(x) /\ Med(x) <= L + V
ScaleKept == Ready => Scale(x) <= V
WindowKept == Ready => BestVar(x) <= H * H * V * V
(* a window of small variance holds a clean value, so its mean cannot be far from the clean range *)
WindowMeanKept == Ready => BestMeanH(x) >= H * (L - H * V) /\ BestMeanH(x) <= H * (L + V + H * V)
=============================================================================

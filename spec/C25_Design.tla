------------------------------ MODULE C25_Design ------------------------------
(* The medcouple as a median of pair scores, on every small integer sample:    *)
(* bounded, antisymmetric under mirroring, unchanged by shifts, zero on        *)
(* symmetric samples, with fences that mirror when the data do. Scores are     *)
(* multiplied by 840 (a common multiple of all differences), doubled values.   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, MaxV
VARIABLES x, pairs, cnt, pc
vars == <<x, pairs, cnt, pc>>
Sc == 840
Med2(s) == IF N % 2 = 1 THEN 2 * s[(N + 1) \div 2] ELSE s[N \div 2] + s[N \div 2 + 1]     \* twice the median of sorted s
LoI(s) == {i \in 1..N : 2 * s[i] <= Med2(s)}
UpI(s) == {i \in 1..N : 2 * s[i] >= Med2(s)}
Ties(s) == {i \in 1..N : 2 * s[i] = Med2(s)}
Base(s) == IF Ties(s) = {} THEN 0 ELSE (CHOOSE i \in Ties(s) : \A j \in Ties(s) : i <= j) - 1
Sgn(v) == IF v > 0 THEN 1 ELSE IF v < 0 THEN -1 ELSE 0
H(s, i, j) == IF i \in Ties(s) /\ j \in Ties(s) THEN Sc * Sgn((i - Base(s)) + (j - Base(s)) - 1 - Cardinality(Ties(s)))
              ELSE LET d == 2 * (s[j] - s[i]) num == (2 * s[j] - Med2(s)) - (Med2(s) - 2 * s[i]) IN (num * Sc) \div d
PairsOf(s) == LoI(s) \X UpI(s)
(* twice the median of the scores *)
MC2(s) == LET P == PairsOf(s) M == Cardinality(P)
              Rank(k) == CHOOSE v \in {H(s, q[1], q[2]) : q \in P} :
                           Cardinality({q \in P : H(s, q[1], q[2]) < v}) < k /\ k <= Cardinality({q \in P : H(s, q[1], q[2]) <= v})
          IN IF M % 2 = 1 THEN 2 * Rank((M + 1) \div 2) ELSE Rank(M \div 2) + Rank(M \div 2 + 1)
Mirror(s) == [i \in 1..N |-> MaxV - s[N + 1 - i]]
(* the exponents of the two fences, as in the rule (times 2*Sc) *)
LowExp(m) == IF m >= 0 THEN -4 * m ELSE -3 * m
UpExp(m) == IF m >= 0 THEN 3 * m ELSE 4 * m
Init == x = <<>> /\ pairs = {} /\ cnt = 0 /\ pc = "build"
Build == /\ pc = "build" /\ Len(x) < N
         /\ \E v \in (IF x = <<>> THEN 0 ELSE x[Len(x)])..MaxV : x' = Append(x, v)
         /\ UNCHANGED <<pairs, cnt, pc>>
Start == pc = "build" /\ Len(x) = N /\ pairs' = PairsOf(x) /\ cnt' = Cardinality({q \in PairsOf(x) : H(x, q[1], q[2]) > 0}) /\ pc' = "done" /\ UNCHANGED x
Next == Build \/ Start
Spec == Init /\ [][Next]_vars
Done == pc = "done"
Divides == Done => \A q \in pairs : x[q[2]] # x[q[1]] => LET d == 2 * (x[q[2]] - x[q[1]]) IN (2 * ((x[q[2]] + x[q[1]]) - Med2(x)) * Sc) % d = 0
Bounded == Done => MC2(x) <= 2 * Sc /\ MC2(x) >= -2 * Sc
Antisymmetric == Done => MC2(Mirror(x)) = -MC2(x)
FencesMirror == Done => LowExp(MC2(Mirror(x))) = UpExp(MC2(x)) /\ UpExp(MC2(Mirror(x))) = LowExp(MC2(x))
SymmetricIsZero == Done /\ Mirror(x) = x => MC2(x) = 0
(* a right tail moves the upper fence out and the lower fence in *)
SkewMovesFences == Done => (MC2(x) > 0 => UpExp(MC2(x)) > 0 /\ LowExp(MC2(x)) < 0)
PairsBothSides == Done => pairs # {} /\ \A q \in pairs : x[q[1]] <= x[q[2]]
=============================================================================

------------------------------ MODULE C10_Design ------------------------------
(* Exact fit and equivariance of the h-subset criterion for lines y = a + b x  *)
(* on integer data: elemental fits through two observations, the criterion is  *)
(* the h-th smallest absolute residual (exact after multiplying by x2 - x1).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, MaxX, MaxY
VARIABLES ys, cfit, tr, pc
vars == <<ys, cfit, tr, pc>>
Abs(v) == IF v < 0 THEN -v ELSE v
H == N \div 2 + 1
xs(i) == i % (MaxX + 1)
Pairs == {q \in (1..N) \X (1..N) : xs(q[1]) < xs(q[2])}
(* elemental fit through observations i and j: residual of k times (xj - xi) *)
Res(Y, q, k) == LET dx == xs(q[2]) - xs(q[1]) IN Abs(dx * (Y[k] - Y[q[1]]) - (Y[q[2]] - Y[q[1]]) * (xs(k) - xs(q[1])))
Dx(q) == xs(q[2]) - xs(q[1])
(* h-th smallest residual, as a pair numerator / Dx *)
Crit(Y, q) == CHOOSE v \in {Res(Y, q, k) : k \in 1..N} :
   /\ Cardinality({k \in 1..N : Res(Y, q, k) < v}) < H
   /\ Cardinality({k \in 1..N : Res(Y, q, k) <= v}) >= H
Best(Y) == LET F == TLCEval([q \in Pairs |-> Crit(Y, q)]) IN {q \in Pairs : \A u \in Pairs : F[q] * Dx(u) <= F[u] * Dx(q)}
Slope(Y, q) == <<Y[q[2]] - Y[q[1]], Dx(q)>>
Trans == {<<c, v, d>> : c \in {-2, -1, 3}, v \in {-1, 0, 2}, d \in {0, 5}}
Apply(t, Y) == [k \in 1..N |-> t[1] * Y[k] + t[2] * xs(k) + t[3]]
Init == ys = <<>> /\ cfit = {} /\ tr = <<1, 0, 0>> /\ pc = "build"
Build == pc = "build" /\ Len(ys) < N /\ (\E v \in 0..MaxY : ys' = Append(ys, v)) /\ UNCHANGED <<cfit, tr, pc>>
Fit == pc = "build" /\ Len(ys) = N /\ cfit' = Best(ys) /\ pc' = "fit" /\ UNCHANGED <<ys, tr>>
Transform == pc = "fit" /\ (\E t \in Trans : tr' = t) /\ pc' = "moved" /\ UNCHANGED <<ys, cfit>>
Next == Build \/ Fit \/ Transform
Spec == Init /\ [][Next]_vars
(* the optimal elemental fits are the same pairs after y -> c y + v x + d *)
Equivariant == pc = "moved" => Best(Apply(tr, ys)) = cfit
(* when at least H observations lie on a line, every optimal fit is such a line*)
OnLine(q) == {k \in 1..N : Res(ys, q, k) = 0}
ExactFit == pc = "fit" => ((\E q \in Pairs : Cardinality(OnLine(q)) >= H) => \A q \in cfit : Cardinality(OnLine(q)) >= H)
(* with an overwhelming majority on one line that line is the only optimum *)
Unique == pc = "fit" => \A q \in Pairs : (2 * Cardinality(OnLine(q)) >= N + H /\ \A u \in Pairs : OnLine(u) = OnLine(q) \/ Cardinality(OnLine(u)) < H)
                 => \A u \in cfit : OnLine(u) = OnLine(q)
=============================================================================

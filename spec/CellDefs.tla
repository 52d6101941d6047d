------------------------------- MODULE CellDefs -------------------------------
(* The cellwise MCD: conditional distributions given the clean cells of a row, *)
(* the C-step (weights column by column, then location and covariance) and its *)
(* iteration, for standardised data in which missing cells are NaN.            *)
EXTENDS Stats, TLC, SequencesExt
Missing(v) == ~RIsFinite(v)
MatOf(m) == MScale(1, m)
LnTwoPi == R("1.8378770664093453")
SubM(S, a, b) == [i \in 1..Len(a) |-> [k \in 1..Len(b) |-> S[a[i]][b[k]]]]
Ones(w) == Positions(w, LAMBDA v : REq(v, 1))
Zeros(w) == Positions(w, LAMBDA v : REq(v, 0))
Without(s, j) == SelectSeq(s, LAMBDA k : k # j)
(* regression of column j on columns O: coefficients and residual variance *)
CondOf(S, O, j) ==
  IF O = <<>> THEN [b |-> <<>>, v |-> R(S[j][j])]
  ELSE LET c == TLCEval(Sel(S[j], O)) b == TLCEval(MV(MInv(SubM(S, O, O)), c)) IN [b |-> b, v |-> S[j][j] \ominus VDot(b, c)]
CondMean(mu, O, cd, x, j) == IF O = <<>> THEN R(mu[j]) ELSE mu[j] \oplus VDot(cd.b, VSub(Sel(x, O), Sel(mu, O)))
(* for every row, its clean cells other than j *)
OthersOf(W, j) == TLCEval([i \in 1..Len(W) |-> Without(Ones(W[i]), j)])
CondTable(S, ob, j) == TLCEval([O \in {ob[i] : i \in 1..Len(ob)} |-> TLCEval(CondOf(S, O, j))])
(* prediction and conditional variance of column j for all rows *)
PredCol(X, W, mu, S, j) ==
  LET ob == OthersOf(W, j) tab == CondTable(S, ob, j)
  IN [m |-> TLCEval([i \in 1..Len(X) |-> CondMean(mu, ob[i], tab[ob[i]], X[i], j)]), v |-> TLCEval([i \in 1..Len(X) |-> tab[ob[i]].v])]
Inf == R("Infinity")
(* minus twice the log-likelihood gained by keeping the cell *)
DeltaCol(X, W, mu, S, j) == LET pc == PredCol(X, W, mu, S, j) IN
  TLCEval([i \in 1..Len(X) |-> IF Missing(X[i][j]) THEN Inf ELSE ((Sq(X[i][j] \ominus pc.m[i]) \oslash pc.v[i]) \oplus RLn(pc.v[i])) \oplus LnTwoPi])
SetCol(W, j, c) == TLCEval([i \in 1..Len(W) |-> [k \in 1..Len(W[i]) |-> IF k = j THEN c[i] ELSE W[i][k]]])
(* one column of weights: keep the cells below the penalty, at least h of them *)
NewCol(d, qj, h) ==
  LET n == Len(d)
      good == {i \in 1..n : d[i] \preceq qj}
      near == \E i \in 1..n : RClose(d[i], qj, R("1e-7"), R("1e-7"))
      ord == TLCEval(VArgsort(d))
      top == {ord[i] : i \in 1..h}
      tie == h < n /\ RClose(d[ord[h]], d[ord[h + 1]], R("1e-9"), R("1e-9"))
  IN IF Cardinality(good) < h THEN [w |-> [i \in 1..n |-> IF i \in top THEN 1 ELSE 0], sure |-> ~near /\ ~tie]
     ELSE [w |-> [i \in 1..n |-> IF i \in good THEN 1 ELSE 0], sure |-> ~near]
RECURSIVE WeightCols(_, _, _, _, _, _, _)
WeightCols(X, st, mu, S, q, h, order) ==
  IF order = <<>> THEN st
  ELSE LET j == order[1] c == TLCEval(NewCol(DeltaCol(X, st.W, mu, S, j), q[j], h))
           nx == TLCEval([W |-> SetCol(st.W, j, c.w), sure |-> st.sure /\ c.sure])
       IN WeightCols(X, nx, mu, S, q, h, Tail(order))
(* fullest columns last *)
UpdateW(X, W, mu, S, q, h) ==
  LET p == Len(X[1]) tot == TLCEval([j \in 1..p |-> VSum(Col(W, j))]) IN WeightCols(X, [W |-> W, sure |-> TRUE], mu, S, q, h, VArgsort(tot))
(* expected completed data given the clean cells, with the conditional covariance added *)
EMStep(X, W, mu, S) ==
  LET n == Len(X) p == Len(X[1])
      pats == {W[i] : i \in 1..n}
      info == TLCEval([w \in pats |-> LET O == TLCEval(Ones(w)) U == TLCEval(Zeros(w)) IN
                 TLCEval([O |-> O, U |-> U,
                  B |-> IF O = <<>> \/ U = <<>> THEN <<>> ELSE TLCEval(MMul(SubM(S, U, O), MInv(SubM(S, O, O)))),
                  C |-> IF U = <<>> THEN <<>> ELSE IF O = <<>> THEN SubM(S, U, U) ELSE TLCEval(MSub(SubM(S, U, U), MMul(MMul(SubM(S, U, O), MInv(SubM(S, O, O))), SubM(S, O, U))))])])
      pos(s, j) == CHOOSE k \in 1..Len(s) : s[k] = j
      Row(i) == LET f == info[W[i]] IN
                IF f.U = <<>> THEN [j \in 1..p |-> R(X[i][j])] ELSE IF f.O = <<>> THEN [j \in 1..p |-> R(mu[j])]
                ELSE LET m == TLCEval(VAdd(Sel(mu, f.U), MV(f.B, VSub(Sel(X[i], f.O), Sel(mu, f.O))))) IN [j \in 1..p |-> IF REq(W[i][j], 0) THEN m[pos(f.U, j)] ELSE R(X[i][j])]
      Y == TLCEval(MatOf([i \in 1..n |-> TLCEval(Row(i))]))
      m1 == TLCEval(ColMeans(Y))
      cnt(w) == Cardinality({i \in 1..n : W[i] = w})
      ps == SetToSeq(pats)
      bias == TLCEval([a \in 1..p |-> [b \in 1..p |-> VSum([k \in 1..Len(ps) |-> LET f == info[ps[k]] IN
                 IF REq(ps[k][a], 0) /\ REq(ps[k][b], 0) THEN cnt(ps[k]) \otimes f.C[pos(f.U, a)][pos(f.U, b)] ELSE R(0)])]])
      sc == TLCEval(Scatter(Y, m1))
  IN [mu |-> m1, S |-> TLCEval(MatOf([a \in 1..p |-> [b \in 1..p |-> (sc[a][b] \oplus bias[a][b]) \oslash n]]))]
(* eigenvalues below the bound are raised to it *)
Truncate(S, lmin) ==
  LET E == TLCEval(EigVecs(S)) ev == TLCEval(EigVals(S)) p == Len(S)
  IN IF lmin \preceq ev[p] THEN S ELSE TLCEval(MMul(MT(E), MMul(DiagOf([k \in 1..p |-> RMax2(ev[k], lmin)]), E)))
(* observed-likelihood objective plus the penalty for every cell set aside *)
Objective(X, W, mu, S, q) ==
  LET n == Len(X) p == Len(X[1])
      inv == TLCEval([w \in {W[i] : i \in 1..n} |-> LET O == TLCEval(Ones(w)) IN IF O = <<>> THEN [O |-> O, inv |-> <<>>, c |-> R(0)]
                 ELSE TLCEval([O |-> O, inv |-> TLCEval(MInv(SubM(S, O, O))), c |-> RLn(MDet(SubM(S, O, O))) \oplus (LnTwoPi \otimes Len(O))])])
      one(i) == LET f == inv[W[i]] d == TLCEval(VSub(Sel(X[i], f.O), Sel(mu, f.O))) IN
                IF f.O = <<>> THEN R(0) ELSE VDot(d, MV(f.inv, d)) \oplus f.c
  IN VSum([i \in 1..n |-> one(i)]) \oplus VSum([j \in 1..p |-> q[j] \otimes Len(Zeros(Col(W, j)))])
CStep(X, st, q, h, crit, lmin) ==
  LET w == TLCEval(UpdateW(X, st.W, st.mu, st.S, q, h))
      em == TLCEval(EMStep(X, w.W, st.mu, st.S))
      change == MaxAbsM(MSub(em.S, st.S))
      S == TLCEval(Truncate(em.S, lmin))
      obj == TLCEval(Objective(X, w.W, em.mu, S, q))
      (* a step that changes nothing visible may be taken or rejected *)
      still == TLCEval(MaxAbsM(MSub(S, st.S)) \preceq R("1e-8") /\ w.W = st.W)
      close == RClose(obj, st.obj, R("1e-9"), 0) /\ ~still
      sure == st.sure /\ (w.sure \/ still) /\ (still \/ ~RClose(change, crit, R("1e-4"), 0))
  IN IF st.obj \prec obj THEN [st EXCEPT !.sure = sure /\ ~close, !.how = "rejected"]
     ELSE IF change \preceq crit THEN [W |-> w.W, mu |-> em.mu, S |-> S, obj |-> obj, sure |-> sure, steps |-> st.steps + 1, how |-> "crit"]
     ELSE [W |-> w.W, mu |-> em.mu, S |-> S, obj |-> obj, sure |-> sure /\ ~close, steps |-> st.steps + 1, how |-> "limit"]
(* C-steps until a step is rejected, the covariance settles or the limit is reached *)
CellIter(X, st0, q, h, crit, lmin, maxsteps) ==
  LET Step(st, k) == IF st.how = "crit" \/ st.how = "rejected" THEN st ELSE CStep(X, st, q, h, crit, lmin)
  IN FoldLeft(Step, st0, [k \in 1..maxsteps |-> k])
CellPenalty(quant, S) == LET P == TLCEval(MInv(S)) IN TLCEval([j \in 1..Len(S) |-> (ChiPpf(quant, 1) \ominus RLn(P[j][j])) \oplus LnTwoPi])
CellMCDOf(X, mu0, S0, quant, h, crit, lmin, maxsteps) ==
  LET q == CellPenalty(quant, S0)
      W0 == TLCEval([i \in 1..Len(X) |-> TLCEval([j \in 1..Len(X[1]) |-> IF Missing(X[i][j]) THEN 0 ELSE 1])])
      st == TLCEval([W |-> W0, mu |-> mu0, S |-> S0, obj |-> TLCEval(Objective(X, W0, mu0, S0, q)), sure |-> TRUE, steps |-> 0, how |-> "start"])
  IN CellIter(X, st, q, h, crit, lmin, maxsteps)
=============================================================================

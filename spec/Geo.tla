--------------------------------- MODULE Geo ---------------------------------
(* Geometry shared by the specifications: the spatial median and subspaces.    *)
EXTENDS Stats
Dist(a, b) == RSqrt(VDot(VSub(a, b), VSub(a, b)))
Norm(v) == RSqrt(VDot(v, v))
F(X, m) == VSum([i \in 1..Len(X) |-> Dist(X[i], m)])
(* the sum of the unit vectors towards the other points, and how many coincide *)
Pull(X, m) ==
  LET aw == TLCEval(Positions([i \in 1..Len(X) |-> i], LAMBDA i : 0 \prec Dist(X[i], m)))
      u == TLCEval([k \in 1..Len(aw) |-> VScale(1 \oslash Dist(X[aw[k]], m), VSub(X[aw[k]], m))])
  IN [hits |-> Len(X) - Len(aw), v |-> IF aw = <<>> THEN [j \in 1..Len(m) |-> R(0)] ELSE TLCEval([j \in 1..Len(m) |-> VSum(Col(u, j))]),
      wt |-> IF aw = <<>> THEN R(0) ELSE VSum([k \in 1..Len(aw) |-> 1 \oslash Dist(X[aw[k]], m)])]
RECURSIVE Weisz(_, _, _)
Weisz(X, m, k) ==  \* Vardi-Zhang steps
  IF k = 0 THEN m ELSE
  LET q == TLCEval(Pull(X, m))
      r == TLCEval(Norm(q.v))
  IN IF q.hits = Len(X) \/ REq(r, 0) \/ r \preceq q.hits THEN m
     ELSE Weisz(X, TLCEval(VAdd(m, VScale((1 \ominus (q.hits \oslash r)) \oslash q.wt, q.v))), k - 1)
Centred(X, m) == TLCEval([i \in 1..Len(X) |-> VSub(X[i], m)])
(* B: rows are an orthonormal basis. scores, squared distances to the span *)
Scores(X, m, B) == MMul(Centred(X, m), MT(B))
OrthDist(X, m, B) == LET Z == Centred(X, m) T == TLCEval(MMul(Z, MT(B))) E == TLCEval(MSub(Z, TLCEval(MMul(T, B)))) IN TLCEval([i \in 1..Len(X) |-> Norm(E[i])])
Projector(B) == MMul(MT(B), B)
FirstRows(E, k) == [i \in 1..k |-> E[i]]
=============================================================================

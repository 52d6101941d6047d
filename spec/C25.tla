--------------------------------- MODULE C25 ---------------------------------
(* The adjusted boxplot: box per column, fences from the medcouple, drawn      *)
(* artists equal to the returned statistics.                                   *)
EXTENDS Stats, GenKit
Kinds == {"normal", "skew", "heavy", "ints", "ties", "out20", "cluster", "shifted", "tiny", "huge", "bimodal", "sorted", "majority", "intdtype", "positive", "uniform"}
Boxes == [n : {3, 4, 5, 6, 7, 9, 10, 17, 24, 40, 61}, p : 1..4, kind : Kinds, mirror : {"F", "T"}, form : {"array", "vector", "series", "frame", "list2"}, lab : {"str", "num", "dup", "none"},
          plot : {"no", "ax", "new"}, kw : {"none", "vert"}, rep : 1..2]
Cases == << Pick(Size(500, 6000), Boxes) >>

(* medcouple of Brys, Hubert and Struyf: the median over x_i <= m <= x_j of    *)
(* ((x_j - m) - (m - x_i)) / (x_j - x_i); observations equal to the median     *)
(* compare by rank                                                             *)
Medcouple(s) ==
  LET t == TLCEval(VSort(s))
      m == TLCEval(Median(s))
      lo == TLCEval(Positions(t, LAMBDA v : v \preceq m))
      up == TLCEval(Positions(t, LAMBDA v : m \preceq v))
      eq == TLCEval(Positions(t, LAMBDA v : REq(v, m)))
      k == Len(eq)
      base == IF k = 0 THEN 0 ELSE eq[1] - 1
      sg(i, j) == (i - base) + (j - base) - 1          \* ranks among the ties, 1..k each
      h(i, j) == IF REq(t[i], m) /\ REq(t[j], m) THEN (IF sg(i, j) < k THEN R(-1) ELSE IF sg(i, j) > k THEN R(1) ELSE R(0))
                 ELSE ((t[j] \ominus m) \ominus (m \ominus t[i])) \oslash (t[j] \ominus t[i])
      all == TLCEval([q \in 1..(Len(lo) * Len(up)) |-> h(lo[((q - 1) \div Len(up)) + 1], up[((q - 1) % Len(up)) + 1])])
  IN Median(all)
BoxOf(s) ==
  LET mc == TLCEval(Medcouple(s))
      q1 == Quantile(s, R("0.25"))
      q3 == Quantile(s, R("0.75"))
      iqr == q3 \ominus q1
      lf == q1 \ominus ((R("1.5") \otimes RExp((IF 0 \preceq mc THEN -4 ELSE -3) \otimes mc)) \otimes iqr)
      uf == q3 \oplus ((R("1.5") \otimes RExp((IF 0 \preceq mc THEN 3 ELSE 4) \otimes mc)) \otimes iqr)
  IN [med |-> Median(s), q1 |-> q1, q3 |-> q3, lw |-> RMax2(MinOf(s), lf), uw |-> RMin2(MaxOf(s), uf)]
Judge(r) ==
  LET ok == r.st = "ok"
      o == r.out
      X == r.X
      p == r.p
      bx == TLCEval([j \in 1..p |-> BoxOf(Col(X, j))])
      tol(j) == R("1e-9") \otimes MaxAbs(Col(X, j))
      Eq(a, b, j) == RClose(a, b, R("1e-9"), tol(j))
      sized == ok /\ Len(o.box) = p
      fl(j) == TLCEval(VSort(Filter(Col(X, j), LAMBDA v : v \prec o.box[j].lw \/ o.box[j].uw \prec v)))
      drawn == sized /\ r.plot /\ o.draw # <<>>
  IN << Cl("Returns", TRUE, ok),
        Cl("OneBoxPerColumn", ok, Len(o.box) = p),
        Cl("MedianAndQuartiles", sized, \A j \in 1..p : Eq(o.box[j].med, bx[j].med, j) /\ Eq(o.box[j].q1, bx[j].q1, j) /\ Eq(o.box[j].q3, bx[j].q3, j)),
        Cl("LowerWhisker", sized, \A j \in 1..p : Eq(o.box[j].lw, bx[j].lw, j)),
        Cl("UpperWhisker", sized, \A j \in 1..p : Eq(o.box[j].uw, bx[j].uw, j)),
        Cl("Ordered", sized, \A j \in 1..p : LET b == o.box[j] e == tol(j) IN b.lw \preceq (b.q1 \oplus e) /\ b.q1 \preceq (b.med \oplus e) /\ b.med \preceq (b.q3 \oplus e) /\ b.q3 \preceq (b.uw \oplus e)),
        Cl("DrawnExactlyWhenAsked", ok, (o.draw # <<>>) = r.plot),
        Cl("DrawnOnTheGivenAxes", ok /\ r.plot, o.onax),
        Cl("DrawnBoxes", drawn, Len(o.draw) = p /\ \A j \in 1..p : LET d == o.draw[j] b == o.box[j] IN
              REq(d.lw, b.lw) /\ REq(d.uw, b.uw) /\ REq(d.med, b.med) /\ REq(d.q1, b.q1) /\ REq(d.q3, b.q3)),
        Cl("DrawnFliers", drawn /\ Len(o.draw) = p, \A j \in 1..p : LET e == fl(j) IN Len(o.draw[j].fliers) = Len(e) /\ VClose(o.draw[j].fliers, e, 0, 0)),
        Cl("DrawnLabels", drawn /\ r.named, o.labels = r.labels),
        Cl("ContainerAndColumnsIndependent", ok, o.same) >>
=============================================================================

--------------------------------- MODULE C14 ---------------------------------
(* DataCleaner: which columns and rows survive, as a function of the training   *)
(* frame, the frame to clean, and the thresholds (thousandths).                *)
EXTENDS Stats, GenKit
Orders == {"automatic", "columns", "rows"}
Base(ns, ps) == [n : ns, p : ps, order : Orders, mc : {0, 200, 300, 500, 800, 1000}, mr : {200, 250, 500, 700, 1000}, mu : {1, 2, 3, 5}, ms : {"zero", "tiny", "one"},
                 minrows : {3, 3, 6}, lab : {"range", "perm", "dup", "str", "date"}, hist : {"one", "twice", "other", "refit", "wide"}, same : {"T", "F"}, miss : {0, 10, 30, 60}, rep : 1..3]
Cases == << Pick(Size(1100, 12000), Base({2, 4, 5, 6, 8, 10, 20, 31}, 1..8)), Pick(Size(200, 2000), Base({2, 3, 4, 5}, {10, 15, 20, 25})) >>

Miss(v) == ~RIsFinite(v)
Obs(s) == Filter(s, LAMBDA v : ~Miss(v))
Distinct(s) == LET t == VSort(s) IN IF t = <<>> THEN 0 ELSE 1 + Cardinality({i \in 2..Len(t) : ~REq(t[i], t[i-1])})
NMiss(X, rows, cols) == Cardinality({q \in rows \X cols : Miss(X[q[1]][q[2]])})
AtLeast(k, m, thr) == m > 0 /\ 1000 * k >= thr * m

(* decided on the training frame *)
NonNumeric(r) == {j \in 1..r.p : r.tp[j] = "str"}
DiscreteCols(r) == {j \in (1..r.p) \ NonNumeric(r) : Distinct(Obs(Col(r.F, j))) <= r.mu}
BadScale(r, disc) == {j \in ((1..r.p) \ NonNumeric(r)) \ disc : MADraw(Obs(Col(r.F, j))) \preceq r.ms}
(* decided on the frame to clean *)
RowNumber(r) == {j \in (1..r.p) \ NonNumeric(r) : \A i \in 1..r.n : ~Miss(r.X[i][j]) /\ REq(r.X[i][j], i - 1)}
MissCols(r, cand, rows, thr) == {j \in cand : AtLeast(NMiss(r.X, rows, {j}), Cardinality(rows), thr)}
MissRows(r, cand, cols, thr) == {i \in cand : AtLeast(NMiss(r.X, {i}, cols), Cardinality(cols), thr)}
First(r) == IF r.order = "automatic" THEN (IF r.p >= 5 * r.n THEN "columns" ELSE "rows") ELSE r.order

Judge(r) ==
  LET o == r.out
      ok == r.st = "ok"
      few == r.n < r.minrows
      run == ok /\ ~few /\ ~o.raised
      nn == NonNumeric(r)
      dc == TLCEval(DiscreteCols(r))
      bs == TLCEval(BadScale(r, dc))
      rn == TLCEval(RowNumber(r))
      cand == ((1..r.p) \ nn) \ (dc \cup bs)
      all == 1..r.n
      cfirst == First(r) = "columns"
      mc1 == MissCols(r, cand, all, r.mc)
      mr1 == MissRows(r, all, cand, r.mr)
      mcs == TLCEval(IF cfirst THEN mc1 ELSE MissCols(r, cand, all \ mr1, r.mc))
      mrs == TLCEval(IF cfirst THEN MissRows(r, all, cand \ mc1, r.mr) ELSE mr1)
      dropC == (((nn \cup dc) \cup bs) \cup rn) \cup mcs
      keepC == TLCEval(SetSeq((1..r.p) \ dropC))
      keepR == TLCEval(SetSeq(all \ mrs))
      SameCell(a, b) == IF Miss(a) THEN RIsNaN(b) ELSE REq(a, b)
  IN << Cl("Returns", TRUE, ok),
        Cl("TooFewRowsRejected", ok, o.raised = few),
        Cl("ColumnsKept", run, o.cols = keepC),
        Cl("RowsKept", run, o.index = [i \in 1..Len(keepR) |-> r.index[keepR[i]]]),
        Cl("CellsUnchanged", run /\ o.cols = keepC /\ Len(o.val) = Len(keepR),
             \A i \in 1..Len(keepR) : \A j \in 1..Len(keepC) : SameCell(r.X[keepR[i]][keepC[j]], o.val[i][j])),
        Cl("ReportedNonNumeric", run, ToSet(o.dnn) = nn),
        Cl("ReportedDiscrete", run, ToSet(o.ddc) \ nn = dc),
        Cl("ReportedScale", run, ToSet(o.dbs) = bs),
        Cl("ReportedRowNumber", run, ToSet(o.drn) \ nn = rn),
        Cl("ReportedMissingColumns", run, ToSet(o.dmc) = mcs),
        Cl("ReportedRows", run, o.drows = [i \in 1..Cardinality(mrs) |-> r.index[SetSeq(mrs)[i]]]),
        Cl("ReportedAllColumns", run, ToSet(o.dnn) \cup ToSet(o.ddc) \cup ToSet(o.dbs) \cup ToSet(o.drn) \cup ToSet(o.dmc) = dropC) >>
=============================================================================

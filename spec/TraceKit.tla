------------------------------- MODULE TraceKit -------------------------------
(* Trace validation. Log holds one record per executed public call (or call    *)
(* group) of the implementation. Each step consumes one record and evaluates   *)
(* every clause of the property's specification on it; `bad' collects the      *)
(* clauses that do not hold, `cnt' how often each clause applied.              *)
EXTENDS Reals64, TLC, Json, IOUtils, Sequences
CONSTANT JudgeOp(_)     \* record -> sequence of <<clause, "na"|"ok"|"fail">>
Log == LoadRecords(IOEnv.TRACE)
VARIABLES l, bad, cnt

TInit == l = 1 /\ bad = <<>> /\ cnt = [c \in {} |-> <<0, 0, 0>>]
Bump(f, c, v) ==
  LET o == IF c \in DOMAIN f THEN f[c] ELSE <<0, 0, 0>>
      w == <<o[1] + (IF v = "na" THEN 1 ELSE 0), o[2] + (IF v = "ok" THEN 1 ELSE 0), o[3] + (IF v = "fail" THEN 1 ELSE 0)>>
  IN [d \in DOMAIN f \cup {c} |-> IF d = c THEN w ELSE f[d]]
Consume ==
  /\ l <= Len(Log)
  /\ LET r == Log[l]
         v == TLCEval(JudgeOp(r))
         C[i \in 0..Len(v)] == IF i = 0 THEN cnt ELSE Bump(C[i-1], v[i][1], v[i][2])
         fails == SelectSeq(v, LAMBDA x : x[2] = "fail")
     IN /\ cnt' = C[Len(v)]
        /\ bad' = bad \o [i \in 1..Len(fails) |-> <<r.id, fails[i][1]>>]
  /\ l' = l + 1
Finish ==
  /\ l = Len(Log) + 1
  /\ JsonSerialize(IOEnv.VERDICT, [bad |-> bad, cnt |-> [c \in DOMAIN cnt |-> cnt[c]], n |-> Len(Log)])
  /\ l' = l + 1 /\ UNCHANGED <<bad, cnt>>
TNext == Consume \/ Finish
TSpec == TInit /\ [][TNext]_<<l, bad, cnt>>
(* every record was consumed and the verdict written *)
Accepted == TLCGet("stats").diameter = Len(Log) + 2
=============================================================================

------------------------------ MODULE C20_Design ------------------------------
(* Calls, generator states and interleavings. Streams are pairs <<source,      *)
(* position>>; a call consumes two draws and answers with the draws it used.   *)
(* Source: "percall" (a generator per call from the seed), "object" (made when *)
(* the object is constructed), "global" (numpy's), "percandidate" (made again  *)
(* from the seed for every candidate).                                         *)
EXTENDS Session20, FiniteSets
CONSTANTS Source, Seeds, MaxOps
VARIABLES g, objpos, memo, ops, last, fresh
vars == <<g, objpos, memo, ops, last, fresh>>
Keys == Seeds
Init == g = 0 /\ objpos = [k \in Keys |-> 0] /\ memo = [k \in Keys |-> <<>>] /\ ops = 0 /\ fresh = 0 /\ last = [op |-> "none", before |-> 0, after |-> 0, first |-> <<>>, answer |-> <<>>]
Draws(k) == CASE Source = "percall" -> << <<k, 0>>, <<k, 1>> >>
              [] Source = "object" -> << <<k, objpos[k]>>, <<k, objpos[k] + 1>> >>
              [] Source = "global" -> << <<"g", g>>, <<"g", g + 1>> >>
              [] OTHER -> << <<k, 0>>, <<k, 0>> >>
Call(k) == /\ ops < MaxOps /\ ops' = ops + 1
           /\ g' = IF Source = "global" THEN g + 2 ELSE g
           /\ objpos' = [objpos EXCEPT ![k] = @ + 2]
           /\ last' = [op |-> "seeded", before |-> g, after |-> g', first |-> memo[k], answer |-> Draws(k)]
           /\ memo' = Remember(memo, k, Draws(k)) /\ UNCHANGED fresh
Unseeded == /\ ops < MaxOps /\ ops' = ops + 1 /\ fresh' = fresh + 2
            /\ last' = [op |-> "unseeded", before |-> g, after |-> g, first |-> <<>>, answer |-> << <<"os", fresh>>, <<"os", fresh + 1>> >>] /\ UNCHANGED <<g, objpos, memo>>
Perturb == ops < MaxOps /\ ops' = ops + 1 /\ g' \in {0, g + 1, 7} /\ last' = [last EXCEPT !.op = "perturb"] /\ UNCHANGED <<objpos, memo, fresh>>
Next == (\E k \in Keys : Call(k)) \/ Unseeded \/ Perturb
Spec == Init /\ [][Next]_vars
Reproducible == last.op = "seeded" => SeededOk(last.before, last.after, last.first, last.answer, LAMBDA a, b : a = b)
CandidatesDiffer == last.op \in {"seeded", "unseeded"} => last.answer[1] # last.answer[2]
=============================================================================

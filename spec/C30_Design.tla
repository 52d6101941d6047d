------------------------------ MODULE C30_Design ------------------------------
(* Reporting does not interfere: two runs of the same fit (self-composition)   *)
(* over the same program of steps, each step computes and then reports at a    *)
(* level; run r prints the report when the level reaches its verbosity V[r].   *)
(* The estimates, the state of the generator and the parameters stay equal     *)
(* step by step; only what is printed differs. Draws: a report takes numbers   *)
(* from the generator. Guards: a step is only done when it is reported.        *)
(* Pairs: the levels of the two runs; Levels: 10 debug .. 50 critical; 60 asks *)
(* for silence. Leaks: an error in the report stops the fit.                   *)
EXTENDS Integers, Sequences
CONSTANTS Levels, Verbs, Len_, Draws, Guards, Leaks
VARIABLES V, prog, pc, st, rng, out
vars == <<V, prog, pc, st, rng, out>>
Init == /\ V \in [1..2 -> Verbs] /\ prog \in [1..Len_ -> Levels]
        /\ pc = [r \in 1..2 |-> 1] /\ st = [r \in 1..2 |-> 0] /\ rng = [r \in 1..2 |-> 0] /\ out = [r \in 1..2 |-> <<>>]
Shown(r, l) == l >= V[r]
Step(r) == /\ pc[r] <= Len_
           /\ LET l == prog[pc[r]] sh == Shown(r, l) IN
              /\ pc' = [pc EXCEPT ![r] = IF Leaks /\ sh /\ l = 10 THEN Len_ + 1 ELSE @ + 1]
              /\ rng' = [rng EXCEPT ![r] = (@ + 1 + (IF Draws /\ sh THEN 1 ELSE 0)) % 7]
              /\ st' = [st EXCEPT ![r] = IF Guards /\ ~sh THEN @ ELSE (3 * @ + pc[r] + rng[r]) % 11]
              /\ out' = [out EXCEPT ![r] = IF sh THEN Append(@, l) ELSE @]
           /\ UNCHANGED <<V, prog>>
StepA == Step(1)
StepB == Step(2)
Next == StepA \/ StepB
Spec == Init /\ [][Next]_vars
SameAnswers == (pc[1] = pc[2]) => (st[1] = st[2] /\ rng[1] = rng[2])
SilentWhenAsked == \A r \in 1..2 : V[r] = 60 => out[r] = <<>>
MoreIsShownLower == (V[1] <= V[2] /\ pc[1] = pc[2]) => Len(out[1]) >= Len(out[2])
=============================================================================

------------------------------ MODULE Session20 ------------------------------
(* Randomised estimators and the generators they use. State: the global        *)
(* generator's state (an abstract name) and what every seeded configuration    *)
(* has answered so far. A seeded call leaves the global state as it is and     *)
(* repeats its first answer; only the caller moves the global state.           *)
EXTENDS Integers, Sequences
SeededOk(gBefore, gAfter, first, answer, Same(_, _)) == gBefore = gAfter /\ (first # <<>> => Same(first, answer))
Remember(memo, k, answer) == IF memo[k] = <<>> THEN [memo EXCEPT ![k] = answer] ELSE memo
=============================================================================

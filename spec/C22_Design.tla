------------------------------ MODULE C22_Design ------------------------------
(* The life of an estimator: a fit validates, computes its K results one after *)
(* the other and stores them; it can stop at any of these steps (invalid data, *)
(* invalid parameter). A read needs result 1..K. Staged: results are stored    *)
(* together, after the last one is computed; the alternative (results stored   *)
(* as placeholders at the start and filled in) answers reads after a fit that  *)
(* raised. Checked: the parameter is looked at on every path to a result.      *)
EXTENDS Integers, FiniteSets
CONSTANTS K, MaxFits, Staged, Checked
VARIABLES st, pos, stored, ok, fits, answered, badanswer
vars == <<st, pos, stored, ok, fits, answered, badanswer>>
(* ok: "the data and parameters of the fit in progress are valid" *)
Init == st = "new" /\ pos = 0 /\ stored = {} /\ ok = TRUE /\ fits = 0 /\ answered = FALSE /\ badanswer = FALSE
Begin == st \in {"new", "failed"} /\ fits < MaxFits /\ st' = "fitting" /\ pos' = 0 /\ fits' = fits + 1 /\ \E v \in BOOLEAN : ok' = v
         /\ stored' = (IF Staged THEN stored ELSE 1..K)
         /\ UNCHANGED <<answered, badanswer>>
Compute == st = "fitting" /\ pos < K /\ pos' = pos + 1 /\ UNCHANGED <<st, stored, ok, fits, answered, badanswer>>
(* invalid input is noticed at some step, at the latest at the last *)
Stop == st = "fitting" /\ ~ok /\ st' = "failed" /\ UNCHANGED <<pos, stored, ok, fits, answered, badanswer>>
Finish == st = "fitting" /\ pos = K /\ (ok \/ ~Checked) /\ st' = "fitted" /\ stored' = 1..K /\ UNCHANGED <<pos, ok, fits, answered, badanswer>>
Read == st # "fitting" /\ stored = 1..K /\ answered' = TRUE /\ badanswer' = (badanswer \/ st # "fitted" \/ ~ok) /\ UNCHANGED <<st, pos, stored, ok, fits>>
Next == Begin \/ Compute \/ Stop \/ Finish \/ Read
Spec == Init /\ [][Next]_vars
NeverAnswersUnfitted == ~badanswer
NothingStoredEarly == st \in {"new", "failed"} => stored = {}
=============================================================================

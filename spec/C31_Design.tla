------------------------------ MODULE C31_Design ------------------------------
(* Default objects: an estimator made without one of its optional arguments    *)
(* refers to a nested default object. nest[o] is the address of the nested     *)
(* object of o, heap[a] the value of its parameter and fits[a] whether it has  *)
(* been fitted. Changing or fitting the nested object of o through o touches   *)
(* the address nest[o]. Shared: one default object is made once, when the      *)
(* function is defined, and every caller refers to it. Explicit objects (given *)
(* by the caller) may be shared between estimators on purpose.                 *)
EXTENDS Integers, FiniteSets
CONSTANTS Objs, Vals, Doc, Shared
ASSUME Doc \in Vals
Addrs == 0..Cardinality(Objs)
VARIABLES nest, heap, changed, given, fitted
vars == <<nest, heap, changed, given, fitted>>
Init == /\ nest = [o \in Objs |-> 0] /\ heap = [a \in Addrs |-> Doc]
        /\ changed = {} /\ given = [o \in Objs |-> 0] /\ fitted = {}
Made == {o \in Objs : nest[o] # 0}
Fresh == CHOOSE a \in Addrs \ {0} : \A o \in Made : nest[o] # a
Default(o) == /\ nest[o] = 0
              /\ nest' = [nest EXCEPT ![o] = IF Shared /\ Made # {} THEN CHOOSE a \in Addrs \ {0} : \E q \in Made : nest[q] = a ELSE Fresh]
              /\ UNCHANGED <<heap, changed, given, fitted>>
Explicit(o, v) == /\ ~Shared /\ nest[o] = 0
                  /\ nest' = [nest EXCEPT ![o] = Fresh] /\ heap' = [heap EXCEPT ![Fresh] = v]
                  /\ given' = [given EXCEPT ![o] = 1] /\ UNCHANGED <<changed, fitted>>
Change(o, v) == /\ nest[o] # 0 /\ heap' = [heap EXCEPT ![nest[o]] = v] /\ changed' = changed \cup {o} /\ UNCHANGED <<nest, given, fitted>>
Fit(o) == /\ nest[o] # 0 /\ o \notin fitted /\ fitted' = fitted \cup {o} /\ UNCHANGED <<nest, heap, changed, given>>
Next == \E o \in Objs : Default(o) \/ Fit(o) \/ \E v \in Vals : Explicit(o, v) \/ Change(o, v)
Spec == Init /\ [][Next]_vars
DocumentedDefaults == \A o \in Made : (o \notin changed /\ given[o] = 0) => heap[nest[o]] = Doc
OwnDefaults == \A o, q \in Made : o # q => nest[o] # nest[q]
=============================================================================

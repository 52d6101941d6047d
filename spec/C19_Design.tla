------------------------------ MODULE C19_Design ------------------------------
(* Objects that hold an inner estimator (constructor parameter, possibly one   *)
(* the caller also uses as an object of its own: inner[o] = another object, or *)
(* a default shared by all), with fits, failing fits and reads in any order.   *)
(* est[o] is what the code stores, f[o] the abstract state of Session19.       *)
(* Copies: a fit works on a copy of the inner estimator. Warm: a fit starts    *)
(* from the previous estimates. Lazy: a read stores what it computed.          *)
EXTENDS Session19
CONSTANTS Objs, Data, MaxOps, Copies, Warm, Lazy
Inner == [o \in 1..Objs |-> (o % Objs) + 1]
VARIABLES f, est, ops
vars == <<f, est, ops>>
Init == f = Start(Objs) /\ est = [o \in 1..Objs |-> <<0, 0>>] /\ ops = 0
Store(o, d) == [i \in 1..Objs |-> IF i = o THEN <<d, IF Warm THEN est[o][1] ELSE 0>>
                                  ELSE IF ~Copies /\ Inner[o] = i THEN <<d, 0>> ELSE est[i]]
DoFit(o, d) == f' = Step(f, [op |-> "fit", o |-> o, d |-> d]) /\ est' = Store(o, d)
DoBad(o) == f' = Step(f, [op |-> "bad", o |-> o]) /\ est' = [est EXCEPT ![o] = <<-1, 0>>]
DoRead(o) == f[o] > 0 /\ f' = Step(f, [op |-> "read", o |-> o]) /\ est' = IF Lazy THEN [est EXCEPT ![o][2] = 1] ELSE est
Tick == ops < MaxOps /\ ops' = ops + 1
FitA == \E o \in 1..Objs, d \in Data : Tick /\ DoFit(o, d)
BadA == \E o \in 1..Objs : Tick /\ DoBad(o)
ReadA == \E o \in 1..Objs : Tick /\ DoRead(o)
Next == FitA \/ BadA \/ ReadA
Spec == Init /\ [][Next]_vars
(* a read equals a fresh object's: it sees the last data and nothing else *)
NoMemory == \A o \in 1..Objs : f[o] > 0 => est[o] = <<f[o], 0>>
NoInterference == \A o \in 1..Objs : f[o] = 0 => est[o] = <<0, 0>>
=============================================================================

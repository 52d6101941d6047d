------------------------------ MODULE C21_Design ------------------------------
(* Who owns which buffer. The caller owns buffers; a call gets one of them,    *)
(* possibly through a container whose unpacking gives a view (alias) of it,    *)
(* works on an array (its own when Copies), writes to it in some steps, and    *)
(* returns or raises at any point. The model may keep its working array; a     *)
(* later call may write to what the model keeps.                               *)
EXTENDS Integers, Sequences
CONSTANTS NBuf, Containers, MaxCalls, Copies
VARIABLES buf, work, kept, pc, calls, container
vars == <<buf, work, kept, pc, calls, container>>
(* working arrays: 0 = own memory, k > 0 = the caller's buffer k *)
Init == buf = [k \in 1..NBuf |-> 0] /\ work = 0 /\ kept = 0 /\ pc = "idle" /\ calls = 0 /\ container = "none"
Enter(k, c) == /\ pc = "idle" /\ calls < MaxCalls /\ calls' = calls + 1 /\ container' = c
               /\ work' = IF Copies \/ c \in {"int", "mixed"} THEN 0 ELSE k   \* converting makes a copy anyway
               /\ pc' = "run" /\ UNCHANGED <<buf, kept>>
Write == pc = "run" /\ buf' = (IF work = 0 THEN buf ELSE [buf EXCEPT ![work] = 1]) /\ UNCHANGED <<work, kept, pc, calls, container>>
WriteKept == pc = "run" /\ buf' = (IF kept = 0 THEN buf ELSE [buf EXCEPT ![kept] = 1]) /\ UNCHANGED <<work, kept, pc, calls, container>>
Keep == pc = "run" /\ kept' = work /\ UNCHANGED <<buf, work, pc, calls, container>>
Return == pc = "run" /\ pc' = "idle" /\ work' = 0 /\ UNCHANGED <<buf, kept, calls, container>>
Raise == pc = "run" /\ pc' = "idle" /\ work' = 0 /\ UNCHANGED <<buf, kept, calls, container>>
Next == (\E k \in 1..NBuf, c \in Containers : Enter(k, c)) \/ Write \/ WriteKept \/ Keep \/ Return \/ Raise
Spec == Init /\ [][Next]_vars
CallerDataUnchanged == \A k \in 1..NBuf : buf[k] = 0
NothingAliased == kept = 0
=============================================================================

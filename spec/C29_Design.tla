------------------------------ MODULE C29_Design ------------------------------
(* Objects as the language has them: a slot points to an object of the heap    *)
(* (par: the constructor parameters stored, est: what the last fit stored, with *)
(* its parts in a second cell that a shallow copy would share). The answers of *)
(* the heap must be those of Session29. DeepCopies: a copy gets parts of its   *)
(* own. CloneFresh: a clone starts without estimates. KeepsParams: the         *)
(* constructor stores what it is given (clone and get_params see it again).    *)
(* FitInPlace: a fit writes into the parts cell it has (it may, as long as no  *)
(* other object shares it).                                                    *)
EXTENDS Session29
CONSTANTS Slots, Cfgs, Data, MaxOps, DeepCopies, CloneFresh, KeepsParams, FitInPlace
VARIABLES f, par, cell, store, nxt, ops
vars == <<f, par, cell, store, nxt, ops>>
None == <<0, 0>>
Stored(c) == IF KeepsParams THEN c ELSE 1
Init == /\ f = Start(Slots) /\ par = [o \in 1..Slots |-> IF o = 1 THEN Stored(1) ELSE 0]
        /\ cell = [o \in 1..Slots |-> o] /\ store = [i \in 1..(Slots + MaxOps) |-> None]
        /\ nxt = Slots + 1 /\ ops = 0
Tick == ops < MaxOps /\ ops' = ops + 1
Fresh(v) == store' = [store EXCEPT ![nxt] = v] /\ nxt' = nxt + 1
DoFit(o, d) == LET v == <<par[o], d>> IN
  /\ par[o] > 0 /\ f' = Step(f, [op |-> "fit", o |-> o, d |-> d]) /\ par' = par
  /\ IF FitInPlace THEN store' = [store EXCEPT ![cell[o]] = v] /\ UNCHANGED <<cell, nxt>>
     ELSE Fresh(v) /\ cell' = [cell EXCEPT ![o] = nxt]
DoSet(o, c) == par[o] > 0 /\ f' = Step(f, [op |-> "set", o |-> o, d |-> c]) /\ par' = [par EXCEPT ![o] = Stored(c)] /\ UNCHANGED <<cell, store, nxt>>
DoNew(o, c) == f' = Step(f, [op |-> "new", o |-> o, d |-> c]) /\ par' = [par EXCEPT ![o] = Stored(c)] /\ Fresh(None) /\ cell' = [cell EXCEPT ![o] = nxt]
DoClone(o, j) == par[o] > 0 /\ o # j /\ f' = Step(f, [op |-> "clone", o |-> o, j |-> j]) /\ par' = [par EXCEPT ![j] = par[o]]
                 /\ Fresh(IF CloneFresh THEN None ELSE store[cell[o]]) /\ cell' = [cell EXCEPT ![j] = nxt]
DoCopy(o, j) == par[o] > 0 /\ o # j /\ f' = Step(f, [op |-> "deep", o |-> o, j |-> j]) /\ par' = [par EXCEPT ![j] = par[o]]
                /\ IF DeepCopies THEN Fresh(store[cell[o]]) /\ cell' = [cell EXCEPT ![j] = nxt]
                   ELSE cell' = [cell EXCEPT ![j] = cell[o]] /\ UNCHANGED <<store, nxt>>
FitA == Tick /\ \E o \in 1..Slots, d \in Data : DoFit(o, d)
SetA == Tick /\ \E o \in 1..Slots, c \in Cfgs : DoSet(o, c)
NewA == Tick /\ \E o \in 1..Slots, c \in Cfgs : DoNew(o, c)
CloneA == Tick /\ \E o, j \in 1..Slots : DoClone(o, j)
CopyA == Tick /\ \E o, j \in 1..Slots : DoCopy(o, j)
Next == FitA \/ SetA \/ NewA \/ CloneA \/ CopyA
Spec == Init /\ [][Next]_vars
ParamsAreThose == \A o \in 1..Slots : par[o] = f[o].cfg
AnswersAreThose == \A o \in 1..Slots : store[cell[o]] = <<f[o].fc, f[o].fd>>
=============================================================================

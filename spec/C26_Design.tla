------------------------------ MODULE C26_Design ------------------------------
(* Every history of loads and caller mutations over a few tables, with the     *)
(* loader as it is (reads the packaged file each time) and, behind Cached, a   *)
(* loader that keeps its first result: the freshness property separates them.  *)
EXTENDS Session26
CONSTANTS Tables, MaxOps, Cached
VARIABLES held, owner, store, ops, last
vars == <<held, owner, store, ops, last>>
File(t) == <<t, 0>>
Init == held = <<>> /\ owner = <<>> /\ store = [t \in Tables |-> 0] /\ ops = 0 /\ last = [op |-> "none", t |-> "", prev |-> <<>>, k |-> 0]
(* store[t] = index of the shared result of table t, 0 when there is none *)
Load(t) == /\ ops < MaxOps /\ ops' = ops + 1
           /\ held' = SLoad(held, IF Cached /\ store[t] # 0 THEN held[store[t]] ELSE File(t))
           /\ owner' = Append(owner, IF Cached /\ store[t] # 0 THEN store[t] ELSE Len(held) + 1)
           /\ store' = IF store[t] = 0 THEN [store EXCEPT ![t] = Len(held) + 1] ELSE store
           /\ last' = [op |-> "load", t |-> t, prev |-> held, k |-> 0]
Mutate(k) == /\ ops < MaxOps /\ ops' = ops + 1 /\ k \in 1..Len(held)
             /\ held' = [i \in 1..Len(held) |-> IF owner[i] = owner[k] THEN <<held[i][1], ops + 1>> ELSE held[i]]
             /\ UNCHANGED <<owner, store>> /\ last' = [op |-> "mutate", t |-> "", prev |-> held, k |-> k]
Chdir == ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED <<held, owner, store>> /\ last' = [op |-> "chdir", t |-> "", prev |-> held, k |-> 0]
Next == (\E t \in Tables : Load(t)) \/ (\E k \in 1..MaxOps : Mutate(k)) \/ Chdir
Spec == Init /\ [][Next]_vars
LoadFresh == last.op = "load" => LoadOk(last.prev, held, File(last.t))
MutationLocal == last.op = "mutate" => MutateOk(last.prev, held, last.k)
NothingElse == last.op = "chdir" => OtherOk(last.prev, held)
=============================================================================

------------------------------ MODULE Session29 ------------------------------
(* The life of estimator objects. A slot holds an object: cfg, the constructor *)
(* configuration it has now (0: the slot is empty), fc and fd, configuration   *)
(* and data of its last fit (0: not fitted). set_params changes cfg only;      *)
(* clone makes an object of the same cfg that is not fitted; copies            *)
(* (copy.deepcopy, a pickle round trip) make an object of the same state.      *)
(* What a read gives is a function of fc, fd and its arguments alone; it is    *)
(* defined while cfg = fc, an error while nothing was fitted.                  *)
EXTENDS Integers, Sequences
Slot(c, k, d) == [cfg |-> c, fc |-> k, fd |-> d]
Start(n) == [o \in 1..n |-> IF o = 1 THEN Slot(1, 0, 0) ELSE Slot(0, 0, 0)]
Live(f, o) == f[o].cfg > 0
Enabled(f, e) == IF e.op = "new" THEN TRUE ELSE Live(f, e.o)
Step(f, e) == CASE e.op \in {"fit", "fittr"} -> [f EXCEPT ![e.o] = Slot(f[e.o].cfg, f[e.o].cfg, e.d)]
                [] e.op = "set" -> [f EXCEPT ![e.o].cfg = e.d]
                [] e.op = "new" -> [f EXCEPT ![e.o] = Slot(e.d, 0, 0)]
                [] e.op = "clone" -> [f EXCEPT ![e.j] = Slot(f[e.o].cfg, 0, 0)]
                [] e.op \in {"deep", "pick"} -> [f EXCEPT ![e.j] = f[e.o]]
                [] OTHER -> f
Defined(s) == s.cfg = s.fc
Unfitted(s) == s.cfg > 0 /\ s.fc = 0
RECURSIVE States(_, _)
States(f, evs) == IF evs = <<>> THEN <<f>> ELSE <<f>> \o States(Step(f, Head(evs)), Tail(evs))
=============================================================================

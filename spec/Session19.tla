------------------------------ MODULE Session19 ------------------------------
(* A session with estimator objects. The abstract state is, per object, the    *)
(* data of its last fit: 0 before any fit, -1 after a fit that raised. What a  *)
(* read gives is a function of (class and constructor parameters, that data,   *)
(* arguments of the read) alone.                                               *)
EXTENDS Integers, Sequences
Start(n) == [o \in 1..n |-> 0]
Fit(f, o, d) == [f EXCEPT ![o] = d]
FailFit(f, o) == [f EXCEPT ![o] = -1]
(* reads leave the state as it is *)
Step(f, e) == CASE e.op = "fit" -> Fit(f, e.o, e.d)
                [] e.op = "bad" -> FailFit(f, e.o)
                [] OTHER -> f
RECURSIVE States(_, _)
States(f, evs) == IF evs = <<>> THEN <<f>> ELSE <<f>> \o States(Step(f, Head(evs)), Tail(evs))
=============================================================================

-------------------------------- MODULE GenKit --------------------------------
(* Case generation: the specification of a property states the space of input  *)
(* configurations; TLC enumerates or samples it (seeded) and writes the cases. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization, SequencesExt
Tier == IOEnv.TIER
Quick == Tier = "quick"
Size(q, t) == IF Quick THEN q ELSE t
Pick(k, S) == IF Cardinality(S) <= k THEN S ELSE RandomSubset(k, S)
Emit(S) == ndJsonSerialize(IOEnv.CASES, SetToSeq(S))
=============================================================================

------------------------------ MODULE TraceKit ------------------------------
(* Replays a recorded event sequence.  Judge(e) is the set of clauses of the *)
(* specification that the observed event e violates.                         *)
EXTENDS Hap, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
=============================================================================

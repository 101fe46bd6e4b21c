------------------------------ MODULE TraceBase ------------------------------
(* Common part of all trace specifications: the log, read from the file named  *)
(* by the environment variable TRACE.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
N == Len(Trace)

(* Evaluates a guard as a value. (In an action TLC would branch on every      *)
(* existential quantifier and disjunction inside the guard.)                   *)
Holds(b) == b = TRUE

(* To be used as POSTCONDITION: reports how many events were accepted.         *)
Report(diam) == PrintT(<<"TRACE_RESULT", diam, N>>)
Accepted == Report(TLCGet("stats").diameter - 1)
=============================================================================

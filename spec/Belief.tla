------------------------------- MODULE Belief -------------------------------
(* Reading recorded executions.  A trace is a record [p |-> parameters, ev |-> sequence of events];  *)
(* an event is a tuple whose first member is its kind.  Traces are validated in batches: the variable *)
(* tid selects the trace.                                                                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
=============================================================================

----------------------------- MODULE DataTrace -----------------------------
(* Recorded histories of data API calls.  Every event ends with the list of the objects and buffers freed during the call. *)
EXTENDS DataOps, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, S
vars == <<tid, l, S>>
Par == Traces[tid].p
Step(s, e) == UNION {Finish(s, t, e[Len(e)], Par.fr) : t \in Do(s, e)}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ S = {Empty(Traces[tid].p.consts)}
Next == /\ l <= Len(Traces[tid].ev)
        /\ LET S2 == UNION {Step(s, Traces[tid].ev[l]) : s \in S} IN
           IF S2 = {} THEN PrintT(<<"REJECT", tid, l>>) /\ l' = 1000000 /\ UNCHANGED <<tid, S>>
           ELSE S' = S2 /\ l' = l + 1 /\ UNCHANGED tid /\ (l < Len(Traces[tid].ev) \/ PrintT(<<"ACCEPT", tid>>))
Spec == Init /\ [][Next]_vars
=============================================================================

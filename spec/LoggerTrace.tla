---------------------------- MODULE LoggerTrace ----------------------------
EXTENDS Logger, Belief
VARIABLES tid, l, S
vars == <<tid, l, S>>
Par == Traces[tid].p
T == 0..Par.threads
RECURSIVE Close(_)
Close(X) == LET Y == X \cup UNION {UNION {Effect(s, t) : t \in T} : s \in X} IN IF Y = X THEN X ELSE Close(Y)
(* sink: thread, logger, severity, stamp, length, message is the one logged, stamp lies within the call                *)
(* rec: thread, logger, severity, stamp, head, length, stream, well formed (name, level, new line), message, stamp     *)
Step(X, e) ==
  CASE e[1] = "new" -> UNION {New(s, e[2], e[3], e[4], e[5] = 1, e[6]) : s \in X}
    [] e[1] = "inv" -> UNION {Invoke(s, e[2], e[3], e[4], e[5], e[6]) : s \in X}
    [] e[1] = "ret" -> UNION {Return(s, e[2], e[3]) : s \in Close(X)}
    [] e[1] = "sink" -> IF e[7] = 1 /\ e[8] = 1 THEN UNION {Sink(s, e[2], e[3], e[4], e[5], e[6]) : s \in Close(X)} ELSE {}
    [] e[1] = "rec" -> IF e[9] = 1 /\ e[10] = 1 /\ e[11] = 1 THEN UNION {Record(s, e[2], e[3], e[4], e[5], e[6], e[7], e[8]) : s \in Close(X)} ELSE {}
    [] e[1] = "gone" -> UNION {Gone(s, e[2], e[3]) : s \in Close(X)}
    [] e[1] = "names" -> IF e[2] = e[3] THEN X ELSE {}   \* level given as text: read, expected
    [] e[1] = "live" -> IF e[2] = 0 THEN X ELSE {}       \* heap blocks left at the end
    [] e[1] = "end" -> {s \in X : \A t \in T : s.call[t] = Idle}
    [] OTHER -> {}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ S = {Start0(T, Par.loggers)}
Next == /\ l <= Len(Traces[tid].ev)
        /\ LET S2 == Step(S, Traces[tid].ev[l]) IN
           IF S2 = {} THEN PrintT(<<"REJECT", tid, l>>) /\ l' = 1000000 /\ UNCHANGED <<tid, S>>
           ELSE S' = S2 /\ l' = l + 1 /\ UNCHANGED tid /\ (l < Len(Traces[tid].ev) \/ PrintT(<<"ACCEPT", tid>>))
Spec == Init /\ [][Next]_vars
=============================================================================

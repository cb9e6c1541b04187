--------------------------- MODULE ComponentTrace ---------------------------
EXTENDS Component, Belief
VARIABLES tid, l, S
vars == <<tid, l, S>>
Par == Traces[tid].p
T == 0..Par.threads
RECURSIVE Close(_)
Close(X) == LET Y == X \cup UNION {UNION {Effect(s, t) : t \in T} : s \in X} IN IF Y = X THEN X ELSE Close(Y)
Step(X, e) ==
  CASE e[1] = "inv" -> UNION {Invoke(s, e[2], e[3], e[4]) : s \in X}
    [] e[1] = "ret" -> UNION {Return(s, e[2], e[3]) : s \in Close(X)}
    [] e[1] = "quiet" \/ e[1] = "stuck" -> {s \in Close(X) : Quiet(s)}
    [] e[1] = "end" -> X
    [] OTHER -> {}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ S = {Start0(T, Par.refs)}
Next == /\ l <= Len(Traces[tid].ev)
        /\ LET S2 == Step(S, Traces[tid].ev[l]) IN
           IF S2 = {} THEN PrintT(<<"REJECT", tid, l>>) /\ l' = 1000000 /\ UNCHANGED <<tid, S>>
           ELSE S' = S2 /\ l' = l + 1 /\ UNCHANGED tid /\ (l < Len(Traces[tid].ev) \/ PrintT(<<"ACCEPT", tid>>))
Spec == Init /\ [][Next]_vars
=============================================================================

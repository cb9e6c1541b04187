----------------------------- MODULE ClockTrace -----------------------------
EXTENDS Clock, Belief
VARIABLES tid, l, S
vars == <<tid, l, S>>
T == 0..6
RECURSIVE Close(_)
Close(X) == LET Y == X \cup UNION {UNION {Effect(s, t) : t \in T} : s \in X} IN IF Y = X THEN X ELSE Close(Y)
Slack == <<0, 0, 0, 0, 1, 0, 0>>      \* one millisecond
Do(X, e) ==
  LET k == e[1] IN
  CASE k = "call" -> UNION {Call(s, e[2]) : s \in X}
    [] k = "clk"  -> UNION {Look(s, e[2], e[3]) : s \in X}
    [] k = "ret"  -> UNION {Return(s, e[2], e[3]) : s \in Close(X)}
    [] k = "unit" -> UNION {Unit(s, e[2], e[3], e[4]) : s \in X}
    [] k = "wait" -> IF Waited(e[3], e[4], e[5], e[6], Slack) THEN X ELSE {}
    [] k = "end"  -> X
    [] OTHER      -> {}
(* a stamp taken is taken by a call that returns it: states that have decided otherwise are of no interest *)
Init == tid \in 1..Len(Traces) /\ l = 1 /\ S = {Start(T, Num1(7, 0))}
Next == /\ l <= Len(Traces[tid].ev)
        /\ LET S2 == Do(S, Traces[tid].ev[l]) IN
           IF S2 = {} THEN PrintT(<<"REJECT", tid, l>>) /\ l' = 1000000 /\ UNCHANGED <<tid, S>>
           ELSE S' = S2 /\ l' = l + 1 /\ UNCHANGED tid /\ (l < Len(Traces[tid].ev) \/ PrintT(<<"ACCEPT", tid>>))
Spec == Init /\ [][Next]_vars
=============================================================================

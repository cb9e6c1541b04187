----------------------------- MODULE QueueTrace -----------------------------
EXTENDS Queue, Belief
VARIABLES tid, l, S
vars == <<tid, l, S>>
T == 0..6
RECURSIVE Close(_)
Close(X) == LET Y == X \cup UNION {UNION {Effect(s, t) : t \in T} : s \in X} IN IF Y = X THEN X ELSE Close(Y)
(* belief: every abstract state that explains the events so far *)
Step(X, e) ==
  CASE e[1] = "inv"   -> {Invoke(s, e[2], e[3], e[4]) : s \in X}
    [] e[1] = "ret"   -> {Respond(s, e[2]) : s \in {u \in Close(X) : CanRespond(u, e[2], e[3])}}
    [] e[1] = "freed" -> {[s EXCEPT !.toFree = @ \ {e[3]}] : s \in {u \in Close(X) : e[3] \in u.toFree}}
    [] e[1] = "quiet" \/ e[1] = "stuck" -> {s \in Close(X) : Quiet(s)}
    [] e[1] = "end"   -> {s \in X : s.toFree = {}}
    [] OTHER          -> {}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ S = {Init0(Traces[tid].p.max, T)}
Next == /\ l <= Len(Traces[tid].ev)
        /\ LET S2 == Step(S, Traces[tid].ev[l]) IN
           IF S2 = {} THEN PrintT(<<"REJECT", tid, l>>) /\ l' = 1000000 /\ UNCHANGED <<tid, S>>
           ELSE S' = S2 /\ l' = l + 1 /\ UNCHANGED tid /\ (l < Len(Traces[tid].ev) \/ PrintT(<<"ACCEPT", tid>>))
Spec == Init /\ [][Next]_vars
=============================================================================

----------------------------- MODULE PoolTrace ------------------------------
EXTENDS Pool, Belief
VARIABLES tid, l, S
vars == <<tid, l, S>>
T == 0..24
Pending(s) == {t \in T : Waiting(s, t)}
RECURSIVE Close(_, _)
Close(All, New) == LET Y == UNION {Internal(s) \cup UNION {Effect(s, t) : t \in Pending(s)} : s \in New} \ All IN IF Y = {} THEN All ELSE Close(All \cup Y, Y)
C(X) == Close(X, X)
Step(X, e) ==
  CASE e[1] = "inv"   -> {Invoke(s, e[2], e[3], e[4], e[5]) : s \in X}
    [] e[1] = "ret"   -> {Respond(s, e[2]) : s \in {u \in C(X) : CanRespond(u, e[2], e[3])}}
    [] e[1] = "begin" -> UNION {Begin(s, e[2], e[3], e[4], {e[5][i] : i \in DOMAIN e[5]}) : s \in C(X)}
    [] e[1] = "fin"   -> UNION {Finish(s, e[2], e[3]) : s \in X}
    [] e[1] = "quiet" \/ e[1] = "stuck" -> {s \in C(X) : Quiet(s)}
    [] e[1] = "live"  -> {s \in C(X) : Released(s) => e[2] = 0}
    [] e[1] = "end"   -> X
    [] OTHER          -> {}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ S = {Init0(Traces[tid].p.max, n, T) : n \in Traces[tid].p.lo..Traces[tid].p.n}
Next == /\ l <= Len(Traces[tid].ev)
        /\ LET S2 == Step(S, Traces[tid].ev[l]) IN
           IF S2 = {} THEN PrintT(<<"REJECT", tid, l>>) /\ l' = 1000000 /\ UNCHANGED <<tid, S>>
           ELSE S' = S2 /\ l' = l + 1 /\ UNCHANGED tid /\ (l < Len(Traces[tid].ev) \/ PrintT(<<"ACCEPT", tid>>))
Spec == Init /\ [][Next]_vars
=============================================================================

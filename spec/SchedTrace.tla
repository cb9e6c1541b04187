----------------------------- MODULE SchedTrace -----------------------------
EXTENDS Belief
Slack == 60
INSTANCE Sched
VARIABLES tid, l, S
vars == <<tid, l, S>>
T == 0..40
I == 1..4
Pending(s) == {t \in T : Waiting(s, t)}
RECURSIVE Close(_, _, _, _)
Close(All, New, a, b) ==
  LET Y == UNION {Internal(s, a, b) \cup UNION {Effect(s, t, a, b) : t \in Pending(s)} : s \in New} \ All IN IF Y = {} THEN All ELSE Close(All \cup Y, Y, a, b)
Hop(X, a, b) == {s \in Close(X, X, a, b) : Prompt(s, b)}
(* when time has passed, whatever could happen at once has happened *)
C(X, a, b) == IF b <= a + Slack THEN Hop(X, a, b) ELSE Hop({s \in Hop(X, a, a + Slack) : Settled(s)}, a, b)
Step(X, e, a) ==
  LET b == e[2] IN
  CASE e[1] = "inv"   -> {Invoke(s, e[3], e[4], e[5], IF e[4] = "create" THEN Append(e[6], b) ELSE e[6]) : s \in C(X, a, b)}
    [] e[1] = "ret"   -> {Respond(s, e[3]) : s \in {u \in C(X, a, b) : CanRespond(u, e[3], e[4])}}
    [] e[1] = "runcb" -> UNION {RunCb(s, e[3]) : s \in C(X, a, b)}
    [] e[1] = "runend" -> UNION {RunCbEnd(s, e[3], b) : s \in C(X, a, b)}
    [] e[1] = "abort" -> UNION {Abort(s, e[3]) : s \in C(X, a, b)}
    [] e[1] = "abend" -> UNION {AbortEnd(s, e[3], b) : s \in C(X, a, b)}
    [] e[1] = "begin" -> UNION {Begin(s, e[3], e[4], e[5], {e[6][k] : k \in DOMAIN e[6]}) : s \in C(X, a, b)}
    [] e[1] = "fin"   -> UNION {Finish(s, e[3], e[4], b) : s \in C(X, a, b)}
    [] e[1] = "sid"   -> UNION {Ident(s, e[3], e[4]) : s \in C(X, a, b)}
    [] e[1] = "freed" -> UNION {Freed(s, e[3]) : s \in C(X, a, b)}
    [] e[1] = "quiet" -> {s \in C(X, a, b) : Quiet(s)}
    [] e[1] = "live"  -> {s \in C(X, a, b) : AllFreed(s) /\ e[3] = 0}
    [] e[1] = "end"   -> X
    [] OTHER          -> {}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ S = {Init0(Traces[tid].p.n, Traces[tid].p.m, Traces[tid].p.tf, I, T)}
Time(k) == IF k = 0 THEN 0 ELSE IF Len(Traces[tid].ev[k]) > 1 THEN Traces[tid].ev[k][2] ELSE 0
Next == /\ l <= Len(Traces[tid].ev)
        /\ LET S2 == Step(S, IF Len(Traces[tid].ev[l]) = 1 THEN <<Traces[tid].ev[l][1], 0>> ELSE Traces[tid].ev[l], Time(l - 1)) IN
           IF S2 = {} THEN PrintT(<<"REJECT", tid, l>>) /\ l' = 1000000 /\ UNCHANGED <<tid, S>>
           ELSE S' = S2 /\ l' = l + 1 /\ UNCHANGED tid /\ (l < Len(Traces[tid].ev) \/ PrintT(<<"ACCEPT", tid>>))
Spec == Init /\ [][Next]_vars
=============================================================================

----------------------------- MODULE ThreadTrace -----------------------------
EXTENDS Thread, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, S
vars == <<tid, l, S>>
B(x) == x = 1
World(t) == [root |-> B(t.root), min |-> t.min, max |-> t.max, cpus |-> t.cpus, fifo |-> t.fifo, other |-> t.other]
Do(w, X, e) ==
  LET k == e[1] IN
  CASE k = "call"   -> UNION {Call(s, e[2], e[3], e[4]) : s \in X}
    [] k = "create" -> UNION {Attempt(w, s, B(e[2]), [explicit |-> B(e[3]), policy |-> e[4], prio |-> e[5], cpu |-> e[6]], e[7] = 0, e[8]) : s \in X}
    [] k = "detach" -> UNION {Detach(s, e[2]) : s \in X}
    [] k = "ran"    -> UNION {Ran(s, e[2]) : s \in X}
    [] k = "ret"    -> UNION {Ret(s, B(e[2]), e[3], e[4]) : s \in X}
    [] k = "set"    -> UNION {SetPrio(w, s, e[2], e[3], B(e[4]), B(e[5]), e[6], e[7]) : s \in X}
    [] k = "get"    -> UNION {GetPrio(s, e[2], e[3]) : s \in X}
    [] k = "valid"  -> IF B(e[3]) = Valid(w, e[2]) THEN X ELSE {}
    [] k = "mutex"  -> IF Mutex(B(e[2]), B(e[3]), e[4], B(e[5]), B(e[6]), B(e[7]), e[8], e[9], e[10], e[11], e[12]) THEN X ELSE {}
    [] k = "end"    -> {s \in X : ~s.call.on}
    [] OTHER        -> {}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ S = {Begin(World(Traces[tid].p), Traces[tid].p.policy, Traces[tid].p.prio)}
Next == /\ l <= Len(Traces[tid].ev)
        /\ LET S2 == Do(World(Traces[tid].p), S, Traces[tid].ev[l]) IN
           IF S2 = {} THEN PrintT(<<"REJECT", tid, l>>) /\ l' = 1000000 /\ UNCHANGED <<tid, S>>
           ELSE S' = S2 /\ l' = l + 1 /\ UNCHANGED tid /\ (l < Len(Traces[tid].ev) \/ PrintT(<<"ACCEPT", tid>>))
Spec == Init /\ [][Next]_vars
=============================================================================

----------------------------- MODULE ShareTrace -----------------------------
EXTENDS Share, Belief
VARIABLES tid, l, S
vars == <<tid, l, S>>
Par == Traces[tid].p
ObjOf(cell) == LET M == {x \in 1..Par.objs : Par.cells[x] = cell} IN IF M = {} THEN 0 ELSE CHOOSE x \in M : TRUE
Do(s, e) ==
  LET k == e[1] IN
  CASE k = "ref"      -> Ref(s, e[2], e[3])
    [] k = "drop"     -> Drop(s, e[2], e[3])
    [] k = "dropped"  -> Dropped(s, e[3])
    [] k = "rel"      -> IF ObjOf(e[3]) = 0 THEN {} ELSE Release(s, ObjOf(e[3]))
    [] k = "read"     -> Read(s, e[2], e[3], e[4])
    [] k = "copied"   -> Read(s, e[2], e[3], e[4])
    [] k = "uncopied" -> {s}
    [] k = "own"      -> IF e[3] = 1 THEN {s} ELSE {}
    [] k = "all"      -> IF s.rel = 1..Par.objs /\ \A x \in 1..Par.objs : s.going[x] = 0 THEN {s} ELSE {}
    [] k = "end"      -> {s}
    [] k = "live"     -> IF e[2] = 0 THEN {s} ELSE {}
    [] OTHER          -> {}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ S = {Start(1..Par.threads, 1..Par.objs)}
Next == /\ l <= Len(Traces[tid].ev)
        /\ LET S2 == UNION {Do(s, Traces[tid].ev[l]) : s \in S} IN
           IF S2 = {} THEN PrintT(<<"REJECT", tid, l>>) /\ l' = 1000000 /\ UNCHANGED <<tid, S>>
           ELSE S' = S2 /\ l' = l + 1 /\ UNCHANGED tid /\ (l < Len(Traces[tid].ev) \/ PrintT(<<"ACCEPT", tid>>))
Spec == Init /\ [][Next]_vars
=============================================================================

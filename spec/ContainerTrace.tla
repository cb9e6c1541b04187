-------------------------- MODULE ContainerTrace ----------------------------
(* Every event is <<kind, milliseconds, thread, ...>>. *)
EXTENDS Container, Belief
VARIABLES tid, l, S
vars == <<tid, l, S>>
Par == Traces[tid].p
T == 0..Par.threads
Step(s, e) ==
  CASE e[1] = "inv"     -> Invoke(s, e[3], e[4], e[5], e[2])
    [] e[1] = "ret"     -> Return(s, e[3], e[4], e[5], e[2])
    [] e[1] = "cfg"     -> Cfg(s, e[3], e[4], e[5], e[6], e[7], e[2])
    [] e[1] = "cfgend"  -> LET X == CfgEnd(s, e[3], e[4], e[5], e[6], e[7], e[2]) IN X \cup (IF e[5] = 1 THEN {Hide(x, e[3]) : x \in X} ELSE {})
    [] e[1] = "facfn"   -> FacFn(s, e[3], e[4], e[2])
    [] e[1] = "cb"      -> Cb(s, e[3], e[4], e[5], e[6], e[2])
    [] e[1] = "cbend"   -> CbEnd(s, e[3], e[4], e[5], e[2])
    [] e[1] = "set"     -> SetSt(s, e[4], e[5], e[2])
    [] e[1] = "setdone" -> SetDone(s, e[4], e[5], e[2])
    [] e[1] = "save"    -> Saved(s, e[3], e[4], e[5], e[6], e[2])
    [] e[1] = "live"    -> IF e[4] = 0 /\ Quiet(s) THEN {s} ELSE {}
    [] e[1] = "end"     -> {s}
    [] OTHER -> {}
(* what may have appeared by itself before the event *)
RECURSIVE Some(_, _, _)
Some(s, H, now) == IF H = {} THEN {s} ELSE LET t == CHOOSE t \in H : TRUE IN Some(s, H \ {t}, now) \cup Some(Appear(s, t, now), H \ {t}, now)
Before0(s, e) == IF Hiders(s) = {} \/ Len(e) < 3 THEN {s} ELSE Some(Appear(s, e[3], e[2]), Hiders(s) \ {e[3]}, e[2])
Init == tid \in 1..Len(Traces) /\ l = 1 /\ S = {Empty(Par, T)}
Next == /\ l <= Len(Traces[tid].ev)
        /\ LET S2 == UNION {Step(s, Traces[tid].ev[l]) : s \in UNION {Before0(s, Traces[tid].ev[l]) : s \in S}} IN
           IF S2 = {} THEN PrintT(<<"REJECT", tid, l>>) /\ l' = 1000000 /\ UNCHANGED <<tid, S>>
           ELSE S' = S2 /\ l' = l + 1 /\ UNCHANGED tid /\ (l < Len(Traces[tid].ev) \/ PrintT(<<"ACCEPT", tid>>))
Spec == Init /\ [][Next]_vars
=============================================================================

------------------------------ MODULE MC_Thread ------------------------------
(* Making a thread, step by step, against Thread: one caller, any answers of the system; and two threads that ask for the limits of priorities at once. *)
EXTENDS Thread, TLC
CONSTANTS Bug, Calls   \* "none"; "joinable": the second attempt is not detached; "silent": no error logged; "cache": limits kept in statics, one before the other
W == [root |-> TRUE, min |-> 1, max |-> 3, cpus |-> 2, fifo |-> 1, other |-> 0]
W2 == [W EXCEPT !.root = FALSE]
Prios == {-1, 0, 1, 3, 4}
Affs == {-1, 0, 1, 2}
VARIABLES w, S, pc, req, left, cmin, cmax, apc, got
vars == <<w, S, pc, req, left, cmin, cmax, apc, got>>
Init == /\ w \in {W, W2} /\ S = {Begin(w, 0, 0)} /\ pc = "idle" /\ req = <<0, 0>> /\ left = Calls
        /\ cmin = -2 /\ cmax = -2 /\ apc = [t \in {1, 2} |-> "ask"] /\ got = [t \in {1, 2} |-> FALSE]
Now == CHOOSE s \in S : TRUE
Keep == UNCHANGED <<w, cmin, cmax, apc, got>>
Ask(p, a) == pc = "idle" /\ left > 0 /\ left' = left - 1 /\ req' = <<p, a>> /\ S' = UNION {Call(s, p, a, left) : s \in S} /\ pc' = "first" /\ Keep
First(ok) == pc = "first" /\ S' = UNION {Attempt(w, s, TRUE, Wanted(w, req[1], req[2]), ok, Len(s.th) + 1) : s \in S} /\ pc' = (IF ok THEN "run" ELSE "second") /\ UNCHANGED <<req, left>> /\ Keep
Second(ok) == pc = "second" /\ S' = UNION {Attempt(w, s, FALSE, [explicit |-> FALSE, policy |-> w.other, prio |-> 0, cpu |-> -1], ok, Len(s.th) + 1) : s \in S}
              /\ pc' = (IF ~ok THEN "no" ELSE IF Bug = "joinable" THEN "run" ELSE "detach") /\ UNCHANGED <<req, left>> /\ Keep
Free == pc = "detach" /\ S' = UNION {Detach(s, Len(s.th)) : s \in S} /\ pc' = "run" /\ UNCHANGED <<req, left>> /\ Keep
Run == pc = "run" /\ S' = UNION {Ran(s, s.call.job) : s \in S} /\ pc' = "yes" /\ UNCHANGED <<req, left>> /\ Keep
End == pc \in {"yes", "no"} /\ S' = UNION {Ret(s, pc = "yes", IF pc = "yes" THEN Len(s.th) ELSE -1, IF pc = "no" /\ Bug # "silent" THEN 1 ELSE 0) : s \in S} /\ pc' = "idle" /\ UNCHANGED <<req, left>> /\ Keep
(* -2: not looked up yet *)
Look(t) == /\ UNCHANGED <<w, S, pc, req, left>>
           /\ \/ apc[t] = "ask" /\ (IF Bug = "cache" /\ cmax # -2 THEN apc' = [apc EXCEPT ![t] = "judge"] /\ UNCHANGED <<cmin, cmax>> ELSE IF Bug = "cache" THEN cmax' = w.max /\ apc' = [apc EXCEPT ![t] = "min"] /\ UNCHANGED cmin ELSE cmin' = w.min /\ cmax' = w.max /\ apc' = [apc EXCEPT ![t] = "judge"]) /\ UNCHANGED got
              \/ apc[t] = "min" /\ cmin' = w.min /\ apc' = [apc EXCEPT ![t] = "judge"] /\ UNCHANGED <<cmax, got>>
              \/ apc[t] = "judge" /\ got' = [got EXCEPT ![t] = (-1 >= cmin /\ -1 <= cmax)] /\ apc' = [apc EXCEPT ![t] = "done"] /\ UNCHANGED <<cmin, cmax>>
Next == (\E p \in Prios, a \in Affs : Ask(p, a)) \/ (\E ok \in BOOLEAN : First(ok) \/ Second(ok)) \/ Free \/ Run \/ End \/ (\E t \in {1, 2} : Look(t))
Spec == Init /\ [][Next]_vars /\ WF_vars((\E ok \in BOOLEAN : First(ok) \/ Second(ok)) \/ Free \/ Run \/ End)
Allowed == S # {}
NoneJoinable == pc = "idle" => \A s \in S : \A i \in DOMAIN s.th : s.th[i].detached /\ s.th[i].ran = 1
RealTime == \A s \in S : \A i \in DOMAIN s.th : s.th[i].policy = w.fifo => w.root /\ Valid(w, s.th[i].prio)
NoPriority == \A t \in {1, 2} : ~got[t]
Answers == pc = "first" ~> pc = "idle"
=============================================================================

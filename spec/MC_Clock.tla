------------------------------ MODULE MC_Clock ------------------------------
(* The compare-and-swap protocol of iot_time_nsecs against the clock specification: any clock, any interleaving. *)
EXTENDS Clock, TLC
CONSTANTS Threads, Calls, Top, Bug     \* Bug: "none", or a weaker protocol
VARIABLES s, cell, pc, c, prev, left, out, low, bad
vars == <<s, cell, pc, c, prev, left, out, low, bad>>
Init == /\ s = Start(Threads, <<0>>) /\ cell = 0 /\ pc = [t \in Threads |-> "idle"] /\ c = [t \in Threads |-> 0] /\ prev = [t \in Threads |-> 0]
        /\ left = [t \in Threads |-> Calls] /\ out = <<>> /\ low = [t \in Threads |-> 0] /\ bad = FALSE
Begin(t) == /\ pc[t] = "idle" /\ left[t] > 0 /\ pc' = [pc EXCEPT ![t] = "read"] /\ left' = [left EXCEPT ![t] = @ - 1] /\ s' \in Call(s, t)
            /\ low' = [low EXCEPT ![t] = IF out = <<>> THEN 0 ELSE CHOOSE x \in {out[i] : i \in DOMAIN out} : \A i \in DOMAIN out : out[i] <= x]
            /\ UNCHANGED <<cell, c, prev, out, bad>>
Clk(t) == /\ pc[t] = "read" /\ \E v \in 1..Top : c' = [c EXCEPT ![t] = v] /\ s' \in Look(s, t, <<v>>)
          /\ pc' = [pc EXCEPT ![t] = "load"] /\ UNCHANGED <<cell, prev, left, out, low, bad>>
Load(t) == /\ pc[t] = "load" /\ prev' = [prev EXCEPT ![t] = cell] /\ pc' = [pc EXCEPT ![t] = "cas"] /\ UNCHANGED <<s, cell, c, left, out, low, bad>>
Bump(x, p) == IF Bug = "bump" THEN (IF x < p THEN p ELSE x) ELSE IF Bug = "equal" THEN (IF x < p THEN p + 1 ELSE x) ELSE IF x <= p THEN p + 1 ELSE x
Cas(t) == /\ pc[t] = "cas"
          /\ LET x == Bump(c[t], prev[t])  E == {z \in Effect(s, t) : z.pend[t].r = <<x>>} IN
             IF Bug # "store" /\ cell # prev[t] THEN c' = [c EXCEPT ![t] = x] /\ prev' = [prev EXCEPT ![t] = cell] /\ UNCHANGED <<s, cell, pc, bad>>
             ELSE /\ cell' = x /\ pc' = [pc EXCEPT ![t] = "ret"] /\ c' = [c EXCEPT ![t] = x] /\ bad' = (E = {}) /\ s' = (IF E = {} THEN s ELSE CHOOSE z \in E : TRUE) /\ UNCHANGED prev
          /\ UNCHANGED <<left, out, low>>
Ret(t) == /\ pc[t] = "ret" /\ ~bad /\ out' = Append(out, c[t]) /\ pc' = [pc EXCEPT ![t] = "idle"] /\ s' \in Return(s, t, <<c[t]>>) /\ bad' = (c[t] <= low[t]) /\ UNCHANGED <<cell, c, prev, left, low>>
Next == \E t \in Threads : Begin(t) \/ Clk(t) \/ Load(t) \/ Cas(t) \/ Ret(t)
Spec == Init /\ [][Next]_vars
Explained == ~bad
Distinct == \A i, j \in DOMAIN out : i # j => out[i] # out[j]
(* no call goes round for ever: each failed round is some other call's success *)
Fair == Spec /\ \A t \in Threads : WF_vars(Clk(t) \/ Load(t) \/ Cas(t) \/ Ret(t))
Ends == \A t \in Threads : pc[t] # "idle" ~> pc[t] = "idle"
=============================================================================

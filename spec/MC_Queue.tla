------------------------------ MODULE MC_Queue ------------------------------
(* Exhaustive check of the FIFO design: all interleavings of Calls calls per thread. *)
EXTENDS Queue, TLC
CONSTANTS Threads, Calls, Maxes
VARIABLES s, left, acc, out, fresh
vars == <<s, left, acc, out, fresh>>
Ops == {"enq", "tenq", "deq", "tdeq", "setmax", "stop"}
Init == \E m \in Maxes : s = Init0(m, Threads) /\ left = [t \in Threads |-> Calls] /\ acc = <<>> /\ out = <<>> /\ fresh = 1
Inv(t) == /\ s.pend[t].op = "none" /\ left[t] > 0
          /\ \E op \in Ops : \E a \in (IF op = "setmax" THEN Maxes ELSE {fresh}) :
               /\ s' = Invoke(s, t, op, a)
               /\ fresh' = IF op \in {"enq", "tenq"} THEN fresh + 1 ELSE fresh
          /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<acc, out>>
Eff(t) == \E s2 \in Effect(s, t) :
            /\ s' = s2
            /\ acc' = IF Len(s2.q) > Len(s.q) THEN Append(acc, s.pend[t].arg) ELSE acc
            /\ out' = IF Len(s2.q) < Len(s.q) THEN Append(out, s2.pend[t].res) ELSE out
            /\ UNCHANGED <<left, fresh>>
Ret(t) == /\ s.pend[t].op # "none" /\ s.pend[t].done /\ s' = Respond(s, t) /\ UNCHANGED <<left, acc, out, fresh>>
Next == \E t \in Threads : Inv(t) \/ Eff(t) \/ Ret(t)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ \A t \in Threads : WF_vars(Eff(t)) /\ WF_vars(Ret(t))
(* accepted = handed out, in order, then what is still queued *)
Fifo == acc = out \o s.q
Bounded == [][Len(s'.q) > Len(s.q) => (s.max = 0 \/ Len(s'.q) <= s.max)]_vars
(* after stop nothing stays blocked *)
StopFrees == \A t \in Threads : (~s.run /\ Waiting(s, t)) => Effect(s, t) # {}
Released == \A t \in Threads : (~s.run /\ s.pend[t].op # "none") ~> (s.pend[t].op = "none")
=============================================================================

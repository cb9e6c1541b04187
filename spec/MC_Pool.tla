------------------------------- MODULE MC_Pool ------------------------------
(* Exhaustive check of the pool design: threads 1..C are clients, 101.. are workers that run jobs. *)
EXTENDS Pool, TLC
CONSTANTS Clients, Calls, Max, N, Prios
TwoPrios == {NoPrio, 1}
VARIABLES s, left, fresh, hist
vars == <<s, left, fresh, hist>>
Workers == {100 + i : i \in 1..N}
T == Clients \cup Workers
Ops == {"add", "try", "wait", "start", "stop"}
(* hist: jobs accepted, refused, begun (with the queue's view when taken), discarded *)
Init == s = Init0(Max, N, T) /\ left = [t \in Clients |-> Calls] /\ fresh = 1 /\ hist = [acc |-> {}, ref |-> {}, begun |-> {}, disc |-> {}, waitok |-> TRUE, stopped |-> FALSE]
Inv(t) == /\ t \in Clients /\ s.pend[t].op = "none" /\ left[t] > 0 /\ s.refs > 0
          /\ \/ \E op \in Ops : \E p \in (IF op \in {"add", "try"} THEN Prios ELSE {NoPrio}) :
                  s' = Invoke(s, t, op, fresh, p) /\ fresh' = IF op \in {"add", "try"} THEN fresh + 1 ELSE fresh
             \/ (* the last free: nobody else is using the pool *)
                /\ \A u \in Clients \ {t} : s.pend[u].op = "none"
                /\ s' = Invoke(s, t, "free", 0, 0) /\ UNCHANGED fresh
          /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED hist
Ids(js) == {js[i][1] : i \in DOMAIN js}
Eff(t) == \E s2 \in Effect(s, t) :
   /\ s' = s2
   /\ hist' = [hist EXCEPT !.acc = @ \cup (Ids(s2.jobs) \ Ids(s.jobs)),
                           !.ref = IF s.pend[t].op = "try" /\ s2.pend[t].res = 0 THEN @ \cup {s.pend[t].id} ELSE @,
                           !.disc = IF s.pend[t].op = "free2" THEN @ \cup Ids(s.jobs) ELSE @,
                           !.waitok = @ /\ (s.pend[t].op = "wait" /\ s2.pend[t].done => s.jobs = <<>> /\ s.run = {})]
   /\ UNCHANGED <<left, fresh>>
Ret(t) == s.pend[t].op # "none" /\ s.pend[t].done /\ s' = Respond(s, t) /\ UNCHANGED <<left, fresh, hist>>
TakeA == \E s2 \in Take(s) : s' = s2 /\ UNCHANGED <<left, fresh, hist>>
RetireA == \E s2 \in Retire(s) : s' = s2 /\ UNCHANGED <<left, fresh, hist>>
BeginA == \E w \in Workers : \E x \in s.taken : LET id == x[1] IN \E s2 \in Begin(s, w, id, x[2], {}) : s' = s2 /\ hist' = [hist EXCEPT !.begun = @ \cup {id}] /\ UNCHANGED <<left, fresh>>
EndA == \E r \in s.run : \E s2 \in Finish(s, r[2], r[1]) : s' = s2 /\ UNCHANGED <<left, fresh, hist>>
Next == (\E t \in Clients : Inv(t) \/ Eff(t) \/ Ret(t)) \/ TakeA \/ RetireA \/ BeginA \/ EndA
Spec == Init /\ [][Next]_vars
Once == [][\A x \in s.taken : x \in s'.taken \/ x[1] \notin hist.begun]_vars
Sound == /\ hist.begun \subseteq hist.acc /\ hist.begun \cap hist.ref = {} /\ hist.begun \cap hist.disc = {} /\ hist.waitok
         /\ Busy(s) <= N /\ (Max = 0 \/ Len(s.jobs) <= Max)
Kept == hist.acc = Ids(s.jobs) \cup {x[1] : x \in s.taken} \cup hist.begun \cup hist.disc
Sorted == \A i, j \in DOMAIN s.jobs : i < j => ~Before(s.jobs[j][2], s.jobs[i][2]) /\ (s.jobs[i][2] = s.jobs[j][2] => s.jobs[i][1] # s.jobs[j][1])
NoTakeWhenStopped == [][s'.taken \ s.taken # {} => s.st = "run"]_vars
DelFinal == [][s.st = "del" => s'.st = "del"]_vars
=============================================================================

------------------------------ MODULE MC_Sched ------------------------------
(* Exhaustive check of the scheduler design in discrete time: a tick passes only when nothing is late. *)
EXTENDS Sched, TLC
CONSTANTS Clients, Calls, N, M, Horizon, Kinds
VARIABLES s, now, left, g
vars == <<s, now, left, g>>
Is == 1..2
Workers == {10, 11, 12, 13}
T == Clients \cup Workers
(* period, delay, repeat, pool, run callback, abort callback, synchronous, concurrent *)
KindsA == {<<2, 1, 2, 0, 0, 0, 0, 0>>, <<1, 0, 0, 1, 0, 1, 0, 0>>}
KindsB == {<<1, 1, 2, 0, 1, 0, 0, 1>>, <<2, 0, 0, 0, 0, 0, 1, 0>>}
KindsC == {<<2, 0, 1, 1, 1, 1, 0, 0>>, <<2, 1, 0, 0, 0, 0, 0, 0>>}
Two(k) == CHOOSE f \in [Is -> k] : f[1] # f[2]
SchOf(k) == [NoSch EXCEPT !.ex = TRUE, !.per = k[1], !.lo = k[2], !.hi = k[2], !.rep = k[3], !.pool = k[4] = 1, !.hasrun = k[5] = 1, !.hasab = k[6] = 1, !.sync = k[7] = 1, !.conc = k[8] = 1]
Init == /\ s = [Init0(N, M, 1, Is, T) EXCEPT !.sch = [i \in Is |-> SchOf(Two(Kinds)[i])]]
        /\ now = 0 /\ left = [t \in Clients |-> Calls]
        /\ g = [begun |-> [i \in Is |-> 0], occ |-> [i \in Is |-> 0], early |-> FALSE, rm |-> {}]
Inv(t) == /\ s.pend[t].op = "none" /\ left[t] > 0 /\ s.refs > 0 /\ (\A u \in Clients : s.pend[u].op \notin {"free", "free2"})
          /\ \/ \E op \in {"add", "remove", "reset", "delete"} : \E i \in Is : ~s.sch[i].del /\ (\A u \in Clients : ~(s.pend[u].op = "delete" /\ s.pend[u].i = i) /\ (op = "delete" => s.pend[u].i # i)) /\ s' = Invoke(s, t, op, i, 0)
             \/ \E op \in {"start", "stop"} : s' = Invoke(s, t, op, 0, 0)
             \/ (\A u \in Clients : s.pend[u].op = "none") /\ s' = Invoke(s, t, "free", 0, 0)
          /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<now, g>>
Eff(t) == s.pend[t].op # "none" /\ s' \in Effect(s, t, now, now) /\ UNCHANGED <<now, left>>
          /\ g' = IF s.pend[t].op \in {"remove", "delete"} THEN [g EXCEPT !.rm = @ \cup {s.pend[t].i}] ELSE g
Ret(t) == s.pend[t].op # "none" /\ s.pend[t].done /\ s' = Respond(s, t) /\ UNCHANGED <<now, left, g>>
Trig(i) == /\ s' \in Trigger(s, i, now, now) /\ UNCHANGED <<now, left>>
           /\ g' = [g EXCEPT !.occ[i] = @ + 1, !.early = @ \/ s.sch[i].lo > now]
Own == s' \in (Continue(s, now, now) \cup TakeJob(s) \cup Drop(s) \cup Retire(s)) /\ UNCHANGED <<now, left, g>>
Obs == /\ \/ \E i \in Is : s' \in RunCb(s, i) \cup RunCbEnd(s, i, now) \cup Abort(s, i) \cup AbortEnd(s, i, now) \cup Freed(s, i)
          \/ \E r \in s.runs : s' \in Finish(s, r[1], r[2], now)
       /\ UNCHANGED <<now, left, g>>
Bgn == \E i \in Is : \E t \in Workers : (\A r \in s.runs : r[1] # t) /\ (\A u \in Workers : u < t => \E r \in s.runs : r[1] = u) /\ s' \in Begin(s, t, i, NoPrio, {}) /\ g' = [g EXCEPT !.begun[i] = @ + 1] /\ UNCHANGED <<now, left>>
Tick == now < Horizon /\ now' = now + 1 /\ Prompt(s, now') /\ UNCHANGED <<s, left, g>>
Next == (\E t \in Clients : Inv(t) \/ Eff(t) \/ Ret(t)) \/ (\E i \in Is : Trig(i)) \/ Own \/ Obs \/ Bgn \/ Tick
Spec == Init /\ [][Next]_vars
Running(i) == Cardinality({r \in s.runs : r[2] = i})
NoOverlap == \A i \in Is : ~s.sch[i].conc => Running(i) + s.sch[i].tq + s.sch[i].pt <= 1
NeverEarly == ~g.early
(* a finite schedule is never triggered more often than asked, as long as it is neither removed nor added again after its last occasion *)
RepeatBound == \A i \in Is : LET k == Two(Kinds)[i] IN i \notin g.rm /\ k[3] > 0 /\ s.sch[i].rep > 0 => g.occ[i] <= k[3] + (IF s.cur.k # "none" THEN 1 ELSE 0) /\ (s.sch[i].act => g.occ[i] + s.sch[i].rep = k[3] + (IF s.cur.i = i /\ s.cur.k # "none" THEN 1 ELSE 0))
FreedSafe == \A i \in Is : s.sch[i].freed => s.sch[i].del /\ s.sch[i].inf = 0 /\ Running(i) = 0 /\ s.sch[i].tq = 0 /\ s.sch[i].pt = 0 /\ (s.cur.k # "none" => s.cur.i # i)
InFlight == \A i \in Is : s.sch[i].inf = s.sch[i].tq + s.sch[i].pt + s.sch[i].te + s.sch[i].pe + Running(i) + Cardinality({k \in DOMAIN s.pq : s.pq[k] = i}) + (IF s.cur.i = i /\ s.cur.k \in {"precb", "cb", "disp", "sync0", "preab", "ab", "abend"} THEN 1 ELSE 0)
AllDone == s.refs = 0 /\ Quiet(s) => AllFreed(s)
FreedOnce == [][\A i \in Is : s.sch[i].freed => s'.sch[i].freed /\ g'.begun[i] = g.begun[i]]_vars
NoTriggerWhenStopped == [][g'.occ # g.occ => s.st = "run"]_vars
DelFinal == [][s.st = "del" => s'.st = "del"]_vars
=============================================================================

---------------------------- MODULE MC_Component ----------------------------
(* The scheme of the code - a mutex, a condition broadcast at every permitted state change, waiters that look  *)
(* again when woken, an atomic counter - keeps to Component for every interleaving, and loses no waiter.       *)
EXTENDS Component
CONSTANTS T, Refs, MaxOps
VARIABLES s, m, st, cw, cnt, at, left
(* m: holder of the mutex; st: the state variable; cw: threads waiting on the condition; cnt: the counter; at: place of each thread *)
vars == <<s, m, st, cw, cnt, at, left>>
Ops == {"set_stopped", "set_running", "set_deleted", "set_starting"} \X {0} \cup {"wait", "waitlock"} \X {2, 5, 8} \cup {"lock", "read"} \X {0}
Init == s = Start0(T, Refs) /\ m = Free /\ st = 0 /\ cw = {} /\ cnt = Refs /\ at = [t \in T |-> "idle"] /\ left = [t \in T |-> MaxOps]
Call(t, op, arg) == at[t] = "idle" /\ left[t] > 0 /\ s' \in Invoke(s, t, op, arg) /\ at' = [at EXCEPT ![t] = "start"] /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<m, st, cw, cnt>>
Begin(t) == \E o \in Ops : s.lk # t /\ m # t /\ Call(t, o[1], o[2])
BeginU(t) == m = t /\ at[t] = "idle" /\ s' \in Invoke(s, t, "unlock", 0) /\ at' = [at EXCEPT ![t] = "start"] /\ UNCHANGED <<m, st, cw, cnt, left>>
BeginR(t) == \E o \in {"addref", "decref"} : cnt > (IF o = "decref" THEN Cardinality({u \in T : s.call[u].op = "decref" /\ at[u] # "idle"}) ELSE 0) /\ Call(t, o, 0)
Ret(t, r, mm) == s' \in Return(s, t, r) /\ at' = [at EXCEPT ![t] = "idle"] /\ m' = mm
Eff(t) == s' \in Effect(s, t)
(* the step of the code that fixes the outcome is the one at which the abstract call takes effect *)
Acquire(t) == at[t] = "start" /\ s.call[t].op \notin {"addref", "decref", "unlock"} /\ m = Free /\ m' = t /\ at' = [at EXCEPT ![t] = "in"] /\ UNCHANGED <<s, st, cw, cnt, left>>
Body(t) ==
  /\ at[t] = "in" /\ UNCHANGED <<cnt, left>>
  /\ LET c == s.call[t] IN
     CASE c.op \in DOMAIN Target ->
            IF Valid(st, Target[c.op])
            THEN st' = Target[c.op] /\ cw' = {} /\ at' = [u \in T |-> IF u = t THEN "out" ELSE IF u \in cw THEN "start" ELSE at[u]] /\ m' = m /\ Eff(t)
            ELSE st' = st /\ cw' = cw /\ at' = [at EXCEPT ![t] = "out"] /\ m' = m /\ Eff(t)
       [] c.op \in {"wait", "waitlock"} ->
            IF In(st, c.arg) THEN at' = [at EXCEPT ![t] = "out"] /\ UNCHANGED <<st, cw, m>> /\ Eff(t)
            ELSE cw' = cw \cup {t} /\ m' = Free /\ at' = [at EXCEPT ![t] = "blocked"] /\ UNCHANGED <<s, st>>
       [] OTHER -> at' = [at EXCEPT ![t] = "out"] /\ UNCHANGED <<st, cw, m>> /\ Eff(t)
Out(t) == at[t] = "out" /\ Ret(t, s.call[t].res, IF s.call[t].op \in {"lock", "waitlock"} THEN m ELSE Free) /\ UNCHANGED <<st, cw, cnt, left>>
Unlock(t) == at[t] = "start" /\ s.call[t].op = "unlock" /\ Eff(t) /\ m' = Free /\ at' = [at EXCEPT ![t] = "out1"] /\ UNCHANGED <<st, cw, cnt, left>>
Count(t) == at[t] = "start" /\ s.call[t].op \in {"addref", "decref"} /\ Eff(t) /\ cnt' = cnt + (IF s.call[t].op = "addref" THEN 1 ELSE -1) /\ at' = [at EXCEPT ![t] = "out1"] /\ UNCHANGED <<m, st, cw, left>>
Out1(t) == at[t] = "out1" /\ Ret(t, s.call[t].res, m) /\ UNCHANGED <<st, cw, cnt, left>>
Next == \E t \in T : Begin(t) \/ BeginU(t) \/ BeginR(t) \/ Acquire(t) \/ Body(t) \/ Out(t) \/ Unlock(t) \/ Count(t) \/ Out1(t)
Spec == Init /\ [][Next]_vars
(* the abstract call could always take effect when the code's did (Eff enabled): the code moves only in such steps *)
Same == s.st = st /\ s.refs = cnt
NoStall == \A t \in T : /\ at[t] = "in" /\ s.call[t].op \in {"wait", "waitlock"} /\ In(st, s.call[t].arg) => Effect([s EXCEPT !.lk = Free], t) # {}
                        /\ at[t] = "start" /\ s.call[t].op \in {"unlock", "addref", "decref"} => Effect(s, t) # {}
(* a waiter on the condition is one whose states are not the present one *)
NoLoss == \A t \in cw : ~In(st, s.call[t].arg)
Final == [][s.st = 4 => s'.st = 4]_vars
Dec1 == \A t \in T : s.call[t].op = "decref" /\ s.call[t].done => (s.call[t].res = 1 => s.refs <= 0 \/ \E u \in T : s.call[u].op = "addref")
=============================================================================

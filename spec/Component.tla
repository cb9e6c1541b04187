----------------------------- MODULE Component -----------------------------
(* The state machine, lock and reference count of one component, as calls that take effect at one  *)
(* instant between invocation and return.  States: 0 initial, 1 stopped, 2 running, 4 deleted,     *)
(* 8 starting.  A call is [op, arg, done, res].                                                    *)
EXTENDS Integers, Sequences, FiniteSets
None == [op |-> "", arg |-> 0, done |-> FALSE, res |-> 0]
Free == -1
Start0(T, refs) == [st |-> 0, lk |-> Free, refs |-> refs, call |-> [t \in T |-> None]]
Bit(n, b) == (n \div b) % 2 = 1
In(st, set) == st # 0 /\ Bit(set, st)
Target == [set_stopped |-> 1, set_running |-> 2, set_deleted |-> 4, set_starting |-> 8]
Valid(st, to) == IF to = 4 THEN st # 2 ELSE st # 4
Invoke(s, t, op, arg) == IF s.call[t] = None THEN {[s EXCEPT !.call[t] = [op |-> op, arg |-> arg, done |-> FALSE, res |-> 0]]} ELSE {}
Fin(s, t, r) == [s EXCEPT !.call[t] = [@ EXCEPT !.done = TRUE, !.res = r]]
Num(b) == IF b THEN 1 ELSE 0
(* what can happen to the call of thread t *)
Effect(s, t) ==
  LET c == s.call[t] IN
  IF c.op = "" \/ c.done THEN {}
  ELSE CASE c.op \in DOMAIN Target -> IF s.lk # Free THEN {}
              ELSE IF Valid(s.st, Target[c.op]) THEN {Fin([s EXCEPT !.st = Target[c.op]], t, Num(s.st # Target[c.op]))} ELSE {Fin(s, t, 0)}
         [] c.op = "wait"     -> IF s.lk = Free /\ In(s.st, c.arg) THEN {Fin(s, t, s.st)} ELSE {}
         [] c.op = "waitlock" -> IF s.lk = Free /\ In(s.st, c.arg) THEN {Fin([s EXCEPT !.lk = t], t, s.st)} ELSE {}
         [] c.op = "lock"     -> IF s.lk = Free THEN {Fin([s EXCEPT !.lk = t], t, s.st)} ELSE {}
         [] c.op = "unlock"   -> IF s.lk = t THEN {Fin([s EXCEPT !.lk = Free], t, s.st)} ELSE {}
         [] c.op = "read"     -> IF s.lk = Free THEN {Fin(s, t, s.st)} ELSE {}
         [] c.op = "addref"   -> {Fin([s EXCEPT !.refs = @ + 1], t, 0)}
         [] c.op = "decref"   -> {Fin([s EXCEPT !.refs = @ - 1], t, Num(s.refs = 1))}
         [] OTHER -> {}
Return(s, t, r) == IF s.call[t].done /\ s.call[t].res = r THEN {[s EXCEPT !.call[t] = None]} ELSE {}
(* nothing can move: every call that has not returned waits for something that is not so *)
Quiet(s) == \A t \in DOMAIN s.call : ~s.call[t].done /\ Effect(s, t) = {}
============================================================================

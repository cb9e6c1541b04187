------------------------------- MODULE Thread -------------------------------
(* Threads made with a priority and an affinity asked for, over an operating system that may refuse.
   w: the system [root, min, max, cpus, fifo, other]; s.th: the threads made, by number (0: the caller's own) [policy, prio, cpu, detached, ran];
   s.call: what is asked (prio, aff, job), tries: attempts so far as <<attributes, granted>>, made: number of the thread made (-1: none). *)
EXTENDS Integers, Sequences, FiniteSets
Valid(w, p) == p >= w.min /\ p <= w.max
(* what a thread should be: <<detached, explicit, policy, prio, cpu>> *)
Wanted(w, p, a) == [explicit |-> TRUE, policy |-> IF Valid(w, p) /\ w.root THEN w.fifo ELSE w.other, prio |-> IF Valid(w, p) /\ w.root THEN p ELSE 0,
                    cpu |-> IF a > -1 /\ a < w.cpus THEN a ELSE -1]
Plain(w, x) == x.policy = w.other /\ x.prio = 0 /\ x.cpu = -1
Idle == [on |-> FALSE, prio |-> 0, aff |-> 0, job |-> 0, tries |-> 0, plain |-> FALSE, made |-> -1, jobs |-> <<>>]
Begin(w, pol, prio) == [th |-> <<>>, own |-> [policy |-> pol, prio |-> prio], call |-> Idle]
Call(s, p, a, job) == IF s.call.on THEN {} ELSE {[s EXCEPT !.call = [Idle EXCEPT !.on = TRUE, !.prio = p, !.aff = a, !.job = job]]}
(* an attempt to make the thread: what was wanted comes first, then (refused) whatever was wanted or plain attributes; none once it is made *)
Attempt(w, s, det, x, granted, id) ==
  IF ~s.call.on \/ s.call.made # -1 \/ ~(x = Wanted(w, s.call.prio, s.call.aff) \/ (s.call.tries > 0 /\ Plain(w, x))) THEN {}
  ELSE LET c == [s.call EXCEPT !.tries = @ + 1, !.plain = Plain(w, x)] IN
       IF ~granted THEN {[s EXCEPT !.call = c]}
       ELSE IF id # Len(s.th) + 1 THEN {}
       ELSE {[s EXCEPT !.call = [c EXCEPT !.made = id], !.th = Append(@, [policy |-> x.policy, prio |-> x.prio, detached |-> det, ran |-> 0])]}
Detach(s, id) == IF id \in DOMAIN s.th /\ ~s.th[id].detached THEN {[s EXCEPT !.th[id].detached = TRUE]} ELSE {}
Ran(s, job) == IF s.call.on /\ s.call.made # -1 /\ job = s.call.job /\ s.th[s.call.made].ran = 0 THEN {[s EXCEPT !.th[s.call.made].ran = 1]} ELSE {}
(* true: one thread, detached, runs the job once, and the caller knows it; false: the system refused even plain attributes, one error is logged *)
Ret(s, ok, id, errors) ==
  LET c == s.call IN
  IF ~c.on THEN {}
  ELSE IF c.made # -1 THEN IF ok /\ id \in {-1, c.made} /\ errors \in {-1, 0} /\ s.th[c.made].detached /\ s.th[c.made].ran = 1 THEN {[s EXCEPT !.call = Idle]} ELSE {}
  ELSE IF ~ok /\ c.tries > 0 /\ c.plain /\ errors \in {-1, 1} THEN {[s EXCEPT !.call = Idle]} ELSE {}
Sched(s, id) == IF id = 0 THEN s.own ELSE [policy |-> s.th[id].policy, prio |-> s.th[id].prio]
Known(s, id) == id = 0 \/ id \in DOMAIN s.th
(* a priority set is the FIFO one asked for, or, refused, the one before *)
SetPrio(w, s, id, p, granted, ok, pol, prio) ==
  IF s.call.on \/ ~Known(s, id) \/ ok # granted THEN {}
  ELSE LET now == IF granted THEN [policy |-> w.fifo, prio |-> p] ELSE Sched(s, id) IN
       IF now # [policy |-> pol, prio |-> prio] THEN {}
       ELSE IF id = 0 THEN {[s EXCEPT !.own = now]} ELSE {[s EXCEPT !.th[id].policy = now.policy, !.th[id].prio = now.prio]}
GetPrio(s, id, p) == IF ~s.call.on /\ Known(s, id) /\ Sched(s, id).prio = p THEN {s} ELSE {}
(* a mutex excludes, inherits priorities, and in a debug build refuses its owner a second lock and others the unlock *)
Mutex(dbg, inherit, l, again, busy, notmine, u, other, l2, u2, d) ==
  inherit /\ l = 0 /\ busy /\ u = 0 /\ other = 0 /\ l2 = 0 /\ u2 = 0 /\ d = 0 /\ (dbg => again /\ notmine)
=============================================================================

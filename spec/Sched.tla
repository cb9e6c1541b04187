-------------------------------- MODULE Sched -------------------------------
(* The scheduler: schedules with a due time, one scheduling thread, executions in a pool, in a thread  *)
(* of their own or in the scheduling thread.                                                          *)
(* Real time is known only at observed events, so a due time is an interval [lo, hi] and every        *)
(* internal step carries the interval [a, b] of moments at which it may happen.  Slack is how long a  *)
(* free scheduling thread may take to react to a due schedule.                                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

CONSTANT Slack
Far == 2100000000
Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y

NoPrio == -1
None == [op |-> "none", i |-> 0, v |-> <<>>, done |-> FALSE, res |-> 0]
NoSch == [ex |-> FALSE, lo |-> 0, hi |-> 0, per |-> 0, rep |-> 0, act |-> FALSE, del |-> FALSE, freed |-> FALSE, inf |-> 0, tq |-> 0, te |-> 0, pt |-> 0, pe |-> 0, prio |-> NoPrio, id |-> -1,
          conc |-> FALSE, sync |-> FALSE, pool |-> FALSE, hasrun |-> FALSE, hasab |-> FALSE, drop |-> 0]
Idle == [k |-> "none", i |-> 0, lim |-> Far]

(* n, m: pool threads and queue limit (0 none); tf: how many thread creations may fail *)
Init0(n, m, tf, scheds, threads) ==
  [st |-> "init", cur |-> Idle, free |-> 0, refs |-> 1, sch |-> [i \in scheds |-> NoSch], n |-> n, m |-> m, tf |-> tf,
   pq |-> <<>>, pr |-> 0, runs |-> {}, pend |-> [t \in threads |-> None]]

Scheds(s) == DOMAIN s.sch
Active(s) == {i \in Scheds(s) : s.sch[i].act}
Invoke(s, t, op, i, v) == [s EXCEPT !.pend[t] = [op |-> op, i |-> i, v |-> v, done |-> FALSE, res |-> 0]]
Fin(s, t, r) == [s EXCEPT !.pend[t].done = TRUE, !.pend[t].res = r]
Waiting(s, t) == s.pend[t].op # "none" /\ ~s.pend[t].done
Locked(s) == s.cur.k \in {"sync0", "syncrun", "syncend"}   (* the scheduling thread keeps the lock while it runs a synchronous schedule *)
B(x) == IF x THEN 1 ELSE 0

(* effects of client calls happening somewhere in [a, b] *)
Effect(s, t, a, b) ==
  LET op == s.pend[t].op  i == s.pend[t].i  v == s.pend[t].v IN
  IF ~Waiting(s, t) THEN {} ELSE
  CASE op = "create" -> (* v: period, delay, repeat, pool, run callback, abort callback, priority, whether the delay is a fraction more, moment *)
                       IF Locked(s) THEN {} ELSE
                       {[Fin(s, t, 0) EXCEPT !.sch[i] = [NoSch EXCEPT !.ex = TRUE, !.per = v[1], !.lo = v[9] + v[2], !.hi = b + v[2] + v[8], !.rep = v[3], !.pool = v[4] = 1, !.hasrun = v[5] = 1, !.hasab = v[6] = 1, !.prio = v[7]]]}
    [] op = "add"    -> IF Locked(s) THEN {} ELSE
                       IF s.sch[i].act THEN {Fin(s, t, 0)} ELSE {[Fin(s, t, 1) EXCEPT !.sch[i].act = TRUE, !.sch[i].hi = Max2(@, b)]}
    [] op = "remove" -> IF Locked(s) THEN {} ELSE IF s.sch[i].act THEN {[Fin(s, t, 1) EXCEPT !.sch[i].act = FALSE]} ELSE {Fin(s, t, 0)}
    [] op = "reset"  -> IF Locked(s) THEN {} ELSE {[Fin(s, t, 0) EXCEPT !.sch[i].lo = a + s.sch[i].per + v, !.sch[i].hi = b + s.sch[i].per + v]}
    [] op = "delete" -> IF Locked(s) THEN {} ELSE {[Fin(s, t, 0) EXCEPT !.sch[i].act = FALSE, !.sch[i].del = TRUE]}
    [] op = "conc"   -> {IF v = 1 /\ s.sch[i].sync THEN Fin(s, t, 0) ELSE [Fin(s, t, 0) EXCEPT !.sch[i].conc = v = 1]}
    [] op = "sync"   -> {IF v = 1 /\ s.sch[i].conc THEN Fin(s, t, 0) ELSE [Fin(s, t, 1) EXCEPT !.sch[i].sync = v = 1]}
    [] op = "dropped" -> {Fin(s, t, s.sch[i].drop)}
    [] op = "start"  -> IF Locked(s) THEN {} ELSE {[Fin(s, t, 0) EXCEPT !.st = "run", !.free = b]}
    [] op = "stop"   -> IF Locked(s) THEN {} ELSE {[Fin(s, t, 0) EXCEPT !.st = "stop"]}
    [] op = "ref"    -> {[Fin(s, t, 0) EXCEPT !.refs = @ + 1]}
    [] op = "free"   -> IF s.refs > 1 THEN {[Fin(s, t, 0) EXCEPT !.refs = @ - 1]} ELSE IF Locked(s) THEN {} ELSE {[s EXCEPT !.refs = 0, !.st = "del", !.pend[t].op = "free2"]}
    [] op = "free2"  -> IF s.cur.k # "none" THEN {} ELSE {[Fin(s, t, 0) EXCEPT !.sch = [k \in Scheds(s) |-> [s.sch[k] EXCEPT !.act = FALSE, !.del = @ \/ s.sch[k].ex]]]}
    [] OTHER         -> {}

(* end of a trigger: next occasion or idle; the moment is in [a, b] *)
Done(s, i, a, b) ==
  LET c == s.sch[i]  u == Min2(b, s.cur.lim) IN
  {[s EXCEPT !.cur = Idle, !.free = u,
    !.sch[i] = IF ~c.act THEN c
               ELSE IF c.rep = 1 THEN [c EXCEPT !.rep = 0, !.act = FALSE]
               ELSE [c EXCEPT !.rep = IF @ > 0 THEN @ - 1 ELSE 0, !.lo = a + c.per, !.hi = u + c.per]]}

(* the pool's queue: highest priority first, without priority last, in order among equals *)
Before(p, q) == p # NoPrio /\ (q = NoPrio \/ q < p)
Put(s, q, i) ==
  LET I == {k \in DOMAIN q : Before(s.sch[i].prio, s.sch[q[k]].prio)}  k == IF I = {} THEN Len(q) + 1 ELSE CHOOSE x \in I : \A y \in I : x <= y
  IN SubSeq(q, 1, k - 1) \o <<i>> \o SubSeq(q, k, Len(q))
Dropped(s, i) == [s EXCEPT !.sch[i].inf = @ - 1, !.sch[i].drop = @ + 1]
Dispatch(s, i, a, b) ==
  IF s.sch[i].sync THEN {[s EXCEPT !.cur.k = "sync0"]}
  ELSE IF s.sch[i].pool THEN
    IF s.m = 0 \/ Len(s.pq) < s.m THEN Done([s EXCEPT !.pq = Put(s, @, i)], i, a, b)
    ELSE IF s.sch[i].hasab THEN {[s EXCEPT !.cur.k = "preab"]} ELSE Done(Dropped(s, i), i, a, b)
  ELSE Done([s EXCEPT !.sch[i].tq = @ + 1], i, a, b) \cup (IF s.tf > 0 THEN Done([s EXCEPT !.tf = @ - 1, !.sch[i].inf = @ - 1], i, a, b) ELSE {})

(* the scheduling thread takes up schedule i: due, and no other is due earlier *)
CanTrigger(s, i, b) == s.st = "run" /\ s.cur.k = "none" /\ s.sch[i].act /\ s.sch[i].lo <= b /\ \A j \in Active(s) \ {i} : s.sch[j].hi >= s.sch[i].lo
Trigger(s, i, a, b) ==
  IF ~CanTrigger(s, i, b) THEN {} ELSE
  LET c == s.sch[i]  lim == Max2(c.hi, s.free) + Slack  a2 == Max2(a, c.lo)  s1 == [s EXCEPT !.cur = [k |-> "disp", i |-> i, lim |-> lim]] IN
  IF c.inf > 0 /\ ~c.conc THEN Done(s1, i, a2, b)       (* still executing: this occasion is skipped *)
  ELSE LET s2 == [s1 EXCEPT !.sch[i].inf = @ + 1] IN
       IF c.hasrun THEN {[s2 EXCEPT !.cur.k = "precb"]} ELSE Dispatch(s2, i, a2, b)

Busy(s) == s.pr + Cardinality({r \in s.runs : r[3] = "pool"})
RECURSIVE SumP(_, _)
SumP(s, X) == IF X = {} THEN 0 ELSE LET i == CHOOSE i \in X : TRUE IN s.sch[i].pt + s.sch[i].pe + SumP(s, X \ {i})
TakeJob(s) == IF s.pq # <<>> /\ Busy(s) + SumP(s, Scheds(s)) < s.n THEN {[s EXCEPT !.pq = Tail(@), !.sch[s.pq[1]].pt = @ + 1]} ELSE {}
Drop(s) == {[s EXCEPT !.sch[i].te = @ - 1, !.sch[i].inf = @ - 1] : i \in {k \in Scheds(s) : s.sch[k].te > 0}}
      \cup {[s EXCEPT !.sch[i].pe = @ - 1, !.sch[i].inf = @ - 1, !.pr = @ + 1] : i \in {k \in Scheds(s) : s.sch[k].pe > 0}}
Retire(s) == IF s.pr > 0 THEN {[s EXCEPT !.pr = @ - 1]} ELSE {}
Continue(s, a, b) ==
  CASE s.cur.k = "disp"    -> Dispatch(s, s.cur.i, a, b)
    [] s.cur.k = "syncend" -> Done(s, s.cur.i, a, b)
    [] s.cur.k = "abend"   -> Done(Dropped(s, s.cur.i), s.cur.i, a, b)
    [] OTHER -> {}
Soon(s, a, b) == Continue(s, a, b) \cup TakeJob(s) \cup Drop(s) \cup Retire(s)     (* steps that wait for nothing *)
(* every step that waits for nothing has been taken; only time can bring more *)
Settled(s) == /\ Soon(s, 0, 0) = {} /\ s.cur.k \in {"none", "cb", "ab", "syncrun"}
              /\ \A i \in Scheds(s) : s.sch[i].tq = 0 /\ s.sch[i].pt = 0
              /\ \A t \in DOMAIN s.pend : s.pend[t].op \in {"none", "free", "free2"} \/ Locked(s)
Internal(s, a, b) == Continue(s, a, b) \cup UNION {Trigger(s, i, a, b) : i \in Active(s)} \cup TakeJob(s) \cup Drop(s) \cup Retire(s)

(* observed steps at time b *)
RunCb(s, i) == IF s.cur.k = "precb" /\ s.cur.i = i THEN {[s EXCEPT !.cur.k = "cb", !.cur.lim = Far]} ELSE {}
RunCbEnd(s, i, b) == IF s.cur.k = "cb" /\ s.cur.i = i THEN {[s EXCEPT !.cur.k = "disp", !.cur.lim = b + Slack]} ELSE {}
Abort(s, i) == IF s.cur.k = "preab" /\ s.cur.i = i THEN {[s EXCEPT !.cur.k = "ab", !.cur.lim = Far]} ELSE {}
AbortEnd(s, i, b) == IF s.cur.k = "ab" /\ s.cur.i = i THEN {[s EXCEPT !.cur.k = "abend", !.cur.lim = b + Slack]} ELSE {}
(* prio: of the executing thread t; refused: what the system refused to give it.  A schedule with a priority *)
(* runs in the pool or in a thread of its own with this priority where the system permits.                *)
Begin(s, t, i, prio, refused) ==
  IF s.sch[i].freed THEN {} ELSE LET fits == s.sch[i].prio \in {NoPrio, prio} \cup refused IN
       (IF s.cur.k = "sync0" /\ s.cur.i = i THEN {[s EXCEPT !.cur.k = "syncrun", !.cur.lim = Far, !.runs = @ \cup {<<t, i, "sync">>}]} ELSE {})
  \cup (IF s.sch[i].tq > 0 /\ fits THEN {[s EXCEPT !.sch[i].tq = @ - 1, !.runs = @ \cup {<<t, i, "thread">>}]} ELSE {})
  \cup (IF s.sch[i].pt > 0 /\ fits THEN {[s EXCEPT !.sch[i].pt = @ - 1, !.runs = @ \cup {<<t, i, "pool">>}]} ELSE {})
Finish(s, t, i, b) ==
  LET R(k) == [s EXCEPT !.runs = @ \ {<<t, i, k>>}] IN
       (IF <<t, i, "sync">> \in s.runs THEN {[R("sync") EXCEPT !.cur.k = "syncend", !.cur.lim = b + Slack, !.sch[i].inf = @ - 1]} ELSE {})
  \cup (IF <<t, i, "thread">> \in s.runs THEN {[R("thread") EXCEPT !.sch[i].te = @ + 1]} ELSE {})
  \cup (IF <<t, i, "pool">> \in s.runs THEN {[R("pool") EXCEPT !.sch[i].pe = @ + 1]} ELSE {})
(* the id by which the caller knows schedule i *)
Ident(s, i, id) == IF s.sch[i].ex /\ \A k \in Scheds(s) : s.sch[k].id # id THEN {[s EXCEPT !.sch[i].id = id]} ELSE {}
Freed(s, i) == IF s.sch[i].ex /\ s.sch[i].del /\ s.sch[i].inf = 0 /\ ~s.sch[i].freed THEN {[s EXCEPT !.sch[i].freed = TRUE]} ELSE {}

(* no deadline of the scheduling thread has passed at b *)
Prompt(s, b) == /\ s.cur.k = "none" /\ s.st = "run" => \A i \in Active(s) : Max2(s.sch[i].hi, s.free) + Slack >= b
                /\ b <= s.cur.lim
CanRespond(s, t, r) == s.pend[t].op # "none" /\ s.pend[t].done /\ s.pend[t].res = r
Respond(s, t) == [s EXCEPT !.pend[t] = None]
Quiet(s) == /\ \A t \in DOMAIN s.pend : s.pend[t].op = "none"
            /\ s.cur.k = "none" /\ s.runs = {} /\ s.pq = <<>> /\ s.pr = 0
            /\ \A i \in Scheds(s) : LET c == s.sch[i] IN c.tq = 0 /\ c.te = 0 /\ c.pt = 0 /\ c.pe = 0 /\ (c.del /\ c.inf = 0 => c.freed)
AllFreed(s) == s.refs = 0 /\ \A i \in Scheds(s) : s.sch[i].ex => s.sch[i].freed
=============================================================================

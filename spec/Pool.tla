-------------------------------- MODULE Pool --------------------------------
(* The thread pool: a bounded priority queue of jobs, n workers, a run state and a reference count.   *)
(* Jobs move queue -> taken -> running -> ended -> gone.  A taken job holds a worker until it is gone. *)
(* Calls are invoked, take effect atomically (Effect) and return; blocked = Effect empty.             *)
(* A job with a priority runs on a thread that has this priority, or was refused it by the system.    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

None == [op |-> "none", id |-> 0, prio |-> 0, done |-> FALSE, res |-> 0]
NoPrio == -1

Init0(max, n, threads) == [max |-> max, n |-> n, st |-> "init", jobs |-> <<>>, taken |-> {}, run |-> {}, ended |-> {}, gone |-> {}, refs |-> 1,
                           pend |-> [t \in threads |-> None]]

Room(s) == s.max = 0 \/ Len(s.jobs) < s.max
Busy(s) == Cardinality(s.taken) + Cardinality(s.run) + Cardinality(s.ended)

(* behind every job of at least its priority; jobs without priority go last *)
Before(p, q) == p # NoPrio /\ (q = NoPrio \/ q < p)
Place(js, p) == LET I == {i \in DOMAIN js : Before(p, js[i][2])} IN IF I = {} THEN Len(js) + 1 ELSE CHOOSE i \in I : \A k \in I : i <= k
Insert(js, j) == LET k == Place(js, j[2]) IN SubSeq(js, 1, k - 1) \o <<j>> \o SubSeq(js, k, Len(js))

Invoke(s, t, op, id, prio) == [s EXCEPT !.pend[t] = [op |-> op, id |-> id, prio |-> prio, done |-> FALSE, res |-> 0]]
Fin(s, t, r) == [s EXCEPT !.pend[t].done = TRUE, !.pend[t].res = r]
Put(s, t) == [s EXCEPT !.jobs = Insert(@, <<s.pend[t].id, s.pend[t].prio>>)]
Waiting(s, t) == s.pend[t].op # "none" /\ ~s.pend[t].done

Effect(s, t) ==
  LET op == s.pend[t].op IN
  IF ~Waiting(s, t) THEN {} ELSE
  CASE op = "add"   -> IF Room(s) THEN {Fin(Put(s, t), t, 0)} ELSE {}
    [] op = "try"   -> IF Room(s) THEN {Fin(Put(s, t), t, 1)} ELSE {Fin(s, t, 0)}
    [] op = "wait"  -> IF s.jobs = <<>> /\ Busy(s) = 0 THEN {Fin(s, t, 0)} ELSE {}
    [] op = "start" -> {IF s.st = "del" THEN Fin(s, t, 0) ELSE [Fin(s, t, 0) EXCEPT !.st = "run"]}
    [] op = "stop"  -> {IF s.st = "del" THEN Fin(s, t, 0) ELSE [Fin(s, t, 0) EXCEPT !.st = "stop"]}
    [] op = "ref"   -> {[Fin(s, t, 0) EXCEPT !.refs = @ + 1]}
    [] op = "free"  -> IF s.refs > 1 THEN {[Fin(s, t, 0) EXCEPT !.refs = @ - 1]} ELSE {[s EXCEPT !.refs = 0, !.pend[t].op = "free2"]}
    [] op = "free2" -> {[s EXCEPT !.st = "del", !.jobs = <<>>, !.pend[t].op = "free3"]}
    [] op = "free3" -> IF s.taken = {} /\ s.ended = {} /\ (\A r \in s.run : r[2] = t) THEN {Fin(s, t, 0)} ELSE {}
    [] OTHER        -> {}

Take(s) == IF s.st = "run" /\ s.jobs # <<>> /\ Busy(s) < s.n THEN {[s EXCEPT !.jobs = Tail(@), !.taken = @ \cup {s.jobs[1]}]} ELSE {}
Retire(s) == {[s EXCEPT !.ended = @ \ {j}] : j \in s.ended}
Internal(s) == Take(s) \cup Retire(s)

(* prio: of thread t now; refused: the priorities refused to it since its last job *)
Begin(s, t, id, prio, refused) ==
  UNION {IF id \notin s.gone /\ (\A r \in s.run : r[2] # t) /\ (x[2] # NoPrio /\ prio # x[2] => x[2] \in refused)
         THEN {[s EXCEPT !.taken = @ \ {x}, !.run = @ \cup {<<id, t>>}, !.gone = @ \cup {id}]} ELSE {} : x \in {y \in s.taken : y[1] = id}}
Finish(s, t, id) == IF <<id, t>> \in s.run THEN {[s EXCEPT !.run = @ \ {<<id, t>>}, !.ended = @ \cup {id}]} ELSE {}

CanRespond(s, t, r) == s.pend[t].op # "none" /\ s.pend[t].done /\ s.pend[t].res = r
Respond(s, t) == [s EXCEPT !.pend[t] = None]

(* nothing can move: calls blocked, no job that a worker should take, no job half way through *)
Quiet(s) == /\ \A t \in DOMAIN s.pend : s.pend[t].op # "none" => (~s.pend[t].done /\ Effect(s, t) = {})
            /\ Internal(s) = {} /\ s.taken = {} /\ \A r \in s.run : s.pend[r[2]].op # "none"
Released(s) == s.refs = 0 /\ s.st = "del" /\ s.run = {} /\ s.taken = {}
=============================================================================

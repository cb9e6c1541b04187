-------------------------------- MODULE Queue --------------------------------
(* The queue as a bounded FIFO sequence with pending calls.                                           *)
(* A call is invoked (Invoke), takes effect atomically at some moment before it returns (Effect), and *)
(* returns the result fixed by that moment (Respond).  A blocked call is one whose Effect is not      *)
(* enabled: enqueue on a full running queue, dequeue on an empty running queue.                       *)
EXTENDS Naturals, Sequences, FiniteSets

None == [op |-> "none", arg |-> 0, done |-> FALSE, res |-> 0]

Init0(max, threads) == [q |-> <<>>, max |-> max, run |-> TRUE, freed |-> FALSE, toFree |-> {}, pend |-> [t \in threads |-> None]]

Room(s) == s.max = 0 \/ Len(s.q) < s.max

Invoke(s, t, op, arg) == [s EXCEPT !.pend[t] = [op |-> op, arg |-> arg, done |-> FALSE, res |-> 0]]

Fin(s, t, r) == [s EXCEPT !.pend[t].done = TRUE, !.pend[t].res = r]
Put(s, t, r) == [Fin(s, t, r) EXCEPT !.q = Append(@, s.pend[t].arg)]
Take(s, t) == [Fin(s, t, Head(s.q)) EXCEPT !.q = Tail(@)]

Waiting(s, t) == s.pend[t].op # "none" /\ ~s.pend[t].done

(* the set of states that the pending call of t can lead to by taking effect; empty: blocked *)
Effect(s, t) ==
  LET op == s.pend[t].op  arg == s.pend[t].arg IN
  IF ~Waiting(s, t) THEN {} ELSE
  CASE op = "enq"    -> IF Room(s) THEN {Put(s, t, 0)} ELSE IF ~s.run THEN {Fin(s, t, 0)} ELSE {}
    [] op = "tenq"   -> IF Room(s) THEN {Put(s, t, 1)} ELSE {Fin(s, t, 0)}
    [] op = "deq"    -> IF s.q # <<>> THEN {Take(s, t)} ELSE IF ~s.run THEN {Fin(s, t, 0)} ELSE {}
    [] op = "tdeq"   -> IF s.q # <<>> THEN {Take(s, t)} ELSE {Fin(s, t, 0)}
    [] op = "size"   -> {Fin(s, t, Len(s.q))}
    [] op = "maxs"   -> {Fin(s, t, s.max)}
    [] op = "setmax" -> {[Fin(s, t, 0) EXCEPT !.max = arg]}
    [] op = "stop"   -> {[Fin(s, t, 0) EXCEPT !.run = FALSE]}
    [] op = "free"   -> {[Fin(s, t, 0) EXCEPT !.q = <<>>, !.freed = TRUE, !.toFree = {s.q[i] : i \in DOMAIN s.q}]}
    [] OTHER         -> {}

CanRespond(s, t, r) == s.pend[t].op # "none" /\ s.pend[t].done /\ s.pend[t].res = r
Respond(s, t) == [s EXCEPT !.pend[t] = None]

(* nothing can move by itself: every pending call is blocked *)
Quiet(s) == \A t \in DOMAIN s.pend : s.pend[t].op # "none" => (~s.pend[t].done /\ Effect(s, t) = {})
=============================================================================

------------------------------- MODULE Share -------------------------------
(* Values shared by threads: who holds how many references, which drops are under way, what has been released. *)
EXTENDS Integers, FiniteSets, Sequences
Start(T, X) == [held |-> [t \in T |-> [x \in X |-> 1]], going |-> [x \in X |-> 0], rel |-> {}]
Refs(s, x) == LET RECURSIVE Sum(_)  Sum(D) == IF D = {} THEN 0 ELSE LET t == CHOOSE u \in D : TRUE IN s.held[t][x] + Sum(D \ {t}) IN Sum(DOMAIN s.held)
Ref(s, t, x) == IF s.held[t][x] > 0 /\ x \notin s.rel THEN {[s EXCEPT !.held[t][x] = @ + 1]} ELSE {}
Drop(s, t, x) == IF s.held[t][x] > 0 THEN {[s EXCEPT !.held[t][x] = @ - 1, !.going[x] = @ + 1]} ELSE {}
(* the last reference is going: the value is released, once *)
Release(s, x) == IF x \notin s.rel /\ Refs(s, x) = 0 /\ s.going[x] > 0 THEN {[s EXCEPT !.rel = @ \cup {x}]} ELSE {}
(* a drop that returns: if nobody else holds or is dropping the value, it is gone *)
Dropped(s, x) == IF s.going[x] > 0 /\ (Refs(s, x) = 0 /\ s.going[x] = 1 => x \in s.rel) THEN {[s EXCEPT !.going[x] = @ - 1]} ELSE {}
Read(s, t, x, ok) == IF s.held[t][x] > 0 /\ x \notin s.rel /\ ok = 1 THEN {s} ELSE {}
=============================================================================

------------------------------- MODULE Clock -------------------------------
(* Time stamps, clock readings rounded down, and waits.  A point in time or a duration is a sequence of digits to the base *)
(* 1000, most significant first, in nanoseconds: micro-, milli- and seconds are the same digits with the last ones dropped.  *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE LtFrom(_, _, _)
LtFrom(a, b, i) == IF i > Len(a) THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LtFrom(a, b, i + 1)
Lt(a, b) == LtFrom(a, b, 1)
Le(a, b) == ~Lt(b, a)
Max2(a, b) == IF Lt(a, b) THEN b ELSE a
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, carry) == IF i = 0 THEN <<>> ELSE LET x == a[i] + b[i] + carry IN Append(AddFrom(a, b, i - 1, x \div 1000), x % 1000)
Plus(a, b) == AddFrom(a, b, Len(a), 0)
Num1(n, k) == [i \in 1..n |-> IF i = n THEN k ELSE 0]
Next1(a) == Plus(a, Num1(Len(a), 1))
Drop(a, k) == [i \in DOMAIN a |-> IF i > k THEN a[i - k] ELSE 0]             \* rounded down to 1000^k
Raise(a, k) == [i \in DOMAIN a |-> IF i + k <= Len(a) THEN a[i + k] ELSE 0]   \* times 1000^k

(* last: the last time stamp given; per thread the clock readings made during its call and the stamp it takes *)
Idle == [on |-> FALSE, seen |-> {}, r |-> <<>>]
Start(T, zero) == [last |-> zero, pend |-> [t \in T |-> Idle]]
Call(s, t) == IF s.pend[t].on THEN {} ELSE {[s EXCEPT !.pend[t] = [Idle EXCEPT !.on = TRUE]]}
Look(s, t, v) == {[s EXCEPT !.pend[t].seen = IF s.pend[t].on THEN @ \cup {v} ELSE @]}
Stamp(last, v) == Max2(Next1(last), v)
Effect(s, t) == LET p == s.pend[t] IN IF ~p.on \/ p.r # <<>> THEN {} ELSE {[s EXCEPT !.last = Stamp(s.last, v), !.pend[t].r = Stamp(s.last, v)] : v \in p.seen}
Return(s, t, v) == IF s.pend[t].on /\ s.pend[t].r = v THEN {[s EXCEPT !.pend[t] = Idle]} ELSE {}
(* the clock itself, in units of 1000^k nanoseconds *)
Unit(s, t, k, v) == IF s.pend[t].on /\ \E c \in s.pend[t].seen : v = Drop(c, k) THEN {[s EXCEPT !.pend[t] = Idle]} ELSE {}
(* a wait of n units: not short, and late only by what scheduling takes *)
Waited(k, n, before, after, slack) == LET due == Plus(before, Raise(n, k)) IN Le(due, after) /\ Le(after, Plus(due, slack))
=============================================================================

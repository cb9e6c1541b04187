------------------------------ MODULE MC_Data ------------------------------
(* Exhaustive exploration of a small heap under every call that moves references: a list, a vector, a map, two numbers and two keys. *)
EXTENDS DataOps
CONSTANTS MaxCalls, MaxHeld
VARIABLES s, calls, last
vars == <<s, calls, last>>
Thing(t, et, kt, v, el) == <<t, 0, et, kt, v, el, <<>>, <<>>>>
Start == <<<<1, Thing(List, Multi, Invalid, <<>>, <<>>)>>, <<2, Thing(Vector, Multi, Invalid, <<>>, <<0, 0>>)>>, <<3, Thing(Map, Multi, String, <<>>, <<>>)>>,
           <<4, Thing(Int32, Invalid, Invalid, <<1, 0, 1>>, <<>>)>>, <<5, Thing(UInt8, Invalid, Invalid, <<1, 1, 1>>, <<>>)>>,
           <<6, Thing(String, Invalid, Invalid, <<97>>, <<>>)>>, <<7, Thing(String, Invalid, Invalid, <<98>>, <<>>)>>>>
Init == /\ s = [Absorb(Empty(<<>>), Start) EXCEPT !.held = [i \in 1..7 |-> 1]] /\ calls = 0 /\ last = <<>>
Id == DOMAIN s.h
Of(t) == {i \in Id : s.h[i].t = t}
Mine == {i \in Id : s.held[i] > 0}
Ends == {0, 1}
Answers == {0} \cup Id
Fits(c, v) == c \notin Under(s.h, v)
Events ==
  {<<"ref", i>> : i \in {j \in Mine : s.held[j] < MaxHeld}} \cup {<<"free", i>> : i \in Mine}
  \cup {<<"lpush", c, e, v>> : c \in Of(List), e \in Ends, v \in Mine} \cup {<<"lpop", c, e, r>> : c \in Of(List), e \in Ends, r \in Answers}
  \cup {<<"lempty", c>> : c \in Of(List)} \cup {<<"lrem", c, v, r>> : c \in Of(List), v \in Id, r \in Ends}
  \cup {<<"iter", c, <<<<"next", n>>, <<"rem", m>>, <<"next", q>>>>>> : c \in Of(List), n \in Ends, m \in Ends, q \in Ends}
  \cup {<<"iter", c, <<<<"next", 1>>, <<"rep", v, r>>>>>> : c \in Of(List) \cup Of(Vector) \cup Of(Map), v \in Mine, r \in Answers}
  \cup {<<"vadd", c, i, v>> : c \in Of(Vector), i \in 0..1, v \in Mine \cup {0}} \cup {<<"vres", c, n>> : c \in Of(Vector), n \in 0..2} \cup {<<"vcomp", c, r>> : c \in Of(Vector), r \in 0..2}
  \cup {<<"madd", c, k, v>> : c \in Of(Map), k \in Of(String), v \in Mine} \cup {<<"munus", c, k, v, r>> : c \in Of(Map), k \in Of(String), v \in Mine, r \in Ends}
  \cup {<<"mrem", c, k, r>> : c \in Of(Map), k \in Of(String), r \in Ends} \cup {<<"mempty", c>> : c \in Of(Map)}
Gives(e) == CASE e[1] \in {"lpush", "vadd"} -> {e[4]} \ {0} [] e[1] \in {"madd", "munus"} -> {e[3], e[4]}
              [] e[1] = "iter" /\ Len(e[3]) = 2 -> {e[3][2][2]} [] OTHER -> {}
Legal(e) == /\ \A v \in Gives(e) : v \in Mine /\ Fits(e[2], v)
            /\ (e[1] = "vadd" => e[3] < Len(s.h[e[2]].el))
            /\ (e[1] \in {"madd", "munus"} => e[3] # e[4])
            /\ (e[1] = "lpush" => Len(s.h[e[2]].el) < 2)
Result(e) == LET L(t) == DOMAIN t.h \ Live(t) IN UNION {Finish(s, t, <<>>, 0) : t \in Do(s, e)}
Next == /\ calls < MaxCalls /\ calls' = calls + 1
        /\ \E e \in Events : Legal(e) /\ \E t \in Result(e) : s' = t /\ last' = e
Spec == Init /\ [][Next]_vars
View == <<s, calls>>
NoDangling == \A i \in Id : Kids(s.h[i]) \subseteq Id
Counted == \A i \in Id : RefCount(s, i) > 0
NoGarbage == Id = Live(s)
Ordered == \A m \in Of(Map) : Sorted(s.h, s.h[m].mp)
(* only the container a call names changes, and everything else that lives on keeps its contents *)
Local == [][\A i \in DOMAIN s.h \cap DOMAIN s'.h : s.h[i] # s'.h[i] => i = last'[2]]_vars
(* what disappears had no reference left after the call; nothing the caller still holds disappears *)
Kept == [][\A i \in DOMAIN s.h \ DOMAIN s'.h : s.held[i] = 0 \/ (s.held[i] = 1 /\ last'[1] # "ref")]_vars
=============================================================================

------------------------------ MODULE MC_Config ------------------------------
(* Laws of substitution, on every text of up to Max letters: references are what lies between "${" and the next "}", taken from *)
(* the left; what is outside them stays; a text with a failing reference has no result.                                         *)
EXTENDS Config
CONSTANT Max
VARIABLE s
Letters == {Dollar, Open, Close, 65, 120}
Env == <<<<<<65>>, <<118, 36, 123, 65, 125>>>>, <<<<120>>, <<>>>>>>      \* A -> "v${A}", x -> ""
Init == s = <<>>
Next == Len(s) < Max /\ \E c \in Letters : s' = Append(s, c)
Spec == Init /\ [][Next]_s
RefAt(i) == i < Len(s) /\ s[i] = Dollar /\ s[i + 1] = Open /\ EndOf(s, i + 2) > 0
Refs == {i \in 1..Len(s) : RefAt(i)}
First == CHOOSE i \in Refs : \A j \in Refs : i <= j
R == Substitute(s, Env)
Plain == Refs = {} => R = <<1, s>>
OneByOne == Refs # {} => LET e == EndOf(s, First + 2)  n == SubSeq(s, First + 2, e - 1)  r == Substitute(SubSeq(s, e + 1, Len(s)), Env) IN
  IF n = <<>> \/ ~HasName(Env, n) THEN R = <<0>> ELSE IF r[1] = 0 THEN R = <<0>> ELSE R = <<1, SubSeq(s, 1, First - 1) \o ValueOf(Env, n) \o r[2]>>
NoShort == R[1] \in {0, 1}
=============================================================================

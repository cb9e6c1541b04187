------------------------------- MODULE Config -------------------------------
(* Configuration: ${NAME} in a text, and typed values out of a configuration map.  Texts are sequences of byte values. *)
EXTENDS Num
Dollar == 36    Open == 123    Close == 125
HasName(env, n) == \E i \in DOMAIN env : env[i][1] = n
ValueOf(env, n) == env[CHOOSE i \in DOMAIN env : env[i][1] = n][2]
EndOf(s, i) == IF \E j \in i..Len(s) : s[j] = Close THEN CHOOSE j \in i..Len(s) : s[j] = Close /\ \A k \in i..(j - 1) : s[k] # Close ELSE 0
(* <<1, text>>; <<0>> when a name is empty or has no value; <<2, text>> when a name is longer than 63 bytes, which need not be supported. *)
(* Values are not substituted again.  A reference that is not closed stands for itself.                                              *)
RECURSIVE Subst(_, _, _, _, _)
Subst(s, i, env, acc, long) ==
  IF i > Len(s) THEN <<IF long THEN 2 ELSE 1, acc>>
  ELSE IF s[i] = Dollar /\ i < Len(s) /\ s[i + 1] = Open /\ EndOf(s, i + 2) > 0
       THEN LET e == EndOf(s, i + 2)  n == SubSeq(s, i + 2, e - 1) IN
            IF n = <<>> \/ ~HasName(env, n) THEN <<0>> ELSE Subst(s, e + 1, env, acc \o ValueOf(env, n), long \/ Len(n) > 63)
       ELSE Subst(s, i + 1, env, Append(acc, s[i]), long)
Substitute(s, env) == Subst(s, 1, env, <<>>, FALSE)
(* type -1: there is no such entry *)
Number(t, v, want) == IF t < 0 \/ t > Bool THEN <<0, <<>>>> ELSE Cast(t, v, want)
Text(t, s, def) == IF t = String THEN <<1, s>> ELSE def
=============================================================================

------------------------------ MODULE IdsTrace ------------------------------
EXTENDS Ids, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, made     \* made: identifiers given so far
vars == <<tid, l, made>>
Zero(s) == \E i \in DOMAIN s : s[i] = 0
Accept(e) ==
  LET k == e[1] IN
  CASE k = "gen"   -> Random4(e[3]) /\ e[3] \notin made
    [] k = "gentext" -> IsUuid(e[3]) /\ Random4(Bytes(e[3])) /\ e[3] = Text(Bytes(e[3])) /\ Bytes(e[3]) \notin made
    [] k = "many"  -> Distinct(e[2]) /\ Varied(e[2]) /\ \A i \in DOMAIN e[2] : Random4(e[2][i])
    [] k = "procs" -> Distinct(e[2]) /\ \A i \in DOMAIN e[2] : Random4(e[2][i])        \* processes given different random numbers
    [] k = "text"  -> e[3] = Text(e[2]) /\ e[4] = 1 /\ e[5] = 1                       \* the text, terminated, nothing else written
    [] k = "is"    -> e[3] = (IF IsUuid(e[2]) THEN 1 ELSE 0)
    [] k = "isnull" -> e[2] = 0
    [] k = "place" -> {e[4][i] : i \in DOMAIN e[4]} = {c \in 1..255 : IsUuid([e[2] EXCEPT ![e[3]] = c])}
    [] k = "hash"  -> e[3] = Hash(e[2]) /\ (~Zero(e[2]) => e[4] = e[3]) /\ e[5] = 1
    [] k = "end"   -> TRUE
    [] OTHER       -> FALSE
New(e) == IF e[1] = "gen" THEN {e[3]} ELSE IF e[1] = "gentext" THEN {Bytes(e[3])} ELSE {}
Init == tid \in 1..Len(Traces) /\ l = 1 /\ made = {}
Next == /\ l <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l] IN
           IF ~Accept(e) THEN PrintT(<<"REJECT", tid, l>>) /\ l' = 1000000 /\ UNCHANGED <<tid, made>>
           ELSE made' = made \cup New(e) /\ l' = l + 1 /\ UNCHANGED tid /\ (l < Len(Traces[tid].ev) \/ PrintT(<<"ACCEPT", tid>>))
Spec == Init /\ [][Next]_vars
=============================================================================

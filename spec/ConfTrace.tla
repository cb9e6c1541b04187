------------------------------ MODULE ConfTrace ------------------------------
EXTENDS Config, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, env
vars == <<tid, l, env>>
Accept(e) ==
  LET k == e[1] IN
  \* text, result <<0>> or <<1, text>>, heap blocks gained, errors logged
  CASE k = "sub" -> LET r == Substitute(e[2], env) IN
                    /\ e[4] = e[3][1]
                    /\ IF r[1] = 0 \/ (r[1] = 2 /\ e[3][1] = 0) THEN e[3] = <<0>> /\ e[5] = 1 ELSE e[3] = <<1, r[2]>> /\ e[5] = 0
    [] k = "subnull" -> e[2] = 0 /\ e[3] = 0
  \* type of the entry, its value, type asked for, result, value, bytes touched that should not be, errors logged
    [] k = "num" -> LET r == Number(e[2], e[3], e[4]) IN e[5] = r[1] /\ e[6] = r[2] /\ e[7] = 0 /\ e[8] = 1 - r[1]
  \* type, text, with a default, the default, allocate, result, heap blocks gained, the very string of the map (or default), errors logged
    [] k = "str" -> LET r == Text(e[2], e[3], IF e[4] = 1 THEN e[5] ELSE <<0>>) IN
                    /\ e[7] = r /\ e[8] = (IF e[6] = 1 /\ r[1] = 1 THEN 1 ELSE 0) /\ e[9] = (IF e[6] = 0 /\ r[1] = 1 THEN 1 ELSE 0) /\ e[10] = (IF e[4] = 0 /\ e[2] # String THEN 1 ELSE 0)
    [] k = "coll" -> e[4] = (IF e[2] = e[3] THEN 1 ELSE 0) /\ e[5] = 1 - e[4]
    [] k = "comp" -> e[4] = e[3] /\ e[5] = 1 - e[4]
    [] k \in {"env", "end"} -> TRUE
    [] OTHER -> FALSE
Init == tid \in 1..Len(Traces) /\ l = 1 /\ env = <<>>
Next == /\ l <= Len(Traces[tid].ev)
        /\ LET e == Traces[tid].ev[l] IN
           IF ~Accept(e) THEN PrintT(<<"REJECT", tid, l>>) /\ l' = 1000000 /\ UNCHANGED <<tid, env>>
           ELSE env' = (IF e[1] = "env" THEN e[2] ELSE env) /\ l' = l + 1 /\ UNCHANGED tid /\ (l < Len(Traces[tid].ev) \/ PrintT(<<"ACCEPT", tid>>))
Spec == Init /\ [][Next]_vars
=============================================================================

------------------------------ MODULE TextTrace ------------------------------
(* What the text formats of the library read and write; every event stands for itself. *)
EXTENDS Cbor, Json, IOUtils
X == INSTANCE XmlText
Y == INSTANCE YamlText
Traces == ndJsonDeserialize(IOEnv.TRACES)
Deviates == IF "DEVIATES" \in DOMAIN IOEnv THEN (IF IOEnv.DEVIATES = "1" THEN 1 ELSE 0) ELSE 0     \* 1: the recorded deviation of negative integers in CBOR is let pass
VARIABLES tid, l
vars == <<tid, l>>
Nothing == <<"n">>
LastInk(s) == CHOOSE i \in DOMAIN s : ~White(s[i]) /\ \A j \in (i + 1)..Len(s) : White(s[j])
Accept(e) ==
  LET k == e[1] IN
  CASE k = "doc"    -> LET d == Doc(e[2]) IN IF d[1] = 1 THEN Denotes(d[2], e[3]) ELSE (Broken(e[2]) => e[3] = Nothing)                  \* parsed; anything goes for what is not JSON
    [] k = "must"   -> LET d == Doc(e[2]) IN d[1] = 1 /\ Denotes(d[2], e[3])                   \* the harness meant to make a document
    [] k = "cut"    -> LET d == Doc(e[2]) IN (d[1] = 1 /\ ~Scalar(d[2]) /\ e[3] < LastInk(e[2])) => e[4] = Nothing
    [] k = "order"  -> LET d == Doc(e[2])  o == Doc(e[3]) IN d[1] = 1 => (o[1] = 1 /\ Once(o[2]) /\ Shape(d[2]) = Shape(o[2]))
    [] k = "tokens" -> LET d == Doc(e[2]) IN d[1] = 1 => LET t == Tokens(e[2]) IN e[3] = t /\ e[4] = Len(t) /\ e[5] = Len(t) /\ e[6] = -1
    [] k = "print"  -> LET d == Doc(e[3]) IN d[1] = 1 /\ Says(d[2], e[2]) /\ e[4] = 0          \* no buffer size gave another text
    [] k = "inplace" -> e[2] = 1 /\ e[3] = 1                                                 \* written into the buffer given when it is large enough
    [] k = "back"   -> LET d == Doc(e[3]) IN d[1] = 1 /\ Denotes(d[2], e[4]) /\ (Survives(e[2]) => e[5] = 1)
    [] k = "cbor"   -> IsCbor(e[2], e[3], Deviates = 2) /\ e[4] = 0
    [] k = "cborneg" -> IsCbor(e[2], e[3], Deviates > 0) /\ e[4] = 0
    [] k = "cborlen" -> LET h == HeadAt(e[5], 1) IN h[1] > 0 /\ h[2] = <<3, 2, 4, 5>>[e[2] + 1] /\ h[3] = Limbs(e[3]) /\ e[6] = 1 /\ (e[2] < 3 => e[4] = e[3] + h[1] - 1)
    [] k = "b64e"   -> LET es == 4 * ((Len(e[2]) + 2) \div 3) + 1 IN e[3] = es /\ e[5] = (IF e[4] >= es THEN 1 ELSE 0) /\ e[7] = 1 /\ (e[5] = 1 => e[6] = Base64(e[2]))
    [] k = "b64d"   -> B64Decode(e[2], e[3], e[4], e[5], e[6], e[7])
    [] k = "b64a"   -> (Undecodable(e[2]) => e[3] = 0) /\ (Canonical(e[2]) => e[3] = 1) /\ (e[3] = 1 => e[4] = Array /\ e[5] = UInt8 /\ e[6] = Decoded(e[2]))
    [] k = "xml"    -> LET r == X!XDoc(e[2]) IN (r[1] = 1 => X!TreeIs(r[2], e[3])) /\ (r[1] = -1 => e[3] = <<"u">>)
    [] k = "yaml"   -> LET r == Y!YDoc(e[2]) IN
                       /\ (e[4] # 0 => e[4] = 1 /\ e[3] = <<"u">>)                            \* an exception has a text, and no value comes with it
                       /\ (r[1] = 1 => e[4] = 0 /\ Y!YDenotes(r[2], e[3])) /\ (r[1] = -1 => e[4] = 1)
    [] k = "live"   -> e[2] = 0
    [] k = "end"    -> TRUE
    [] OTHER        -> FALSE
Init == tid \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(Traces[tid].ev)
        /\ IF ~Accept(Traces[tid].ev[l]) THEN PrintT(<<"REJECT", tid, l>>) /\ l' = 1000000 /\ UNCHANGED tid
           ELSE l' = l + 1 /\ UNCHANGED tid /\ (l < Len(Traces[tid].ev) \/ PrintT(<<"ACCEPT", tid>>))
Spec == Init /\ [][Next]_vars
=============================================================================

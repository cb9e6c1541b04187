------------------------------ MODULE NumTrace ------------------------------
(* What numbers become: casts, comparisons, readings.  Nothing has a state here, every event stands for itself. *)
EXTENDS Num, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
vars == <<tid, l>>
NaN == <<9>>
CastN(t, v, u) == IF v = NaN THEN (IF u \in {Float32, Float64} THEN <<1, NaN>> ELSE <<0, <<>>>>) ELSE Cast(t, v, u)
CastOk(t, v, u, ok, x) == LET r == CastN(t, v, u) IN ok = r[1] /\ x = r[2]
RECURSIVE CastAll(_, _, _)
CastAll(t, q, u) == IF q = <<>> THEN <<>> ELSE LET r == CastN(t, Head(q), u) IN (IF r[1] = 1 THEN <<r[2]>> ELSE <<>>) \o CastAll(t, Tail(q), u)
(* order of two numbers as compare_value sees it: by value between integers and between floats, otherwise by type *)
CmpValue(t, a, u, b) == IF (IsInt(t) /\ IsInt(u)) \/ (IsFloat(t) /\ IsFloat(u)) THEN NumCmp(a, b)
                        ELSE IF t = u THEN Sgn(a[1] - b[1]) ELSE Sgn(t - u)
CmpExact(t, a, u, b) == IF t # u THEN Sgn(t - u) ELSE IF t = Bool THEN Sgn(a[1] - b[1]) ELSE NumCmp(a, b)
(* ---- reading: blanks, a sign, digits; binary digits of a natural number, most significant first, none leading zero *)
Digit(c) == c >= 48 /\ c <= 57
RECURSIVE SkipWs(_)
SkipWs(s) == IF s # <<>> /\ (Head(s) = 32 \/ (Head(s) >= 9 /\ Head(s) <= 13)) THEN SkipWs(Tail(s)) ELSE s
RECURSIVE AddB(_, _, _)      \* sum of two digit strings, least significant digit first, with a carry
AddB(a, b, c) == IF a = <<>> /\ b = <<>> THEN (IF c = 0 THEN <<>> ELSE <<1>>)
                 ELSE LET x == (IF a = <<>> THEN 0 ELSE Head(a)) + (IF b = <<>> THEN 0 ELSE Head(b)) + c
                      IN <<x % 2>> \o AddB(IF a = <<>> THEN a ELSE Tail(a), IF b = <<>> THEN b ELSE Tail(b), x \div 2)
Small(d) == CASE d = 0 -> <<>> [] d = 1 -> <<1>> [] d = 2 -> <<0, 1>> [] d = 3 -> <<1, 1>> [] d = 4 -> <<0, 0, 1>> [] d = 5 -> <<1, 0, 1>>
              [] d = 6 -> <<0, 1, 1>> [] d = 7 -> <<1, 1, 1>> [] d = 8 -> <<0, 0, 0, 1>> [] OTHER -> <<1, 0, 0, 1>>
Ten(a) == IF a = <<>> THEN a ELSE AddB(<<0>> \o a, <<0, 0, 0>> \o a, 0)
Rev(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
RECURSIVE FromDec(_, _)
FromDec(ds, acc) == IF ds = <<>> THEN acc ELSE FromDec(Tail(ds), AddB(Ten(acc), Small(Head(ds) - 48), 0))
RECURSIVE Tens(_, _)
Tens(a, k) == IF k = 0 THEN a ELSE Tens(Ten(a), k - 1)
Nat2Num(sg, lsb) == FromBits(sg, Rev(lsb))
IntOf(s) ==       \* <<1, number>> or <<0>>
  LET w == SkipWs(s)  sign == w # <<>> /\ Head(w) \in {43, 45}  ds == IF sign THEN Tail(w) ELSE w IN
  IF ds = <<>> \/ (\E i \in DOMAIN ds : ~Digit(ds[i])) THEN <<0>>
  ELSE <<1, Nat2Num(IF sign /\ Head(w) = 45 THEN -1 ELSE 1, FromDec(ds, <<>>))>>
First(s, c) == IF \E i \in DOMAIN s : s[i] = c THEN CHOOSE i \in DOMAIN s : s[i] = c /\ \A j \in 1..(i - 1) : s[j] # c ELSE 0
RECURSIVE DecInt(_, _)
DecInt(ds, acc) == IF ds = <<>> THEN acc ELSE DecInt(Tail(ds), acc * 10 + (Head(ds) - 48))
(* a decimal number written exactly: x is what it means exactly when x = digits * 10^(exponent - fraction digits) *)
FloatIs(s, x) ==
  LET w == SkipWs(s)  neg == Head(w) = 45  u == IF Head(w) \in {43, 45} THEN Tail(w) ELSE w
      ep == First(u, 101)  m == IF ep = 0 THEN u ELSE SubSeq(u, 1, ep - 1)
      ex == IF ep = 0 THEN 0 ELSE LET q == SubSeq(u, ep + 1, Len(u)) IN (IF Head(q) = 45 THEN -1 ELSE 1) * DecInt(IF Head(q) \in {43, 45} THEN Tail(q) ELSE q, 0)
      pt == First(m, 46)  ip == IF pt = 0 THEN m ELSE SubSeq(m, 1, pt - 1)  fr == IF pt = 0 THEN <<>> ELSE SubSeq(m, pt + 1, Len(m))
      D == Nat2Num(IF neg THEN -1 ELSE 1, FromDec(ip \o fr, <<>>))  k == ex - Len(fr)
      \* multiply by ten k times, exactly: digits of the number as an integer, its last binary place kept aside
      Mul(n, j) == IF n = Zero THEN Zero
                   ELSE LET b == Bits(n)  low == n[2] - (Len(b) - 1)  p == Nat2Num(n[1], Tens(Rev(b), j)) IN <<p[1], p[2] + low>> \o Bits(p)
  IN IF k < 0 THEN Mul(x, -k) = D ELSE x = Mul(D, k)
ParseOk(t, s, rt, x) ==
  CASE t = String -> rt = String /\ x = s
    [] t = Bool   -> rt = Bool /\ x = <<IF s[1] \in {84, 116} THEN 1 ELSE 0>>
    [] IsFloat(t) -> rt = t /\ FloatIs(s, x)
    [] OTHER      -> LET r == IntOf(s) IN IF r[1] = 1 /\ InRange(r[2], t) THEN rt = t /\ x = r[2] ELSE rt = -1
Accept(e) ==
  LET k == e[1] IN
  CASE k = "made"   -> e[4] = e[2] /\ e[5] = e[3] /\ e[6] = (IF e[3] = NaN THEN 1 ELSE 0)
    [] k = "cast"   -> CastOk(e[2], e[3], e[4], e[5], e[6]) /\ e[7] = 0
    [] k = "trans"  -> IF e[2] = e[4] THEN e[5] = e[2] /\ e[6] = e[3] /\ e[7] = 1
                       ELSE LET r == CastN(e[2], e[3], e[4]) IN e[7] = 0 /\ e[5] = (IF r[1] = 1 THEN e[4] ELSE -1) /\ e[6] = r[2]
    [] k = "atrans" -> e[5] = e[4] /\ e[6] = CastAll(e[2], e[3], e[4])
    [] k = "cmp"    -> LET c == CmpExact(e[2], e[3], e[4], e[5])  v == CmpValue(e[2], e[3], e[4], e[5]) IN
                       e[6] = c /\ e[7] = v /\ (e[8] = 1) = (c = 0) /\ (e[9] = 1) = (v = 0) /\ (c = 0 => e[10] = 1)
    [] k = "parse"  -> ParseOk(e[2], e[3], e[4], e[5])
    [] k = "end"    -> TRUE
    [] OTHER        -> FALSE
Init == tid \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(Traces[tid].ev)
        /\ IF ~Accept(Traces[tid].ev[l]) THEN PrintT(<<"REJECT", tid, l>>) /\ l' = 1000000 /\ UNCHANGED tid
           ELSE l' = l + 1 /\ UNCHANGED tid /\ (l < Len(Traces[tid].ev) \/ PrintT(<<"ACCEPT", tid>>))
Spec == Init /\ [][Next]_vars
=============================================================================

-------------------------------- MODULE Cbor --------------------------------
(* CBOR (RFC 8949) items of definite length, read from bytes; and base64 (RFC 4648).                                  *)
(* A meaning is <<"z", neg, digits>>, <<"f", number>>, <<"s", bytes>>, <<"y", bytes>>, <<"a", items>>,                 *)
(* <<"o", <<key, value>> in order>>, <<"b", 0 or 1>> or <<"n">>.  Readers give <<next position, meaning>>, 0 for none. *)
EXTENDS JsonText
RECURSIVE ArgAt(_, _, _, _)
ArgAt(s, i, n, acc) == IF n = 0 THEN acc ELSE ArgAt(s, i + 1, n - 1, MulAdd(acc, 256, s[i]))
RECURSIVE BitsOfByte(_, _)
BitsOfByte(b, k) == IF k = 0 THEN <<>> ELSE BitsOfByte(b \div 2, k - 1) \o <<b % 2>>
RECURSIVE BitsFrom(_, _, _)
BitsFrom(s, i, n) == IF n = 0 THEN <<>> ELSE BitsOfByte(s[i], 8) \o BitsFrom(s, i + 1, n - 1)
(* the number of an IEEE 754 pattern with w exponent bits *)
Ieee(b, w) ==
  LET sg == IF b[1] = 1 THEN -1 ELSE 1  e == BitVal(b, 2, w + 1, 0)  m == SubSeq(b, w + 2, Len(b))  bias == 2 ^ (w - 1) - 1
      top == CHOOSE i \in 1..Len(m) : m[i] = 1 /\ \A j \in 1..(i - 1) : m[j] = 0
  IN IF e = 2 ^ w - 1 THEN (IF \A i \in DOMAIN m : m[i] = 0 THEN <<sg, 99999>> ELSE <<7, 7, 7>>)
     ELSE IF e > 0 THEN <<sg, e - bias, 1>> \o Strip(m)
     ELSE IF \A i \in DOMAIN m : m[i] = 0 THEN Zero ELSE <<sg, 1 - bias - top>> \o Strip(SubSeq(m, top, Len(m)))
SmallNat(a) == IF Len(a) = 0 THEN 0 ELSE IF Len(a) = 1 THEN a[1] ELSE a[1] + Base * a[2]
(* head: <<next, major type, argument>> *)
Head0 == <<0, 0, <<>>>>
HeadAt(s, i) ==
  IF i > Len(s) THEN Head0
  ELSE LET mt == s[i] \div 32  ai == s[i] % 32  n == IF ai < 24 THEN 0 ELSE IF ai <= 27 THEN 2 ^ (ai - 24) ELSE -1 IN
       IF n < 0 \/ i + n > Len(s) THEN Head0 ELSE <<i + 1 + n, mt, IF n = 0 THEN Limbs(ai) ELSE ArgAt(s, i + 1, n, <<>>)>>
RECURSIVE Item(_, _), Items(_, _, _, _), Entries(_, _, _, _)
Item(s, i) ==
  LET h == HeadAt(s, i)  j == h[1]  a == h[3] IN
  IF j = 0 THEN Bad
  ELSE CASE h[2] = 0 -> <<j, <<"z", 0, a>>>>
         [] h[2] = 1 -> <<j, <<"z", 1, MulAdd(a, 1, 1)>>>>
         [] h[2] \in {2, 3} -> (IF Len(a) > 2 THEN Bad ELSE LET n == SmallNat(a) IN IF j + n - 1 > Len(s) THEN Bad ELSE <<j + n, <<IF h[2] = 2 THEN "y" ELSE "s", SubSeq(s, j, j + n - 1)>>>>)
         [] h[2] = 4 -> (IF Len(a) > 2 THEN Bad ELSE Items(s, j, SmallNat(a), <<>>))
         [] h[2] = 5 -> (IF Len(a) > 2 THEN Bad ELSE Entries(s, j, SmallNat(a), <<>>))
         [] h[2] = 7 -> (CASE s[i] % 32 = 20 -> <<j, <<"b", 0>>>> [] s[i] % 32 = 21 -> <<j, <<"b", 1>>>> [] s[i] % 32 = 22 -> <<j, <<"n">>>>
                           [] s[i] % 32 = 25 -> <<j, <<"f", Ieee(BitsFrom(s, i + 1, 2), 5)>>>>
                           [] s[i] % 32 = 26 -> <<j, <<"f", Ieee(BitsFrom(s, i + 1, 4), 8)>>>>
                           [] s[i] % 32 = 27 -> <<j, <<"f", Ieee(BitsFrom(s, i + 1, 8), 11)>>>>
                           [] OTHER -> Bad)
         [] OTHER -> Bad
Items(s, i, n, acc) == IF n = 0 THEN <<i, <<"a", acc>>>> ELSE LET r == Item(s, i) IN IF r[1] = 0 THEN Bad ELSE Items(s, r[1], n - 1, Append(acc, r[2]))
Entries(s, i, n, acc) == IF n = 0 THEN <<i, <<"o", acc>>>>
                         ELSE LET k == Item(s, i) IN IF k[1] = 0 THEN Bad ELSE LET r == Item(s, k[1]) IN IF r[1] = 0 THEN Bad ELSE Entries(s, r[1], n - 1, Append(acc, <<k[2], r[2]>>))
(* the item of meaning d is value v.  dev: negative integers may also be written as if their argument was the magnitude *)
RECURSIVE Encodes(_, _, _)
Encodes(d, v, dev) ==
  CASE v[1] \in {"n", "u"} -> d = <<"n">>
    [] v[1] \in {"b", "s", "y"} -> d = v
    [] v[1] = "i" -> d[1] = "z" /\ (IntIs(d[2], d[3], v[3]) \/ (dev /\ d[2] = 1 /\ IntIs(1, Dec1(d[3]), v[3])))
    [] v[1] = "d" -> d[1] = "f" /\ d[2] = v[3]
    [] v[1] = "a" -> d[1] = "a" /\ Len(d[2]) = Len(v[2]) /\ \A i \in DOMAIN v[2] : Encodes(d[2][i], v[2][i], dev)
    [] v[1] = "o" -> d[1] = "o" /\ Len(d[2]) = Len(v[2]) /\ \A i \in DOMAIN v[2] : \E j \in DOMAIN d[2] : Encodes(d[2][j][1], v[2][i][1], dev) /\ Encodes(d[2][j][2], v[2][i][2], dev)
    [] OTHER -> FALSE
IsCbor(v, s, dev) == LET r == Item(s, 1) IN r[1] = Len(s) + 1 /\ Encodes(r[2], v, dev)
(* ---- base64 *)
Sextet(c) == IF c >= 65 /\ c <= 90 THEN c - 65 ELSE IF c >= 97 /\ c <= 122 THEN c - 71 ELSE IF IsDigit(c) THEN c + 4 ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1
RECURSIVE Upto(_, _, _)
Upto(t, c, i) == IF i > Len(t) \/ t[i] = c THEN i - 1 ELSE Upto(t, c, i + 1)
Body(t) == SelectSeq(SubSeq(t, 1, Upto(t, 61, 1)), LAMBDA c : c # 10)
Rest(t) == SelectSeq(SubSeq(t, Upto(t, 61, 1) + 1, Len(t)), LAMBDA c : c # 10)
Undecodable(t) == LET b == Body(t) IN (\E i \in DOMAIN b : Sextet(b[i]) < 0) \/ Len(b) % 4 = 1
RECURSIVE Octets(_, _)
Octets(b, i) ==
  LET n == Len(b) - i + 1  x(k) == Sextet(b[i + k]) IN
  IF n < 2 THEN <<>>
  ELSE <<x(0) * 4 + x(1) \div 16>> \o (IF n < 3 THEN <<>> ELSE <<(x(1) % 16) * 16 + x(2) \div 4>> \o (IF n < 4 THEN <<>> ELSE <<(x(2) % 4) * 64 + x(3)>> \o Octets(b, i + 4)))
Decoded(t) == Octets(Body(t), 1)
Canonical(t) == ~Undecodable(t) /\ (LET b == Body(t) IN Base64(Octets(b, 1)) = b \o Rest(t))
B64Decode(t, mx, ol, ok, got, bytes) ==
  IF Undecodable(t) THEN ok = 0
  ELSE LET d == Decoded(t) IN
       /\ Len(d) <= mx
       /\ IF Len(d) > ol THEN ok = 0 ELSE (Canonical(t) => ok = 1) /\ (ok = 1 => got = Len(d) /\ bytes = d)
=============================================================================

------------------------------ MODULE JsonText ------------------------------
(* JSON documents (RFC 8259) as byte sequences, what they mean, and their tokens.                                    *)
(* A meaning is <<"n">>, <<"b", 0 or 1>>, <<"z", neg, digits>> (numeral without fraction and exponent),              *)
(* <<"r", neg, digits, k>> (digits * 10^k), <<"s", bytes>>, <<"a", values>> or <<"o", <<key, value>> in order>>.     *)
EXTENDS Dec
White(c) == c \in {9, 10, 13, 32}
RECURSIVE Ws(_, _)
Ws(s, i) == IF i <= Len(s) /\ White(s[i]) THEN Ws(s, i + 1) ELSE i
At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
IsDigit(c) == c >= 48 /\ c <= 57
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1
Hex4(s, i) == IF i + 3 > Len(s) \/ (\E j \in i..(i + 3) : HexVal(s[j]) < 0) THEN -1
              ELSE ((HexVal(s[i]) * 16 + HexVal(s[i + 1])) * 16 + HexVal(s[i + 2])) * 16 + HexVal(s[i + 3])
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Escaped(c) == CASE c = 34 -> 34 [] c = 92 -> 92 [] c = 47 -> 47 [] c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> 0
Bad == <<0, <<>>>>
(* every reader gives <<next position, value>>, next position 0 when the text is not of the form *)
RECURSIVE Str(_, _, _)        \* after the opening quote
Str(s, i, acc) ==
  IF i > Len(s) THEN Bad
  ELSE LET c == s[i] IN
    IF c = 34 THEN <<i + 1, acc>>
    ELSE IF c < 32 THEN Bad
    ELSE IF c # 92 THEN Str(s, i + 1, Append(acc, c))
    ELSE LET n == At(s, i + 1) IN
      IF n = 117 THEN
        LET h == Hex4(s, i + 2) IN
        IF h <= 0 THEN Bad                          \* U+0000 cannot be held
        ELSE IF h < 55296 \/ h > 57343 THEN Str(s, i + 6, acc \o Utf8(h))
        ELSE LET l == IF At(s, i + 6) = 92 /\ At(s, i + 7) = 117 THEN Hex4(s, i + 8) ELSE -1 IN
             IF h > 56319 \/ l < 56320 \/ l > 57343 THEN Bad      \* surrogates that do not form a pair have no meaning
             ELSE Str(s, i + 12, acc \o Utf8(65536 + (h - 55296) * 1024 + (l - 56320)))
      ELSE IF Escaped(n) = 0 THEN Bad ELSE Str(s, i + 2, Append(acc, Escaped(n)))
RECURSIVE SkipDigits(_, _)
SkipDigits(s, i) == IF IsDigit(At(s, i)) THEN SkipDigits(s, i + 1) ELSE i
RECURSIVE ExpVal(_, _, _, _)
ExpVal(s, i, j, acc) == IF i > j THEN acc ELSE ExpVal(s, i + 1, j, IF acc > 99999 THEN acc ELSE acc * 10 + s[i] - 48)
Number(s, i) ==
  LET neg == IF At(s, i) = 45 THEN 1 ELSE 0  a == i + neg  b == SkipDigits(s, a) IN
  IF b = a \/ (s[a] = 48 /\ b > a + 1) THEN Bad
  ELSE LET dot == At(s, b) = 46  c == IF dot THEN SkipDigits(s, b + 1) ELSE b IN
    IF dot /\ c = b + 1 THEN Bad
    ELSE LET ex == At(s, c) \in {101, 69}  sg == ex /\ At(s, c + 1) \in {43, 45}  d == IF ex THEN (IF sg THEN c + 2 ELSE c + 1) ELSE c  f == IF ex THEN SkipDigits(s, d) ELSE c IN
      IF ex /\ f = d THEN Bad
      ELSE IF ~dot /\ ~ex THEN <<b, <<"z", neg, NatDigits(SubSeq(s, a, b - 1), 1, <<>>)>>>>
      ELSE LET ip == SubSeq(s, a, b - 1)  fr == IF dot THEN SubSeq(s, b + 1, c - 1) ELSE <<>>
               x == IF ~ex THEN 0 ELSE (IF At(s, c + 1) = 45 THEN -1 ELSE 1) * ExpVal(s, d, f - 1, 0)
           IN <<f, <<"r", neg, NatDigits(ip \o fr, 1, <<>>), x - Len(fr)>>>>
Word(s, i, w, v) == IF i + Len(w) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(w) - 1) = w THEN <<i + Len(w), v>> ELSE Bad
RECURSIVE Value(_, _), Elems(_, _, _), Pairs(_, _, _)
Value(s, i) ==
  LET c == At(s, i) IN
  CASE c = 123 -> (LET j == Ws(s, i + 1) IN IF At(s, j) = 125 THEN <<j + 1, <<"o", <<>>>>>> ELSE Pairs(s, j, <<>>))
    [] c = 91  -> (LET j == Ws(s, i + 1) IN IF At(s, j) = 93 THEN <<j + 1, <<"a", <<>>>>>> ELSE Elems(s, j, <<>>))
    [] c = 34  -> (LET r == Str(s, i + 1, <<>>) IN IF r[1] = 0 THEN Bad ELSE <<r[1], <<"s", r[2]>>>>)
    [] c = 116 -> Word(s, i, <<116, 114, 117, 101>>, <<"b", 1>>)
    [] c = 102 -> Word(s, i, <<102, 97, 108, 115, 101>>, <<"b", 0>>)
    [] c = 110 -> Word(s, i, <<110, 117, 108, 108>>, <<"n">>)
    [] OTHER   -> Number(s, i)
Elems(s, i, acc) ==
  LET r == Value(s, i) IN
  IF r[1] = 0 THEN Bad
  ELSE LET j == Ws(s, r[1])  a == Append(acc, r[2]) IN
    IF At(s, j) = 44 THEN Elems(s, Ws(s, j + 1), a) ELSE IF At(s, j) = 93 THEN <<j + 1, <<"a", a>>>> ELSE Bad
Pairs(s, i, acc) ==
  IF At(s, i) # 34 THEN Bad
  ELSE LET k == Str(s, i + 1, <<>>) IN
    IF k[1] = 0 THEN Bad
    ELSE LET m == Ws(s, k[1]) IN
      IF At(s, m) # 58 THEN Bad
      ELSE LET r == Value(s, Ws(s, m + 1)) IN
        IF r[1] = 0 THEN Bad
        ELSE LET j == Ws(s, r[1])  a == Append(acc, <<k[2], r[2]>>) IN
          IF At(s, j) = 44 THEN Pairs(s, Ws(s, j + 1), a) ELSE IF At(s, j) = 125 THEN <<j + 1, <<"o", a>>>> ELSE Bad
(* <<1, meaning>> or <<0>> *)
Doc(s) == LET r == Value(s, Ws(s, 1)) IN IF r[1] # 0 /\ Ws(s, r[1]) = Len(s) + 1 THEN <<1, r[2]>> ELSE <<0>>
(* texts that no reading saves: brackets that do not match, an unfinished string, object or array, an escape that is none, a byte *)
(* that belongs to no word.  Texts with anything else out of place, and what follows a finished object or array, are not judged.  *)
RECURSIVE BrokenStr(_, _), BrokenFrom(_, _, _), BareEnd(_, _)
BrokenStr(s, i) ==            \* 0: broken; otherwise the position after the closing quote
  IF i > Len(s) THEN 0 ELSE IF s[i] = 34 THEN i + 1 ELSE IF s[i] # 92 THEN BrokenStr(s, i + 1)
  ELSE IF At(s, i + 1) = 117 THEN (IF Hex4(s, i + 2) < 0 THEN 0 ELSE BrokenStr(s, i + 6)) ELSE IF Escaped(At(s, i + 1)) = 0 THEN 0 ELSE BrokenStr(s, i + 2)
BareEnd(s, i) == IF i > Len(s) \/ White(s[i]) \/ s[i] \in {44, 58, 93, 125} THEN i ELSE BareEnd(s, i + 1)
BareByte(c) == IsDigit(c) \/ c \in 65..90 \/ c \in 97..122 \/ c \in {43, 45, 46}
BrokenFrom(s, i, stack) ==
  IF i > Len(s) THEN stack # <<>>
  ELSE LET c == s[i] IN
  IF White(c) \/ c \in {44, 58} THEN BrokenFrom(s, i + 1, stack)
  ELSE IF c \in {123, 91} THEN BrokenFrom(s, i + 1, <<c + 2>> \o stack)
  ELSE IF c \in {125, 93} THEN (IF stack = <<>> \/ Head(stack) # c THEN TRUE ELSE IF Len(stack) = 1 THEN FALSE ELSE BrokenFrom(s, i + 1, Tail(stack)))
  ELSE IF c = 34 THEN LET e == BrokenStr(s, i + 1) IN IF e = 0 THEN TRUE ELSE BrokenFrom(s, e, stack)
  ELSE LET e == BareEnd(s, i)  w == {s[j] : j \in i..(e - 1)} IN
       IF \E b \in w : b < 32 \/ b > 126 THEN \A b \in w : BareByte(b) \/ b < 32 \/ b > 126 ELSE IF \A b \in w : BareByte(b) THEN BrokenFrom(s, e, stack) ELSE FALSE
Broken(s) == BrokenFrom(s, 1, <<>>)
Scalar(v) == v[1] \in {"n", "b", "z", "r"}
(* the last entry with a key counts; its place is that of the first one *)
Keys(o) == {o[i][1] : i \in DOMAIN o}
LastOf(o, k) == CHOOSE i \in DOMAIN o : o[i][1] = k /\ \A j \in (i + 1)..Len(o) : o[j][1] # k
RECURSIVE KeyOrder(_, _, _)
KeyOrder(o, i, acc) == IF i > Len(o) THEN acc ELSE KeyOrder(o, i + 1, IF \E j \in DOMAIN acc : acc[j] = o[i][1] THEN acc ELSE Append(acc, o[i][1]))
RECURSIVE Shape(_)            \* the keys of a document, in order
Shape(v) == CASE v[1] = "o" -> LET ks == KeyOrder(v[2], 1, <<>>) IN <<"o", [i \in DOMAIN ks |-> <<ks[i], Shape(v[2][LastOf(v[2], ks[i])][2])>>]>>
              [] v[1] = "a" -> <<"a", [i \in DOMAIN v[2] |-> Shape(v[2][i])]>>
              [] OTHER -> <<"x">>
RECURSIVE Once(_)             \* no object has a key twice
Once(v) == CASE v[1] = "o" -> (\A i, j \in DOMAIN v[2] : i # j => v[2][i][1] # v[2][j][1]) /\ \A i \in DOMAIN v[2] : Once(v[2][i][2])
             [] v[1] = "a" -> \A i \in DOMAIN v[2] : Once(v[2][i])
             [] OTHER -> TRUE
(* a value of the library: <<"n">>, <<"b", x>>, <<"i", type, number>>, <<"d", type, number>>, <<"s", bytes>>, <<"y", bytes>>,  *)
(* <<"a", values>> (with a third member when it is no vector), <<"o", <<key, value>> ...>>, <<"p", key order, <<key, value>> ...>> (a map with its order); keys are values *)
RECURSIVE Denotes(_, _)       \* v is the value that a document of meaning d has when parsed
Denotes(d, v) ==
  CASE d[1] = "n" -> v = d
    [] d[1] = "b" -> v = d
    [] d[1] = "s" -> v = d
    [] d[1] = "r" -> v[1] = "d" /\ v[2] = Float64 /\ Nearest64(<<d[2], d[3], d[4]>>, v[3])
    [] d[1] = "z" -> LET D == d[3] IN
         IF IF d[2] = 1 THEN CmpNat(D, P63) <= 0 ELSE CmpNat(D, P63) < 0 THEN v[1] = "i" /\ v[2] = Int64 /\ IntIs(d[2], D, v[3])
         ELSE IF d[2] = 0 /\ CmpNat(D, P64) < 0 THEN v[1] = "i" /\ v[2] = UInt64 /\ IntIs(0, D, v[3])
         ELSE v[1] = "d" /\ v[2] = Float64 /\ Nearest64(<<d[2], D, 0>>, v[3])
    [] d[1] = "a" -> v[1] = "a" /\ Len(v[2]) = Len(d[2]) /\ \A i \in DOMAIN v[2] : Denotes(d[2][i], v[2][i])
    [] OTHER -> v[1] = "o" /\ {v[2][i][1] : i \in DOMAIN v[2]} = {<<"s", k>> : k \in Keys(d[2])} /\ Len(v[2]) = Cardinality(Keys(d[2]))
                /\ \A i \in DOMAIN v[2] : Denotes(d[2][LastOf(d[2], v[2][i][1][2])][2], v[2][i][2])
(* ---- output: the document of meaning d says what value v is *)
Dec3(d) == IF d[1] = "z" THEN <<d[2], d[3], 0>> ELSE <<d[2], d[3], d[4]>>
Alphabet == <<65,66,67,68,69,70,71,72,73,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90, 97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122, 48,49,50,51,52,53,54,55,56,57, 43,47>>
B64Group(a, b, c, n) == LET q == <<a \div 4, (a % 4) * 16 + b \div 16, (b % 16) * 4 + c \div 64, c % 64>> IN [i \in 1..4 |-> IF i <= n + 1 THEN Alphabet[q[i] + 1] ELSE 61]
RECURSIVE B64From(_, _)
B64From(b, i) == IF i > Len(b) THEN <<>>
                 ELSE LET n == IF Len(b) - i >= 2 THEN 3 ELSE Len(b) - i + 1 IN B64Group(b[i], IF n > 1 THEN b[i + 1] ELSE 0, IF n > 2 THEN b[i + 2] ELSE 0, n) \o B64From(b, i + 3)
Base64(b) == B64From(b, 1)
NumText(t, bytes) ==          \* text of a number used as a key
  LET r == Number(bytes, 1) IN r[1] = Len(bytes) + 1 /\ (IF t[1] = "i" THEN r[2][1] = "z" /\ IntIs(r[2][2], r[2][3], t[3])
                                                         ELSE IF t[2] = Float32 THEN Nearest32(Dec3(r[2]), t[3]) ELSE Nearest64(Dec3(r[2]), t[3]))
KeyText(k, bytes) == IF k[1] = "s" THEN k[2] = bytes
                     ELSE IF k[1] = "b" THEN bytes = (IF k[2] = 1 THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>)
                     ELSE k[1] \in {"i", "d"} /\ NumText(k, bytes)
InOrder(ord, o) == SelectSeq(ord, LAMBDA k : \E i \in DOMAIN o : o[i][1] = k)
RECURSIVE Says(_, _)
SaysPairs(d, o) == Len(d) = Len(o) /\ \A i \in DOMAIN o : KeyText(o[i][1], d[i][1]) /\ Says(d[i][2], o[i][2])
Says(d, v) ==
  CASE v[1] \in {"n", "u"} -> d = <<"n">>
    [] v[1] = "b" -> d = v
    [] v[1] = "s" -> d = v
    [] v[1] = "y" -> d = <<"s", Base64(v[2])>>
    [] v[1] = "i" -> d[1] = "z" /\ IntIs(d[2], d[3], v[3])
    [] v[1] = "d" -> d[1] \in {"z", "r"} /\ (IF v[2] = Float32 /\ v[3] # <<-1, 99999>> /\ v[3] # <<1, 99999>> THEN Nearest32(Dec3(d), v[3]) ELSE Nearest64(Dec3(d), v[3]))
    [] v[1] = "a" -> d[1] = "a" /\ Len(d[2]) = Len(v[2]) /\ \A i \in DOMAIN v[2] : Says(d[2][i], v[2][i])
    [] v[1] = "o" -> \* every entry once; their order is free
         d[1] = "o" /\ Len(d[2]) = Len(v[2]) /\ \A i \in DOMAIN v[2] : \E j \in DOMAIN d[2] : KeyText(v[2][i][1], d[2][j][1]) /\ Says(d[2][j][2], v[2][i][2])
    [] v[1] = "p" -> \* exactly the entries named, in the order given
         LET ks == InOrder(v[2], v[3]) IN d[1] = "o" /\ SaysPairs(d[2], [i \in DOMAIN ks |-> v[3][CHOOSE j \in DOMAIN v[3] : v[3][j][1] = ks[i]]])
    [] OTHER -> FALSE
(* values of the types that JSON has come back equal *)
RECURSIVE Survives(_)
Survives(v) == CASE v[1] \in {"n", "b", "s"} -> TRUE
                 [] v[1] = "i" -> v[2] = Int64 \/ (v[2] = UInt64 /\ v[3][1] # 0 /\ v[3][2] = 63)
                 [] v[1] = "d" -> v[2] = Float64 /\ (v[3] = Zero \/ v[3][2] # 99999)
                 [] v[1] = "a" -> Len(v) = 2 /\ \A i \in DOMAIN v[2] : Survives(v[2][i])
                 [] v[1] = "o" -> \A i \in DOMAIN v[2] : v[2][i][1][1] = "s" /\ Survives(v[2][i][2])
                 [] OTHER -> FALSE
(* ---- tokens of a document: <<type, start, end, size, parent>>, positions and token numbers from 0 *)
RECURSIVE EndStr(_, _)        \* position of the closing quote
EndStr(s, i) == IF s[i] = 34 THEN i ELSE IF s[i] = 92 THEN EndStr(s, i + 2) ELSE EndStr(s, i + 1)
RECURSIVE EndPrim(_, _)
EndPrim(s, i) == IF i > Len(s) \/ White(s[i]) \/ s[i] \in {44, 93, 125} THEN i ELSE EndPrim(s, i + 1)
StrTok(s, i, size, parent) == LET e == EndStr(s, i + 1) IN <<IF \E j \in (i + 1)..(e - 1) : s[j] = 92 THEN 4 ELSE 3, i, e - 1, size, parent>>
RECURSIVE TokVal(_, _, _, _), TokElems(_, _, _, _), TokPairs(_, _, _, _)      \* of a valid document: <<next position, tokens>>
TokVal(s, i, parent, ts) ==
  LET c == s[i]  me == Len(ts) IN
  CASE c = 91  -> LET j == Ws(s, i + 1)  t == Append(ts, <<2, i - 1, 0, 0, parent>>) IN
                  IF s[j] = 93 THEN <<j + 1, [t EXCEPT ![me + 1][3] = j]>> ELSE TokElems(s, j, me, t)
    [] c = 123 -> LET j == Ws(s, i + 1)  t == Append(ts, <<1, i - 1, 0, 0, parent>>) IN
                  IF s[j] = 125 THEN <<j + 1, [t EXCEPT ![me + 1][3] = j]>> ELSE TokPairs(s, j, me, t)
    [] c = 34  -> <<EndStr(s, i + 1) + 1, Append(ts, StrTok(s, i, 0, parent))>>
    [] OTHER   -> <<EndPrim(s, i), Append(ts, <<5, i - 1, EndPrim(s, i) - 1, 0, parent>>)>>
TokElems(s, i, me, ts) ==
  LET r == TokVal(s, i, me, ts)  j == Ws(s, r[1])  t == [r[2] EXCEPT ![me + 1][4] = @ + 1] IN
  IF s[j] = 44 THEN TokElems(s, Ws(s, j + 1), me, t) ELSE <<j + 1, [t EXCEPT ![me + 1][3] = j]>>
TokPairs(s, i, me, ts) ==
  LET key == Len(ts)  t1 == Append(ts, StrTok(s, i, 1, me))  m == Ws(s, EndStr(s, i + 1) + 1)
      r == TokVal(s, Ws(s, m + 1), key, t1)  j == Ws(s, r[1])  t == [r[2] EXCEPT ![me + 1][4] = @ + 1] IN
  IF s[j] = 44 THEN TokPairs(s, Ws(s, j + 1), me, t) ELSE <<j + 1, [t EXCEPT ![me + 1][3] = j]>>
Tokens(s) == TokVal(s, Ws(s, 1), -1, <<>>)[2]
=============================================================================

-------------------------------- MODULE Ids --------------------------------
(* Universally unique identifiers, their text, and the hash.  Identifiers and texts are sequences of byte values. *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise
Dash == {9, 14, 19, 24}     \* places of the dashes, counted from one
Digit(c) == c \in 48..57 \/ c \in 97..102 \/ c \in 65..70
IsUuid(s) == Len(s) = 36 /\ \A i \in 1..36 : IF i \in Dash THEN s[i] = 45 ELSE Digit(s[i])
Hex(n) == IF n < 10 THEN 48 + n ELSE 87 + n
RECURSIVE TextFrom(_, _)
TextFrom(b, i) == IF i > 16 THEN <<>> ELSE (IF i \in {5, 7, 9, 11} THEN <<45>> ELSE <<>>) \o <<Hex(b[i] \div 16), Hex(b[i] % 16)>> \o TextFrom(b, i + 1)
Text(b) == TextFrom(b, 1)
Val(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
Strip(s) == SelectSeq(s, LAMBDA c : c # 45)
Bytes(s) == LET d == Strip(s) IN [i \in 1..16 |-> 16 * Val(d[2 * i - 1]) + Val(d[2 * i])]
Random4(b) == Len(b) = 16 /\ b[7] \div 16 = 4 /\ b[9] \div 64 = 2       \* version 4, the variant of RFC 4122
BitOf(b, k) == (b[(k \div 8) + 1] \div (2 ^ (k % 8))) % 2
Fixed == {8 * 6 + j : j \in 4..7} \cup {8 * 8 + j : j \in 6..7}
Distinct(u) == Cardinality({u[i] : i \in DOMAIN u}) = Len(u)
(* every bit that may vary does *)
Varied(u) == \A k \in (0..127) \ Fixed : {BitOf(u[i], k) : i \in DOMAIN u} = {0, 1}
(* h * 33 xor byte, from 538, on 32 bits: as two halves *)
RECURSIVE HashFrom(_, _, _, _)
HashFrom(s, i, hi, lo) == IF i > Len(s) THEN <<hi, lo>> ELSE
  LET x == lo * 33 IN HashFrom(s, i + 1, ((hi * 33) + (x \div 65536)) % 65536, (x % 65536) ^^ s[i])
Hash(s) == HashFrom(s, 1, 0, 538)
=============================================================================

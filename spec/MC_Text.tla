------------------------------- MODULE MC_Text -------------------------------
(* The readers of the specification agree with the writers it gives: a value written in any of the ways allowed is read as that value. *)
EXTENDS Cbor
CONSTANTS Depth, Wide
X == INSTANCE XmlText
Y == INSTANCE YamlText
VARIABLES kind, obj
Strs == {<<>>, <<97>>, <<34, 92>>, <<10>>}
Leaf == {<<"n">>, <<"b", 1>>, <<"z", 0, <<>>>>, <<"z", 1, <<12>>>>, <<"r", 0, <<5>>, -1>>} \union {<<"s", s>> : s \in Strs}
RECURSIVE Trees(_)
Trees(d) == IF d = 0 THEN Leaf
            ELSE LET T0 == Trees(d - 1) IN T0 \union {<<"a", <<>>>>, <<"o", <<>>>>} \union {<<"a", <<x>>>> : x \in T0} \union {<<"o", <<<<s, x>>>>>> : s \in {<<97>>, <<34, 92>>}, x \in T0}
                 \union (IF d < Wide THEN {} ELSE {<<"a", <<x, y>>>> : x \in Leaf, y \in T0} \union {<<"o", <<<<<<97>>, x>>, <<<<98>>, y>>>>>> : x \in Leaf, y \in T0})
(* writers: w is white space put wherever it is allowed, u says whether every character of strings is written as an escape *)
Hex(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Esc(c, u) == IF u THEN <<92, 117, 48, 48, Hex(c \div 16), Hex(c % 16)>> ELSE IF c \in {34, 92} THEN <<92, c>> ELSE IF c = 10 THEN <<92, 110>> ELSE <<c>>
RECURSIVE EscAll(_, _)
EscAll(s, u) == IF s = <<>> THEN <<>> ELSE Esc(Head(s), u) \o EscAll(Tail(s), u)
QStr(s, u) == <<34>> \o EscAll(s, u) \o <<34>>
Num0(v) == (IF v[2] = 1 THEN <<45>> ELSE <<>>) \o (IF v[3] = <<>> THEN <<48>> ELSE IF v[3][1] < 10 THEN <<48 + v[3][1]>> ELSE <<48 + v[3][1] \div 10, 48 + (v[3][1] % 10)>>)
RECURSIVE Shown(_, _, _)
Shown(v, w, u) ==
  w \o (CASE v[1] = "n" -> <<110, 117, 108, 108>> [] v[1] = "b" -> <<116, 114, 117, 101>>
    [] v[1] = "z" -> Num0(v)
    [] v[1] = "r" -> <<48, 46>> \o Num0(v)
    [] v[1] = "s" -> QStr(v[2], u)
    [] v[1] = "a" -> (IF v[2] = <<>> THEN <<91>> \o w \o <<93>> ELSE IF Len(v[2]) = 1 THEN <<91>> \o Shown(v[2][1], w, u) \o <<93>> ELSE <<91>> \o Shown(v[2][1], w, u) \o <<44>> \o Shown(v[2][2], w, u) \o <<93>>)
    [] OTHER -> LET P(i) == w \o QStr(v[2][i][1], u) \o w \o <<58>> \o Shown(v[2][i][2], w, u) IN
                (IF v[2] = <<>> THEN <<123>> \o w \o <<125>> ELSE IF Len(v[2]) = 1 THEN <<123>> \o P(1) \o <<125>> ELSE <<123>> \o P(1) \o <<44>> \o P(2) \o <<125>>)) \o w
Write(n, m) == IF n < 24 THEN <<m * 32 + n>> ELSE <<m * 32 + 24, n>>
RECURSIVE WriteCbor(_)
WriteCbor(v) ==
  CASE v[1] = "n" -> <<246>> [] v[1] = "b" -> <<244 + v[2]>>
    [] v[1] = "z" -> LET n == SmallNat(v[3]) IN IF v[2] = 1 THEN Write(n - 1, 1) ELSE Write(n, 0)
    [] v[1] = "s" -> Write(Len(v[2]), 3) \o v[2]
    [] v[1] = "a" -> Write(Len(v[2]), 4) \o (IF v[2] = <<>> THEN <<>> ELSE IF Len(v[2]) = 1 THEN WriteCbor(v[2][1]) ELSE WriteCbor(v[2][1]) \o WriteCbor(v[2][2]))
    [] v[1] = "o" -> LET P(i) == Write(Len(v[2][i][1]), 3) \o v[2][i][1] \o WriteCbor(v[2][i][2]) IN Write(Len(v[2]), 5) \o (IF v[2] = <<>> THEN <<>> ELSE IF Len(v[2]) = 1 THEN P(1) ELSE P(1) \o P(2))
    [] OTHER -> <<249, 56, 0>>                          \* one half
RECURSIVE CborOf(_)                                     \* meaning of a tree as CBOR
CborOf(v) == CASE v[1] = "r" -> <<"f", <<1, -1, 1>>>>
               [] v[1] = "a" -> <<"a", [i \in DOMAIN v[2] |-> CborOf(v[2][i])]>>
               [] v[1] = "o" -> <<"o", [i \in DOMAIN v[2] |-> <<<<"s", v[2][i][1]>>, CborOf(v[2][i][2])>>]>>
               [] OTHER -> v
(* a small binary format: 3 digits, exponents -2 .. 2 *)
Small == {<<0, 0>>} \union {x \in {Norm(sg, e, Strip(b)) : sg \in {1, -1}, e \in -4..2, b \in {<<1, i, j>> : i \in 0..1, j \in 0..1}} : x[2] - (Len(x) - 3) >= -4} \union {<<1, 99999>>, <<-1, 99999>>}
Bytes == {0, 1, 65, 128, 255}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Docs == {<<t, w, u>> : t \in Trees(Depth), w \in {<<>>, <<32, 10>>}, u \in BOOLEAN}
Init == \/ kind = "tree" /\ obj \in Docs
        \/ kind = "num" /\ obj \in {<<n, d, k>> : n \in {0, 1}, d \in 0..99, k \in -2..1}
        \/ kind = "b64" /\ obj \in Seqs(Bytes, 4)
Next == UNCHANGED <<kind, obj>>
Spec == Init /\ [][Next]_<<kind, obj>>
RECURSIVE Nested(_, _)
Nested(t, i) == i > Len(t) \/ (/\ t[i][2] <= t[i][3] /\ t[i][5] < i - 1
                               /\ (t[i][5] >= 0 => LET p == t[t[i][5] + 1] IN (p[1] \in {1, 2} => p[2] < t[i][2] /\ t[i][3] < p[3]) /\ (p[1] \in {3, 4} => p[3] < t[i][2]))
                               /\ t[i][4] = Cardinality({j \in DOMAIN t : t[j][5] = i - 1})
                               /\ Nested(t, i + 1))
TreeOk == kind = "tree" => LET t == Shown(obj[1], obj[2], obj[3])  d == Doc(t) IN
  /\ d = <<1, obj[1]>>
  /\ (obj[1][1] \in {"a", "o", "s"} => \A n \in 0..(Len(t) - Len(obj[2]) - 1) : Doc(SubSeq(t, 1, n))[1] = 0)       \* no beginning of it is a document
  /\ Nested(Tokens(t), 1)
  /\ (~obj[3] /\ obj[2] = <<>> => LET c == WriteCbor(obj[1]) IN Item(c, 1) = <<Len(c) + 1, CborOf(obj[1])>>
                                  /\ \A n \in 0..(Len(c) - 1) : Item(SubSeq(c, 1, n), 1)[1] = 0)
NumOk == kind = "num" => Cardinality({x \in Small : NearestIn(<<obj[1], Limbs(obj[2]), obj[3]>>, x, 3, -2, 2)}) = 1
B64Ok == kind = "b64" => LET t == Base64(obj) IN Decoded(t) = obj /\ Canonical(t) /\ Len(t) = 4 * ((Len(obj) + 2) \div 3)
=============================================================================

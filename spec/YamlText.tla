------------------------------ MODULE YamlText ------------------------------
(* YAML documents of a plain subset (block and flow collections, plain and quoted scalars on one line, anchors and aliases, *)
(* comments) and their values.  Meanings are those of JsonText, and <<"?">> where nothing is said.                          *)
(* Readers give <<next, meaning, anchors>>; <<0>>: beyond the subset; <<-1>>: surely not a YAML document.                    *)
EXTENDS JsonText
No == <<0>>
Ill == <<-1>>
RECURSIVE Spaces(_, _)
Spaces(s, i) == IF At(s, i) = 32 THEN Spaces(s, i + 1) ELSE i
RECURSIVE SplitAt(_, _, _, _)
SplitAt(s, i, from, acc) == IF i > Len(s) THEN (IF from <= Len(s) THEN Append(acc, SubSeq(s, from, Len(s))) ELSE acc)
                            ELSE IF s[i] = 10 THEN SplitAt(s, i + 1, i + 1, Append(acc, SubSeq(s, from, i - 1))) ELSE SplitAt(s, i + 1, from, acc)
Ink(x) == LET i == Spaces(x, 1) IN i <= Len(x) /\ x[i] # 35
(* lines with something on them: <<indent, text>> *)
LinesOf(s) == LET ls == SelectSeq(SplitAt(s, 1, 1, <<>>), Ink) IN [k \in DOMAIN ls |-> LET i == Spaces(ls[k], 1) IN <<i - 1, SubSeq(ls[k], i, Len(ls[k]))>>]
Letter(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
T(x) == CASE x = "true" -> <<116, 114, 117, 101>> [] x = "false" -> <<102, 97, 108, 115, 101>> [] OTHER -> <<110, 117, 108, 108>>
RECURSIVE NatHex(_, _, _, _)
NatHex(b, i, base, acc) == IF i > Len(b) THEN acc ELSE NatHex(b, i + 1, base, MulAdd(acc, base, HexVal(b[i])))
(* the meaning of a plain scalar *)
Resolve(b) ==
  LET neg == IF b[1] = 45 THEN 1 ELSE 0  d == SubSeq(b, 1 + neg, Len(b))  e == SkipDigits(d, 1) IN
  IF b = T("true") THEN <<"b", 1>> ELSE IF b = T("false") THEN <<"b", 0>> ELSE IF b = T("null") THEN <<"n">>
  ELSE IF d = <<>> \/ b = <<126>> \/ b[1] \in {43, 46} THEN <<"?">>
  ELSE IF ~IsDigit(d[1]) THEN (IF d[1] \in {73, 105, 78, 110, 46, 43} /\ b \notin {} THEN (IF Letter(b[1]) /\ \E c \in {32, 45, 49, 58} : \E i \in DOMAIN b : b[i] = c THEN <<"s", b>> ELSE <<"?">>) ELSE <<"s", b>>)     \* inf, nan
  ELSE IF d[1] = 48 /\ Len(d) > 1 /\ d[2] \in {88, 120} THEN (IF Len(d) > 2 /\ (\A i \in 3..Len(d) : HexVal(d[i]) >= 0) THEN <<"z", neg, NatHex(d, 3, 16, <<>>)>> ELSE <<"?">>)
  ELSE IF e > Len(d) THEN (IF d[1] = 48 /\ Len(d) > 1 THEN (IF \A i \in DOMAIN d : d[i] < 56 THEN <<"z", neg, NatHex(d, 1, 8, <<>>)>> ELSE <<"?">>) ELSE <<"z", neg, NatDigits(d, 1, <<>>)>>)
  ELSE LET dot == d[e] = 46  c == IF dot THEN SkipDigits(d, e + 1) ELSE e  ex == At(d, c) \in {101, 69}
           g == IF ex /\ At(d, c + 1) \in {43, 45} THEN c + 2 ELSE c + 1  f == IF ex THEN SkipDigits(d, g) ELSE c IN
       IF (ex /\ f = g) \/ f <= Len(d) THEN <<"s", b>>
       ELSE LET fr == IF dot THEN SubSeq(d, e + 1, c - 1) ELSE <<>>  x == IF ex THEN (IF d[c + 1] = 45 THEN -1 ELSE 1) * ExpVal(d, g, f - 1, 0) ELSE 0
            IN <<"r", neg, NatDigits(SubSeq(d, 1, e - 1) \o fr, 1, <<>>), x - Len(fr)>>
RECURSIVE HexN(_, _, _, _)
HexN(s, i, n, acc) == IF n = 0 THEN acc ELSE IF HexVal(At(s, i)) < 0 \/ acc > 16777215 THEN -1 ELSE HexN(s, i + 1, n - 1, acc * 16 + HexVal(s[i]))
YEsc(c) == CASE c = 110 -> 10 [] c = 116 -> 9 [] c = 34 -> 34 [] c = 92 -> 92 [] c = 47 -> 47 [] c = 114 -> 13 [] c = 98 -> 8 [] OTHER -> 0
(* quoted scalars, after the quote, on one line: <<next, bytes>>; next -2: the line ends before the scalar does *)
RECURSIVE DQ(_, _, _), SQ(_, _, _)
DQ(s, i, acc) ==
  IF i > Len(s) THEN <<-2>>
  ELSE LET c == s[i] IN
    IF c = 34 THEN <<i + 1, acc>>
    ELSE IF c # 92 THEN DQ(s, i + 1, Append(acc, c))
    ELSE LET n == At(s, i + 1)  w == IF n = 120 THEN 2 ELSE IF n = 117 THEN 4 ELSE IF n = 85 THEN 8 ELSE 0 IN
      IF w > 0 THEN (LET h == HexN(s, i + 2, w, 0) IN IF h <= 0 \/ (h >= 55296 /\ h <= 57343) \/ h > 1114111 THEN No ELSE DQ(s, i + 2 + w, acc \o Utf8(h)))
      ELSE IF YEsc(n) = 0 THEN No ELSE DQ(s, i + 2, Append(acc, YEsc(n)))
SQ(s, i, acc) == IF i > Len(s) THEN <<-2>> ELSE IF s[i] # 39 THEN SQ(s, i + 1, Append(acc, s[i])) ELSE IF At(s, i + 1) = 39 THEN SQ(s, i + 2, Append(acc, 39)) ELSE <<i + 1, acc>>
PlainStart(s, i) == LET c == At(s, i) IN Letter(c) \/ IsDigit(c) \/ c \in {95, 126, 46, 43, 40, 47, 59} \/ (c = 45 /\ (Letter(At(s, i + 1)) \/ IsDigit(At(s, i + 1))))
(* end of a plain scalar (with the space after it) *)
RECURSIVE PlainEnd(_, _, _)
PlainEnd(s, i, flow) == IF i > Len(s) THEN i
                        ELSE IF s[i] = 58 /\ At(s, i + 1) \in {0, 32} THEN i
                        ELSE IF flow /\ s[i] \in {44, 58, 63, 91, 93, 123, 125} THEN i
                        ELSE IF s[i] = 35 /\ s[i - 1] = 32 THEN i ELSE PlainEnd(s, i + 1, flow)
RECURSIVE TrimEnd(_)
TrimEnd(b) == IF b # <<>> /\ b[Len(b)] = 32 THEN TrimEnd(SubSeq(b, 1, Len(b) - 1)) ELSE b
WordEnd(s, i) == LET RECURSIVE F(_)
                     F(k) == IF Letter(At(s, k)) \/ IsDigit(At(s, k)) THEN F(k + 1) ELSE k IN F(i)
Known(env, n) == \E k \in DOMAIN env : env[k][1] = n
Value0(env, n) == env[CHOOSE k \in DOMAIN env : env[k][1] = n /\ \A j \in (k + 1)..Len(env) : env[j][1] # n][2]
(* a key in braces: <<next, bytes, anchors>> *)
FKey(s, i, env) ==
  LET c == At(s, i)  an == c = 38  e == WordEnd(s, i + 1)  n == SubSeq(s, i + 1, e - 1)  b == IF an THEN Spaces(s, e) ELSE i  d == At(s, b) IN
  IF an /\ (e = i + 1 \/ At(s, e) # 32 \/ d \in {0, 38, 42}) THEN No
  ELSE IF c = 42 THEN (IF e = i + 1 \/ At(s, e) # 32 \/ ~Known(env, n) THEN No ELSE IF Value0(env, n)[1] # "s" THEN No ELSE <<e, Value0(env, n)[2], env>>)
  ELSE LET k == IF d = 34 THEN DQ(s, b + 1, <<>>) ELSE IF d = 39 THEN SQ(s, b + 1, <<>>) ELSE IF PlainStart(s, b) THEN (LET f == PlainEnd(s, b, TRUE) IN <<f, TrimEnd(SubSeq(s, b, f - 1))>>) ELSE IF b > Len(s) THEN <<-2>> ELSE No IN
       IF k[1] <= 0 THEN k ELSE <<k[1], k[2], IF an THEN Append(env, <<n, <<"s", k[2]>>>>) ELSE env>>
(* a node on one line.  last: no other line follows *)
RECURSIVE Flow(_, _, _, _, _), FlowSeq(_, _, _, _, _), FlowMap(_, _, _, _, _)
Short(last) == IF last THEN Ill ELSE No       \* a collection or quote goes on beyond the line
Flow(s, i, flow, env, last) ==
  LET c == At(s, i) IN
  IF i > Len(s) THEN Short(last)
  ELSE IF c = 42 THEN (LET e == WordEnd(s, i + 1)  n == SubSeq(s, i + 1, e - 1) IN
         IF e = i + 1 \/ At(s, e) \notin {0, 32} THEN No ELSE IF ~Known(env, n) THEN Ill ELSE <<e, Value0(env, n), env>>)
  ELSE IF c = 38 THEN (LET e == WordEnd(s, i + 1)  n == SubSeq(s, i + 1, e - 1)  j == Spaces(s, e) IN
         IF e = i + 1 \/ At(s, e) # 32 \/ At(s, j) \in {0, 35, 38, 42, 44, 93, 125} THEN No
         ELSE LET r == Flow(s, j, flow, env, last) IN IF r[1] <= 0 THEN r ELSE <<r[1], r[2], Append(r[3], <<n, r[2]>>)>>)
  ELSE IF c = 91 THEN (LET j == Spaces(s, i + 1) IN IF At(s, j) = 93 THEN <<j + 1, <<"a", <<>>>>, env>> ELSE FlowSeq(s, j, <<>>, env, last))
  ELSE IF c = 123 THEN (LET j == Spaces(s, i + 1) IN IF At(s, j) = 125 THEN <<j + 1, <<"o", <<>>>>, env>> ELSE FlowMap(s, j, <<>>, env, last))
  ELSE IF c \in {34, 39} THEN (LET r == IF c = 34 THEN DQ(s, i + 1, <<>>) ELSE SQ(s, i + 1, <<>>) IN IF r[1] = -2 THEN Short(last) ELSE IF r[1] = 0 THEN No ELSE <<r[1], <<"s", r[2]>>, env>>)
  ELSE IF ~PlainStart(s, i) THEN No
  ELSE LET e == PlainEnd(s, i, flow) IN IF At(s, e) \in {58, 63, 91, 123} THEN No ELSE <<e, Resolve(TrimEnd(SubSeq(s, i, e - 1))), env>>
FlowSeq(s, i, acc, env, last) ==
  LET r == Flow(s, i, TRUE, env, last) IN
  IF r[1] <= 0 THEN r
  ELSE LET j == Spaces(s, r[1])  a == Append(acc, r[2]) IN
    IF j > Len(s) THEN Short(last)
    ELSE IF s[j] = 44 THEN FlowSeq(s, Spaces(s, j + 1), a, r[3], last) ELSE IF s[j] = 93 THEN <<j + 1, <<"a", a>>, r[3]>> ELSE No
FlowMap(s, i, acc, env, last) ==
  LET k == FKey(s, i, env) IN
  IF k[1] = -2 THEN Short(last) ELSE IF k[1] <= 0 THEN No
  ELSE LET m == Spaces(s, k[1]) IN
    IF m > Len(s) THEN Short(last)
    ELSE IF s[m] # 58 \/ At(s, m + 1) \notin {0, 32} \/ (\E x \in DOMAIN acc : acc[x][1] = k[2]) THEN No
    ELSE LET v == Spaces(s, m + 1) IN
      IF At(s, v) \in {44, 125} THEN No
      ELSE LET r == Flow(s, v, TRUE, k[3], last) IN
        IF r[1] <= 0 THEN r
        ELSE LET j == Spaces(s, r[1])  a == Append(acc, <<k[2], r[2]>>) IN
          IF j > Len(s) THEN Short(last)
          ELSE IF s[j] = 44 THEN FlowMap(s, Spaces(s, j + 1), a, r[3], last) ELSE IF s[j] = 125 THEN <<j + 1, <<"o", a>>, r[3]>> ELSE No
(* nothing but a comment after a node *)
Clear(s, i) == LET j == Spaces(s, i) IN j > Len(s) \/ (s[j] = 35 /\ (j > i \/ s[j - 1] = 32))
(* the key a line begins with, with an anchor perhaps, or an alias of a string: <<next (the colon), bytes, anchors>> or none *)
RECURSIVE KeyOn(_, _)
KeyOn(x, env) ==
  LET c == x[1]  e == WordEnd(x, 2)  n == SubSeq(x, 2, e - 1)  j == Spaces(x, e) IN
  IF c = 42 THEN (IF e = 2 \/ At(x, e) # 32 \/ At(x, j) # 58 \/ At(x, j + 1) \notin {0, 32} \/ ~Known(env, n) THEN No ELSE IF Value0(env, n)[1] # "s" THEN No ELSE <<j, Value0(env, n)[2], env>>)
  ELSE IF c = 38 THEN (IF e = 2 \/ At(x, e) # 32 \/ At(x, j) \in {0, 38, 42} THEN No
                       ELSE LET k == KeyOn(SubSeq(x, j, Len(x)), env) IN IF k[1] <= 0 THEN No ELSE <<k[1] + j - 1, k[2], Append(env, <<n, <<"s", k[2]>>>>)>>)
  ELSE LET k == IF c = 34 THEN DQ(x, 2, <<>>) ELSE IF c = 39 THEN SQ(x, 2, <<>>) ELSE IF PlainStart(x, 1) THEN (LET f == PlainEnd(x, 1, FALSE) IN <<f, TrimEnd(SubSeq(x, 1, f - 1))>>) ELSE No IN
       IF k[1] <= 0 THEN No ELSE LET m == IF c \in {34, 39} THEN Spaces(x, k[1]) ELSE k[1] IN IF At(x, m) = 58 /\ At(x, m + 1) \in {0, 32} THEN <<m, k[2], env>> ELSE No
Dash(x) == x[1] = 45 /\ At(x, 2) \in {0, 32}
IndentAt(L, i) == IF i <= Len(L) THEN L[i][1] ELSE -1
RECURSIVE Block(_, _, _), Seq0(_, _, _, _, _), Map0(_, _, _, _, _), Value1(_, _, _, _, _)
(* the node that begins on line i: <<next line, meaning, anchors>> *)
Block(L, i, env) ==
  LET x == L[i][2] IN
  IF Dash(x) THEN Seq0(L, i, L[i][1], <<>>, env)
  ELSE IF KeyOn(x, env)[1] > 0 THEN Map0(L, i, L[i][1], <<>>, env)
  ELSE LET r == Flow(x, 1, FALSE, env, i = Len(L)) IN IF r[1] <= 0 THEN r ELSE IF Clear(x, r[1]) THEN <<i + 1, r[2], r[3]>> ELSE No
(* what stands after "-" or "key:" at position p of line i; ind is the indent of the collection *)
Value1(L, i, p, ind, env) ==
  LET x == L[i][2]  j == Spaces(x, p) IN
  IF j > Len(x) \/ x[j] = 35 THEN (IF IndentAt(L, i + 1) > ind THEN Block(L, i + 1, env) ELSE No)
  ELSE LET e == WordEnd(x, j + 1)  anch == x[j] = 38 /\ e > j + 1 /\ Clear(x, e) IN
    IF anch THEN (IF IndentAt(L, i + 1) > ind THEN (LET r == Block(L, i + 1, env) IN IF r[1] <= 0 THEN r ELSE <<r[1], r[2], Append(r[3], <<SubSeq(x, j + 1, e - 1), r[2]>>)>>) ELSE No)
    ELSE LET r == Flow(x, j, FALSE, env, i = Len(L)) IN IF r[1] <= 0 THEN r ELSE IF Clear(x, r[1]) /\ IndentAt(L, i + 1) <= ind THEN <<i + 1, r[2], r[3]>> ELSE No
Seq0(L, i, ind, acc, env) ==
  LET x == L[i][2]  j == Spaces(x, 2)  rest == SubSeq(x, j, Len(x))
      r == IF rest # <<>> /\ rest[1] # 35 /\ (Dash(rest) \/ KeyOn(rest, env)[1] > 0) THEN Block([L EXCEPT ![i] = <<ind + j - 1, rest>>], i, env) ELSE Value1(L, i, 2, ind, env) IN
  IF r[1] <= 0 THEN r
  ELSE LET a == Append(acc, r[2])  n == r[1] IN
    IF IndentAt(L, n) = ind THEN (IF Dash(L[n][2]) THEN Seq0(L, n, ind, a, r[3]) ELSE No)
    ELSE IF IndentAt(L, n) > ind THEN No ELSE <<n, <<"a", a>>, r[3]>>
Map0(L, i, ind, acc, env) ==
  LET x == L[i][2]  k == KeyOn(x, env) IN
  IF k[1] <= 0 \/ (\E y \in DOMAIN acc : acc[y][1] = k[2]) THEN No
  ELSE LET r == Value1(L, i, k[1] + 1, ind, k[3]) IN
    IF r[1] <= 0 THEN r
    ELSE LET a == Append(acc, <<k[2], r[2]>>)  n == r[1] IN
      IF IndentAt(L, n) = ind THEN Map0(L, n, ind, a, r[3])
      ELSE IF IndentAt(L, n) > ind THEN No ELSE <<n, <<"o", a>>, r[3]>>
Marker(x, c) == x[1] = 0 /\ Len(x[2]) >= 3 /\ SubSeq(x[2], 1, 3) = <<c, c, c>>
Exact(x, c) == x = <<0, <<c, c, c>>>>
YDoc(s) ==
  IF \E i \in DOMAIN s : (s[i] < 32 /\ s[i] # 10) \/ s[i] > 126 THEN No
  ELSE LET a == LinesOf(s)
           b == IF a # <<>> /\ Exact(a[1], 45) THEN Tail(a) ELSE a
           L == IF b # <<>> /\ Exact(b[Len(b)], 46) /\ Len(b) > 1 THEN SubSeq(b, 1, Len(b) - 1) ELSE b IN
       IF L = <<>> \/ (\E i \in DOMAIN L : Marker(L[i], 45) \/ Marker(L[i], 46) \/ (i = 1 /\ L[i][2][1] = 37)) THEN No
       ELSE LET r == Block(L, 1, <<>>) IN IF r[1] <= 0 THEN (IF r = Ill /\ Len(L) # Len(b) THEN No ELSE r) ELSE IF r[1] = Len(L) + 1 THEN <<1, r[2]>> ELSE No
RECURSIVE YDenotes(_, _)
YDenotes(d, v) == CASE d[1] = "?" -> TRUE
                    [] d[1] = "a" -> v[1] = "a" /\ Len(v[2]) = Len(d[2]) /\ \A i \in DOMAIN v[2] : YDenotes(d[2][i], v[2][i])
                    [] d[1] = "o" -> v[1] = "o" /\ Len(v[2]) = Len(d[2]) /\ \A i \in DOMAIN d[2] : \E j \in DOMAIN v[2] : v[2][j][1] = <<"s", d[2][i][1]>> /\ YDenotes(d[2][i][2], v[2][j][2])
                    [] OTHER -> Denotes(d, v)
=============================================================================

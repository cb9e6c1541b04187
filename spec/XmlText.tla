------------------------------ MODULE XmlText ------------------------------
(* XML documents of a plain subset (elements, attributes, text, references, CDATA, comments) and the element trees they have. *)
(* A reader gives <<next position, ...>>; position 0: beyond the subset, nothing is said; position -1: surely not well formed. *)
EXTENDS JsonText
NameStart(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122) \/ c = 95 \/ c = 58
NameChar(c) == NameStart(c) \/ IsDigit(c) \/ c = 45 \/ c = 46
RECURSIVE NameEnd(_, _)
NameEnd(s, i) == IF NameChar(At(s, i)) THEN NameEnd(s, i + 1) ELSE i
RECURSIVE XWs(_, _)
XWs(s, i) == IF White(At(s, i)) THEN XWs(s, i + 1) ELSE i
Here(s, i, w) == i + Len(w) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(w) - 1) = w
RECURSIVE Find(_, _, _)
Find(s, i, w) == IF i > Len(s) THEN 0 ELSE IF Here(s, i, w) THEN i ELSE Find(s, i + 1, w)
No == <<0>>
Ill == <<-1>>
Fail(s, i) == IF At(s, i) > 126 \/ (i <= Len(s) /\ At(s, i) < 32 /\ ~White(At(s, i))) THEN No ELSE Ill      \* no such character is expected here (or the text ends)
Comment == <<60, 33, 45, 45>>
Cdata == <<60, 33, 91, 67, 68, 65, 84, 65, 91>>
Pi == <<60, 63, 112, 105, 32, 115, 111, 109, 101, 63, 62>>
Decls == {<<60,63,120,109,108,32,118,101,114,115,105,111,110,61,34,49,46,48,34,63,62>>,
          <<60,63,120,109,108,32,118,101,114,115,105,111,110,61,39,49,46,48,39,32,101,110,99,111,100,105,110,103,61,39,85,84,70,45,56,39,63,62>>}
IsPrefix(s, i, w) == Len(s) - i + 1 < Len(w) /\ SubSeq(s, i, Len(s)) = SubSeq(w, 1, Len(s) - i + 1)       \* the text ends within the word
Clean(s, i, j) == \A k \in i..j : s[k] >= 32 \/ White(s[k])
(* a comment from its start: position after it *)
CommentEnd(s, i) == LET e == Find(s, i + 4, <<45, 45>>) IN IF e = 0 THEN (IF Clean(s, i, Len(s)) THEN -1 ELSE 0) ELSE IF At(s, e + 2) = 62 /\ Clean(s, i, e) THEN e + 3 ELSE IF e + 1 = Len(s) THEN -1 ELSE 0
Entity == [lt |-> <<38, 108, 116, 59>>, gt |-> <<38, 103, 116, 59>>, amp |-> <<38, 97, 109, 112, 59>>, quot |-> <<38, 113, 117, 111, 116, 59>>, apos |-> <<38, 97, 112, 111, 115, 59>>]
RECURSIVE RefVal(_, _, _, _, _)
RefVal(s, i, j, b, acc) == IF i > j THEN acc ELSE RefVal(s, i + 1, j, b, acc * b + HexVal(s[i]))
(* a reference: <<next, bytes>> *)
Ref(s, i) ==
  IF Here(s, i, Entity.lt) THEN <<i + 4, <<60>>>> ELSE IF Here(s, i, Entity.gt) THEN <<i + 4, <<62>>>> ELSE IF Here(s, i, Entity.amp) THEN <<i + 5, <<38>>>>
  ELSE IF Here(s, i, Entity.quot) THEN <<i + 6, <<34>>>> ELSE IF Here(s, i, Entity.apos) THEN <<i + 6, <<39>>>>
  ELSE IF At(s, i + 1) = 35 THEN
    LET hex == At(s, i + 2) = 120  a == IF hex THEN i + 3 ELSE i + 2  e == Find(s, a, <<59>>) IN
    IF e = 0 THEN (IF \A k \in a..Len(s) : HexVal(s[k]) >= 0 /\ Len(s) - a < 6 THEN Ill ELSE No)
    ELSE IF e = a \/ e - a > 7 \/ (hex /\ e - a > 6) \/ (\E k \in a..(e - 1) : HexVal(s[k]) < 0 \/ (~hex /\ ~IsDigit(s[k]))) THEN No
    ELSE LET c == RefVal(s, a, e - 1, IF hex THEN 16 ELSE 10, 0) IN
         IF c = 0 \/ (c >= 55296 /\ c <= 57343) \/ c = 65534 \/ c = 65535 \/ c > 1114111 THEN Ill ELSE IF c < 32 /\ ~White(c) THEN No ELSE <<e + 1, Utf8(c)>>
  ELSE IF NameStart(At(s, i + 1)) THEN Ill            \* no other entity is declared, or the text ends
  ELSE Fail(s, i + 1)
RECURSIVE AttVal(_, _, _, _)
AttVal(s, i, q, acc) ==
  IF i > Len(s) THEN Ill
  ELSE LET c == s[i] IN
    IF c = q THEN <<i + 1, acc>>
    ELSE IF c = 60 THEN Ill
    ELSE IF c = 38 THEN (LET r == Ref(s, i) IN IF r[1] <= 0 THEN r ELSE AttVal(s, r[1], q, acc \o r[2]))
    ELSE IF c < 32 THEN No ELSE AttVal(s, i + 1, q, Append(acc, c))
(* after the name of an element: <<next, attributes, 1 when the element ends here>> *)
RECURSIVE Atts(_, _, _)
Atts(s, i, acc) ==
  LET j == XWs(s, i)  c == At(s, j) IN
  IF c = 62 THEN <<j + 1, acc, 0>>
  ELSE IF c = 47 THEN (IF At(s, j + 1) = 62 THEN <<j + 2, acc, 1>> ELSE Fail(s, j + 1))
  ELSE IF ~NameStart(c) \/ j = i THEN Fail(s, j)
  ELSE LET e == NameEnd(s, j)  m == XWs(s, e)  k == SubSeq(s, j, e - 1) IN
    IF At(s, m) # 61 THEN Fail(s, m)
    ELSE LET n == XWs(s, m + 1) IN
      IF At(s, n) \notin {34, 39} THEN Fail(s, n)
      ELSE LET r == AttVal(s, n + 1, s[n], <<>>) IN
        IF r[1] <= 0 THEN r ELSE IF \E x \in DOMAIN acc : acc[x][1] = k THEN No
        ELSE IF At(s, r[1]) \notin {47, 62} /\ ~White(At(s, r[1])) THEN Fail(s, r[1])
        ELSE Atts(s, r[1], Append(acc, <<k, r[2]>>))
AllWhite(t) == \A i \in DOMAIN t : White(t[i])
(* an element from its '<': <<next, [name, atts, kids, text]>> *)
RECURSIVE Elem(_, _), Inside(_, _, _, _, _, _)
Elem(s, i) ==
  IF ~NameStart(At(s, i + 1)) THEN Fail(s, i + 1)
  ELSE LET e == NameEnd(s, i + 1)  name == SubSeq(s, i + 1, e - 1)  a == Atts(s, e, <<>>) IN
    IF a[1] <= 0 THEN a
    ELSE IF a[3] = 1 THEN <<a[1], [name |-> name, atts |-> a[2], kids |-> <<>>, text |-> <<>>]>>
    ELSE Inside(s, a[1], name, a[2], <<>>, <<>>)
Inside(s, i, name, atts, kids, text) ==
  IF i > Len(s) THEN Ill
  ELSE LET c == s[i] IN
    IF c = 38 THEN (LET r == Ref(s, i) IN IF r[1] <= 0 THEN r ELSE Inside(s, r[1], name, atts, kids, text \o r[2]))
    ELSE IF c = 13 THEN Inside(s, IF At(s, i + 1) = 10 THEN i + 2 ELSE i + 1, name, atts, kids, Append(text, 10))
    ELSE IF c # 60 THEN (IF (c < 32 /\ ~White(c)) \/ Here(s, i, <<93, 93, 62>>) THEN No ELSE Inside(s, i + 1, name, atts, kids, Append(text, c)))
    ELSE LET n == At(s, i + 1) IN
      IF n = 47 THEN
        LET e == NameEnd(s, i + 2)  j == XWs(s, e) IN
        IF SubSeq(s, i + 2, e - 1) # name THEN (IF At(s, e) > 126 THEN No ELSE Ill)
        ELSE IF At(s, j) = 62 THEN <<j + 1, [name |-> name, atts |-> atts, kids |-> kids, text |-> text]>> ELSE Fail(s, j)
      ELSE IF Here(s, i, Comment) THEN (LET e == CommentEnd(s, i) IN IF e <= 0 THEN <<e>> ELSE Inside(s, e, name, atts, kids, text))
      ELSE IF Here(s, i, Cdata) THEN
        LET e == Find(s, i + 9, <<93, 93, 62>>) IN
        IF e = 0 THEN (IF Clean(s, i, Len(s)) THEN Ill ELSE No) ELSE IF ~Clean(s, i, e) \/ (\E k \in (i + 9)..e : s[k] = 13) THEN No ELSE Inside(s, e + 3, name, atts, kids, text \o SubSeq(s, i + 9, e - 1))
      ELSE IF n \in {33, 63} THEN (IF IsPrefix(s, i, Comment) \/ IsPrefix(s, i, Cdata) THEN Ill ELSE No)
      ELSE LET r == Elem(s, i) IN IF r[1] <= 0 THEN r ELSE Inside(s, r[1], name, atts, Append(kids, r[2]), IF AllWhite(text) THEN <<>> ELSE text)     \* space before a child element is not content
RECURSIVE Misc(_, _)          \* position after white space and comments, 0 or -1
Misc(s, i) == LET j == XWs(s, i) IN
  IF Here(s, j, Comment) THEN (LET e == CommentEnd(s, j) IN IF e <= 0 THEN e ELSE Misc(s, e))
  ELSE IF Here(s, j, Pi) THEN Misc(s, j + Len(Pi))
  ELSE IF IsPrefix(s, j, Comment) /\ j <= Len(s) THEN -1
  ELSE IF At(s, j) = 60 /\ At(s, j + 1) \in {33, 63} THEN 0 ELSE j
XDoc(s) ==
  LET b == IF \E w \in Decls : Here(s, 1, w) THEN Len(CHOOSE w \in Decls : Here(s, 1, w)) + 1 ELSE 1
      i == Misc(s, b) IN
  IF i <= 0 THEN <<i>>
  ELSE IF At(s, i) # 60 THEN Fail(s, i)
  ELSE LET r == Elem(s, i) IN
    IF r[1] <= 0 THEN r
    ELSE LET e == Misc(s, r[1]) IN IF e = Len(s) + 1 THEN <<1, r[2]>> ELSE IF e <= 0 THEN <<e>> ELSE Fail(s, e)
KeyOf(b) == <<"s", b>>
Txt == [name |-> <<110, 97, 109, 101>>, attributes |-> <<97, 116, 116, 114, 105, 98, 117, 116, 101, 115>>, children |-> <<99, 104, 105, 108, 100, 114, 101, 110>>, content |-> <<99, 111, 110, 116, 101, 110, 116>>]
Lookup(v, k) == IF \E i \in DOMAIN v[2] : v[2][i][1] = KeyOf(k) THEN v[2][CHOOSE i \in DOMAIN v[2] : v[2][i][1] = KeyOf(k)][2] ELSE <<"none">>
RECURSIVE TreeIs(_, _)
TreeIs(x, v) ==
  /\ v[1] = "o" /\ Len(v[2]) = 2 + (IF x.kids = <<>> THEN 0 ELSE 1) + (IF x.text = <<>> THEN 0 ELSE 1)
  /\ Lookup(v, Txt.name) = <<"s", x.name>>
  /\ LET a == Lookup(v, Txt.attributes) IN a[1] = "o" /\ Len(a[2]) = Len(x.atts) /\ \A i \in DOMAIN x.atts : Lookup(a, x.atts[i][1]) = <<"s", x.atts[i][2]>>
  /\ (x.text # <<>> => Lookup(v, Txt.content) = <<"s", x.text>>)
  /\ (x.kids # <<>> => LET c == Lookup(v, Txt.children) IN c[1] = "a" /\ Len(c[2]) = Len(x.kids) /\ \A i \in DOMAIN x.kids : TreeIs(x.kids[i], c[2][i]))
=============================================================================

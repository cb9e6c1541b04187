-------------------------------- MODULE Data --------------------------------
(* The data API as a heap of reference counted values.                                                              *)
(* A state is [h |-> heap, held |-> references of the caller, tags |-> the <<value, tag>> set]. Object of the heap is                             *)
(*   t type, c constant (never freed), et element type, kt key type, v scalar payload (digits of a number, bytes     *)
(*   of a string/array/binary, <<0>>/<<1>> for a Bool), el elements of a vector (0: none) or of a list (tail to      *)
(*   head), or the buffer a string/array owns, or the target a pointer frees; mp the entries of a map in key order;  *)
(*   me metadata entries.                                                                                            *)
(* An object lives while the caller or a live container refers to it; what stops to live is freed by that very call. *)
EXTENDS Num
Buffer == 30
Obj(a) == [t |-> a[1], c |-> a[2] = 1, et |-> a[3], kt |-> a[4], v |-> a[5], el |-> a[6], mp |-> a[7], me |-> a[8]]
Kids(o) == (Range(o.el) \ {0}) \cup UNION {{p[1], p[2]} : p \in Range(o.mp) \cup Range(o.me)}
RECURSIVE Reach(_, _, _)
Reach(h, done, todo) == IF todo = {} THEN done
                        ELSE Reach(h, done \cup todo, UNION {Kids(h[i]) : i \in todo} \ (done \cup todo))
Roots(s) == {i \in DOMAIN s.h : s.held[i] > 0 \/ s.h[i].c}
Live(s) == Reach(s.h, {}, Roots(s))
Parts(o) == (Range(o.el) \ {0}) \cup UNION {{p[1], p[2]} : p \in Range(o.mp)}
RECURSIVE Below(_, _, _)
Below(h, done, todo) == IF todo = {} THEN done
                        ELSE Below(h, done \cup todo, UNION {Parts(h[i]) : i \in todo} \ (done \cup todo))
Under(h, i) == IF i = 0 THEN {} ELSE Below(h, {}, {i})
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
Count(q, i) == Cardinality({k \in DOMAIN q : q[k] = i})
Counts(o, i) == Count(o.el, i) + Cardinality({k \in DOMAIN o.mp : o.mp[k][1] = i}) + Cardinality({k \in DOMAIN o.mp : o.mp[k][2] = i})
              + Cardinality({k \in DOMAIN o.me : o.me[k][1] = i}) + Cardinality({k \in DOMAIN o.me : o.me[k][2] = i})
RECURSIVE SumOver(_, _, _)
SumOver(h, S, i) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Counts(h[x], i) + SumOver(h, S \ {x}, i)
RefCount(s, i) == s.held[i] + SumOver(s.h, {j \in DOMAIN s.h : i \in Kids(s.h[j])}, i)

Empty(cs) == [h |-> [i \in {cs[k][1] : k \in DOMAIN cs} |-> Obj(cs[CHOOSE k \in DOMAIN cs : cs[k][1] = i][2])],
              held |-> [i \in {cs[k][1] : k \in DOMAIN cs} |-> 0], tags |-> {}]
Has(s, i) == i \in DOMAIN s.h
Held(s, i) == Has(s, i) /\ (s.held[i] > 0 \/ s.h[i].c)
Hold(s, i) == IF i = 0 THEN s ELSE [s EXCEPT !.held[i] = @ + 1]
Drop(s, i) == IF i = 0 \/ s.held[i] = 0 THEN s ELSE [s EXCEPT !.held[i] = @ - 1]
(* new objects: a sequence of <<id, object>> *)
Fresh(s, news) == /\ Cardinality({news[k][1] : k \in DOMAIN news}) = Len(news)
                  /\ \A k \in DOMAIN news : ~Has(s, news[k][1]) /\ news[k][1] > 0
                  /\ \A k \in DOMAIN news : \A j \in Kids(Obj(news[k][2])) : Has(s, j) \/ \E m \in DOMAIN news : news[m][1] = j
NewIds(news) == {news[k][1] : k \in DOMAIN news}
Absorb(s, news) == IF news = <<>> THEN s
                   ELSE [h |-> [i \in NewIds(news) |-> Obj(news[CHOOSE k \in DOMAIN news : news[k][1] = i][2])] @@ s.h,
                         held |-> [i \in NewIds(news) |-> 0] @@ s.held, tags |-> s.tags]
Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Before(q, i, x) == SubSeq(q, 1, i - 1) \o <<x>> \o SubSeq(q, i, Len(q))
B(b) == IF b THEN 1 ELSE 0

(* ---------------------------------------------------------------- equality and order *)
RECURSIVE SEq(_, _, _, _)
SEq(h, a, b, val) ==
  IF a = b THEN TRUE ELSE IF a = 0 \/ b = 0 THEN FALSE
  ELSE LET x == h[a]  y == h[b] IN
    IF x.t # y.t THEN val /\ ((IsInt(x.t) /\ IsInt(y.t)) \/ (IsFloat(x.t) /\ IsFloat(y.t))) /\ x.v = y.v
    ELSE IF x.t <= Null THEN x.v = y.v
    ELSE IF x.t \in {Binary, Array} THEN x.et = y.et /\ x.v = y.v
    ELSE IF x.t \in {Vector, List} THEN Len(x.el) = Len(y.el) /\ \A i \in DOMAIN x.el : SEq(h, x.el[i], y.el[i], val)
    ELSE Len(x.mp) = Len(y.mp) /\ \A i \in DOMAIN x.mp : SEq(h, x.mp[i][1], y.mp[i][1], val) /\ SEq(h, x.mp[i][2], y.mp[i][2], val)
(* order of the scalar values x, y (objects): -1, 0, 1; pointers are not ordered by the specification *)
SCmp(x, y) ==
  IF x.t # y.t THEN Sgn(x.t - y.t)
  ELSE IF IsNum(x.t) THEN NumCmp(x.v, y.v)
  ELSE IF x.t = Bool THEN Sgn(x.v[1] - y.v[1])
  ELSE IF x.t \in {Binary, Array} THEN
     LET lx == Len(x.v) \div Size(x.et)  ly == Len(y.v) \div Size(y.et) IN
     IF lx # ly THEN Sgn(lx - ly) ELSE IF x.et # y.et THEN Sgn(x.et - y.et) ELSE Lex(x.v, y.v)
  ELSE Lex(x.v, y.v)
SCmpVal(x, y) == IF (IsInt(x.t) /\ IsInt(y.t)) \/ (IsFloat(x.t) /\ IsFloat(y.t)) THEN NumCmp(x.v, y.v) ELSE SCmp(x, y)
Scalar(o) == o.t <= Array /\ o.t # Pointer
CmpOk(h, a, b, val, c) ==      \* c may be the result of comparing a with b
  /\ (c = 0) <=> SEq(h, a, b, val)
  /\ (a = 0 /\ b # 0) => c = -1
  /\ (b = 0 /\ a # 0) => c = 1
  /\ (a # 0 /\ b # 0) => LET x == h[a]  y == h[b] IN
        /\ (Scalar(x) /\ Scalar(y)) => c = (IF val THEN SCmpVal(x, y) ELSE SCmp(x, y))
        /\ (x.t # y.t /\ ~(val /\ IsNum(x.t) /\ IsNum(y.t))) => c = Sgn(x.t - y.t)

(* ---------------------------------------------------------------- maps *)
(* position of a key in the entries m, 0 when there is none *)
Find(h, m, ko) == LET S == {i \in DOMAIN m : h[m[i][1]].t = ko.t /\ h[m[i][1]].v = ko.v /\ (ko.t \in {Binary, Array} => h[m[i][1]].et = ko.et)}
                  IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
Place(h, m, ko) == 1 + Cardinality({i \in DOMAIN m : SCmp(h[m[i][1]], ko) < 0})
Sorted(h, m) == \A i \in 1..(Len(m) - 1) : SCmp(h[m[i][1]], h[m[i + 1][1]]) < 0
PutEntry(h, m, k, v) == LET i == Find(h, m, h[k]) IN
                        IF i > 0 THEN [m EXCEPT ![i][2] = v] ELSE Before(m, Place(h, m, h[k]), <<k, v>>)
RECURSIVE PutAll(_, _, _)
PutAll(h, m, es) == IF es = <<>> THEN m ELSE PutAll(h, PutEntry(h, m, es[1][1], es[1][2]), Tail(es))
KeyOk(s, m, k) == s.h[m].kt = Multi \/ s.h[m].kt = s.h[k].t
Look(s, m, ko) == LET i == Find(s.h, s.h[m].mp, ko) IN IF i = 0 THEN 0 ELSE s.h[m].mp[i][2]

(* ---------------------------------------------------------------- iteration *)
(* A position is 0 (before the first element) or an index; every iterator walks 1..n, prev the other way, and starts over after the end. *)
NextPos(p, n) == IF p < n THEN p + 1 ELSE 0
PrevPos(p, n) == IF p = 0 THEN n ELSE p - 1
(* one iterator call on object d at position p: the set of results [s, p], empty when the observed result is wrong *)
IterOp(s, d, p, o) ==
  LET x == s.h[d]
      map == x.t = Map
      n == IF map THEN Len(x.mp) ELSE IF x.t \in {Array, Binary} THEN Len(x.v) \div Size(x.et) ELSE Len(x.el)
      val == IF p = 0 THEN 0 ELSE IF map THEN x.mp[p][2] ELSE x.el[p]
  IN CASE o[1] = "next" -> IF o[2] = B(NextPos(p, n) > 0) THEN {[s |-> s, p |-> NextPos(p, n)]} ELSE {}
       [] o[1] = "prev" -> IF o[2] = B(PrevPos(p, n) > 0) THEN {[s |-> s, p |-> PrevPos(p, n)]} ELSE {}
       [] o[1] = "has"  -> IF o[2] = B(NextPos(p, n) > 0) THEN {[s |-> s, p |-> p]} ELSE {}
       [] o[1] = "val"  -> IF o[2] = val THEN {[s |-> s, p |-> p]} ELSE {}
       [] o[1] = "key"  -> IF map /\ o[2] = (IF p = 0 THEN 0 ELSE x.mp[p][1]) THEN {[s |-> s, p |-> p]} ELSE {}
       [] o[1] = "idx"  -> IF p > 0 /\ o[2] = p - 1 THEN {[s |-> s, p |-> p]} ELSE {}
       [] o[1] = "bytes" -> IF o[2] = (IF p = 0 THEN <<>> ELSE SubSeq(x.v, (p - 1) * Size(x.et) + 1, p * Size(x.et))) THEN {[s |-> s, p |-> p]} ELSE {}
       [] o[1] = "str"  -> IF o[2] = (IF val = 0 THEN <<>> ELSE <<1>> \o s.h[val].v) THEN {[s |-> s, p |-> p]} ELSE {}
       [] o[1] = "kstr" -> IF map /\ o[2] = (IF p = 0 THEN <<>> ELSE <<1>> \o s.h[x.mp[p][1]].v) THEN {[s |-> s, p |-> p]} ELSE {}
       [] o[1] = "ptr"  -> IF o[2] = (IF val = 0 THEN <<>> ELSE s.h[val].v) THEN {[s |-> s, p |-> p]} ELSE {}
       [] o[1] = "bool" -> IF <<o[2]>> = (IF val = 0 THEN <<0>> ELSE s.h[val].v) THEN {[s |-> s, p |-> p]} ELSE {}
       [] o[1] = "rep"  -> \* o[2] new value, o[3] what is given back
            IF o[3] # val THEN {}
            ELSE IF p = 0 \/ (val = 0 /\ x.t # Vector) THEN {[s |-> s, p |-> p]}
            ELSE LET s1 == Drop(s, o[2])
                     s2 == IF map THEN [s1 EXCEPT !.h[d].mp[p][2] = o[2]] ELSE [s1 EXCEPT !.h[d].el[p] = o[2]]
                 IN {[s |-> Hold(s2, val), p |-> p]}
       [] o[1] = "rem"  -> IF o[2] # B(p > 0) THEN {}
                           ELSE IF p = 0 THEN {[s |-> s, p |-> p]}
                           ELSE {[s |-> [s EXCEPT !.h[d].el = Without(@, p)], p |-> p - 1]}
       [] OTHER -> {}
RECURSIVE IterRun(_, _, _, _)
IterRun(s, d, p, script) == IF script = <<>> THEN {s}
                            ELSE UNION {IterRun(r.s, d, r.p, Tail(script)) : r \in IterOp(s, d, p, Head(script))}

(* ---------------------------------------------------------------- vectors *)
NotNull(q) == SelectSeq(q, LAMBDA x : x # 0)
RECURSIVE Flat(_, _, _)
Flat(h, q, rec) == IF q = <<>> THEN <<>>
                   ELSE LET x == Head(q)  r == Flat(h, Tail(q), rec) IN
                        IF x = 0 THEN r ELSE IF rec /\ h[x].t = Vector THEN Flat(h, h[x].el, rec) \o r ELSE <<x>> \o r
VCount(h, d, t, rec) == LET f == Flat(h, h[d].el, rec) IN IF t = Multi THEN Len(f) ELSE Cardinality({i \in DOMAIN f : h[f[i]].t = t})
RECURSIVE Depth(_, _)
Depth(h, d) == LET q == h[d].el IN
  IF q = <<>> \/ \E i \in DOMAIN q : q[i] = 0 \/ h[q[i]].t # Vector THEN 1
  ELSE LET D == {Depth(h, q[i]) : i \in DOMAIN q} IN IF Cardinality(D) = 1 THEN 1 + CHOOSE x \in D : TRUE ELSE 1
RECURSIVE Level(_, _, _)
Level(h, q, k) == IF k = 1 THEN q ELSE Level(h, Flat(h, q, FALSE), k - 1)     \* unused when k = 1
RECURSIVE Sizes(_, _, _)
Sizes(h, vs, k) ==     \* vs: the vectors of one level; sizes level by level, <<>> followed by a negative number when not all alike
  LET S == {Len(h[vs[i]].el) : i \in DOMAIN vs} IN
  IF Cardinality(S) # 1 THEN <<-1>>
  ELSE IF k = 1 THEN <<CHOOSE x \in S : TRUE>>
  ELSE <<CHOOSE x \in S : TRUE>> \o Sizes(h, Flat(h, [i \in 1..SumTo([j \in DOMAIN vs |-> Len(h[vs[j]].el)], Len(vs)) |->
         LET cum == [j \in 0..Len(vs) |-> SumTo([m \in DOMAIN vs |-> Len(h[vs[m]].el)], j)]
             j == CHOOSE j \in DOMAIN vs : cum[j - 1] < i /\ i <= cum[j]
         IN h[vs[j]].el[i - cum[j - 1]]], FALSE), k - 1)
RECURSIVE Prod(_)
Prod(q) == IF q = <<>> THEN 1 ELSE Head(q) * Prod(Tail(q))
RaggedDepth(h, d) == LET q == h[d].el IN q # <<>> /\ (\A i \in DOMAIN q : q[i] # 0 /\ h[q[i]].t = Vector) /\ Cardinality({Depth(h, q[i]) : i \in DOMAIN q}) > 1
RECURSIVE AnyRagged(_, _)
AnyRagged(h, d) == RaggedDepth(h, d) \/ \E i \in DOMAIN h[d].el : h[d].el[i] # 0 /\ h[h[d].el[i]].t = Vector /\ AnyRagged(h, h[d].el[i])
DimsOk(h, d, total, dims) ==      \* dims = <<-1>> stands for "no result"
  LET z == Sizes(h, <<d>>, Depth(h, d)) IN
  IF \E i \in DOMAIN z : z[i] < 0 THEN total = 0 /\ dims = <<-1>>
  ELSE \/ total = Prod(z) /\ dims = z
       \/ AnyRagged(h, d) /\ total = 0 /\ dims = <<-1>>
(* results of converting the values q (ids) to type t: the payloads of those that can be converted *)
RECURSIVE Casts(_, _, _)
Casts(h, q, t) == IF q = <<>> THEN <<>>
                  ELSE LET x == h[Head(q)]  r == Cast(x.t, x.v, t) IN (IF r[1] = 1 THEN <<r[2]>> ELSE <<>>) \o Casts(h, Tail(q), t)

(* ---------------------------------------------------------------- copies and paths *)
Plain(x) == x.c /\ x.t \notin {Vector, List, Map}      \* a constant is its own copy
RECURSIVE CopyOf(_, _, _, _)
RECURSIVE MetaCopy(_, _, _, _)
CopyOf(h, a, b, new) ==        \* b is a deep copy of a made of the new objects
  IF a = 0 \/ b = 0 THEN a = b
  ELSE LET x == h[a] IN
    IF Plain(x) \/ x.t = Pointer THEN b = a
    ELSE /\ b \in new
         /\ LET y == h[b] IN
            /\ y.t = x.t /\ y.et = x.et /\ y.kt = x.kt /\ y.v = x.v /\ ~y.c
            /\ (x.t < Vector) => Range(y.el) \subseteq new        \* a buffer of its own
            /\ (x.t >= Vector) => (Len(x.el) = Len(y.el) /\ \A i \in DOMAIN x.el : CopyOf(h, x.el[i], y.el[i], new))
            /\ Len(x.mp) = Len(y.mp) /\ \A i \in DOMAIN x.mp : CopyOf(h, x.mp[i][1], y.mp[i][1], new) /\ CopyOf(h, x.mp[i][2], y.mp[i][2], new)
            /\ Len(x.me) = Len(y.me) /\ \A i \in DOMAIN x.me : y.me[i][1] = x.me[i][1] /\ MetaCopy(h, x.me[i][2], y.me[i][2], new)
MetaCopy(h, a, b, new) == CopyOf(h, a, b, new) \/ a = b
ShallowOf(h, a, b, new) ==
  LET x == h[a] IN
  IF x.t < Vector THEN b = a
  ELSE /\ b \in new
       /\ LET y == h[b] IN y.t = x.t /\ y.et = x.et /\ y.kt = x.kt /\ ~y.c /\ y.el = x.el /\ y.mp = x.mp
(* b is what following path (ids of keys and indexes, first step first) from a leads to, 0 when it leads nowhere *)
IndexOf(h, i) == IF h[i].t = UInt32 THEN (IF h[i].v = Zero THEN 1 ELSE IF h[i].v[2] > 12 THEN 100000 ELSE
                    LET b == IntBits(h[i].v) IN 1 + SumTo([k \in 1..Len(b) |-> b[Len(b) + 1 - k] * (2 ^ (k - 1))], Len(b))) ELSE 0
Enter(s, a, k) == IF a = 0 THEN 0
                  ELSE LET x == s.h[a] IN
                    IF x.t = Map THEN Look(s, a, s.h[k])
                    ELSE IF x.t = Vector /\ s.h[k].t = UInt32 /\ IndexOf(s.h, k) <= Len(x.el) THEN x.el[IndexOf(s.h, k)] ELSE 0
RECURSIVE GetAt(_, _, _)
GetAt(s, a, path) == IF path = <<>> THEN a ELSE GetAt(s, Enter(s, a, Head(path)), Tail(path))
(* s is the state before with the new objects in it; b replaces a along path; what = "add" (w the value), "rem", "upd" (w the value the update made) *)
RECURSIVE PathOk(_, _, _, _, _, _, _)
PathOk(s, a, b, path, what, w, new) ==
  IF path = <<>> THEN (IF what = "rem" THEN ShallowOf(s.h, a, b, new) ELSE b = w)
  ELSE IF s.h[a].t < Vector THEN what = "rem" /\ FALSE
  ELSE LET x == s.h[a]  y == s.h[b]  k == Head(path)  last == Len(path) = 1 IN
    /\ b \in new /\ y.t = x.t /\ y.et = x.et /\ y.kt = x.kt
    /\ IF x.t = Map
       THEN LET i == Find(s.h, x.mp, s.h[k]) IN
            IF what = "rem" /\ last THEN y.mp = (IF i = 0 THEN x.mp ELSE Without(x.mp, i))
            ELSE IF i = 0 THEN
                 IF what = "add" /\ last
                 THEN LET j == Place(s.h, x.mp, s.h[k]) IN
                      Len(y.mp) = Len(x.mp) + 1 /\ Without(y.mp, j) = x.mp /\ SEq(s.h, y.mp[j][1], k, FALSE) /\ y.mp[j][2] = w
                 ELSE y.mp = x.mp
            ELSE Len(y.mp) = Len(x.mp) /\ Without(y.mp, i) = Without(x.mp, i) /\ y.mp[i][1] = x.mp[i][1]
                 /\ PathOk(s, x.mp[i][2], y.mp[i][2], Tail(path), what, w, new)
       ELSE LET i == IndexOf(s.h, k) IN
            IF what = "rem" /\ last THEN y.el = NotNull([x.el EXCEPT ![i] = 0])
            ELSE Len(y.el) = Len(x.el) /\ Without(y.el, i) = Without(x.el, i)
                 /\ (IF x.el[i] = 0 THEN y.el[i] = w ELSE PathOk(s, x.el[i], y.el[i], Tail(path), what, w, new))
(* compress: the structure below d after (h2) is equal to the one before (h1) and no two of its members are equal but distinct *)
RECURSIVE SEq2(_, _, _, _)
SEq2(h1, h2, a, b) ==
  IF a = 0 \/ b = 0 THEN a = b
  ELSE LET x == h1[a]  y == h2[b] IN
    /\ x.t = y.t
    /\ IF x.t <= Null THEN x.v = y.v
       ELSE IF x.t \in {Binary, Array} THEN x.et = y.et /\ x.v = y.v
       ELSE IF x.t \in {Vector, List} THEN Len(x.el) = Len(y.el) /\ \A i \in DOMAIN x.el : SEq2(h1, h2, x.el[i], y.el[i])
       ELSE Len(x.mp) = Len(y.mp) /\ \A i \in DOMAIN x.mp : SEq2(h1, h2, x.mp[i][1], y.mp[i][1]) /\ SEq2(h1, h2, x.mp[i][2], y.mp[i][2])
=============================================================================

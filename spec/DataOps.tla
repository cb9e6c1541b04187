------------------------------ MODULE DataOps ------------------------------
(* The calls of the data API: Do(s, e) is the set of states call e (with its arguments, its results and the objects it made) may lead to. *)
EXTENDS Data
Ids(q) == {q[i] : i \in DOMAIN q}
Ok(b, s) == IF b THEN {s} ELSE {}
Bit(x) == x = 1
(* type getters: the payload found, or the default *)
GetTyped(s, m, ko, g, dv, res) ==
  LET i == Look(s, m, ko) IN
  CASE g \in {Int64, UInt64, Bool, Float64, String, Pointer} -> res = (IF i # 0 /\ s.h[i].t = g THEN <<1>> \o s.h[i].v ELSE <<0>> \o dv)
    [] OTHER -> res = <<IF i # 0 /\ s.h[i].t = g THEN i ELSE 0>>
GetCast(s, m, ko, t, res) ==
  LET i == Look(s, m, ko)  r == IF i = 0 THEN <<0, <<>>>> ELSE Cast(s.h[i].t, s.h[i].v, t) IN res = <<r[1]>> \o r[2]
RECURSIVE UpTo0(_)
UpTo0(q) == IF q = <<>> \/ Head(q) = 0 THEN <<>> ELSE <<Head(q)>> \o UpTo0(Tail(q))
MetaPut(me, k, v) == LET M == {i \in DOMAIN me : me[i][1] = k} IN
                     IF M # {} THEN [me EXCEPT ![CHOOSE i \in M : TRUE][2] = v]
                     ELSE Before(me, 1 + Cardinality({i \in DOMAIN me : me[i][1] < k}), <<k, v>>)
KObj(t, v) == [t |-> t, v |-> v, et |-> IF t = Binary THEN UInt8 ELSE Invalid]
(* the state after event e, as a set: empty when e cannot happen in s *)
Do(s, e) ==
  LET k == e[1] IN
  CASE k = "buf"   -> IF Has(s, e[2]) THEN {} ELSE {Hold(Absorb(s, <<<<e[2], <<Buffer, 0, 0, 0, <<>>, <<>>, <<>>, <<>>>>>>>>), e[2])}
    [] k = "bfree" -> Ok(Held(s, e[2]) /\ s.h[e[2]].t = Buffer, Drop(s, e[2]))
    [] k = "new"   -> \* id, new objects (with its buffer), type, element type, key type, payload, size, buffer handed over (0: none)
                      IF ~Fresh(s, e[3]) \/ e[2] \notin NewIds(e[3]) THEN {}
                      ELSE LET s1 == Hold(Absorb(s, e[3]), e[2])  o == s1.h[e[2]] IN
                           Ok(o.t = e[4] /\ o.et = e[5] /\ o.kt = e[6] /\ o.v = e[7] /\ ~o.c /\ o.mp = <<>> /\ o.me = <<>>
                              /\ (o.t >= Vector => o.el = [i \in 1..e[8] |-> 0])
                              /\ (o.t < Vector => Range(o.el) \subseteq (NewIds(e[3]) \cup {e[9]})), IF e[9] # 0 THEN Drop(s1, e[9]) ELSE s1)
    [] k = "same"  -> Ok(Has(s, e[2]) /\ s.h[e[2]].c /\ s.h[e[2]].t = e[3] /\ s.h[e[2]].v = e[4], Hold(s, e[2]))
    [] k = "ref"   -> Ok(Has(s, e[2]), Hold(s, e[2]))
    [] k = "free"  -> Ok(Held(s, e[2]), Drop(s, e[2]))
    \* lists
    [] k = "lpush" -> Ok(Has(s, e[2]) /\ Held(s, e[4]), [Drop(s, e[4]) EXCEPT !.h[e[2]].el = IF e[3] = 1 THEN <<e[4]>> \o @ ELSE @ \o <<e[4]>>])
    [] k = "lpop"  -> LET q == s.h[e[2]].el IN
                      IF q = <<>> THEN Ok(e[4] = 0, s)
                      ELSE IF e[3] = 1 THEN Ok(e[4] = q[1], Hold([s EXCEPT !.h[e[2]].el = Tail(@)], q[1]))
                      ELSE Ok(e[4] = q[Len(q)], Hold([s EXCEPT !.h[e[2]].el = SubSeq(@, 1, Len(@) - 1)], q[Len(q)]))
    [] k = "lempty" -> {[s EXCEPT !.h[e[2]].el = <<>>]}
    [] k = "find"  -> LET q == s.h[e[2]].el  P == {i \in DOMAIN q : q[i] # 0 /\ SEq(s.h, q[i], e[3], FALSE)} IN
                      Ok(e[4] = (IF P = {} THEN 0 ELSE q[CHOOSE i \in P : \A j \in P : i <= j]), s)
    [] k = "sfind" -> LET q == s.h[e[2]].el  P == {i \in DOMAIN q : q[i] # 0 /\ s.h[q[i]].t = String /\ s.h[q[i]].v = e[3]} IN
                      Ok(e[4] = (IF P = {} THEN 0 ELSE q[CHOOSE i \in P : \A j \in P : i <= j]), s)
    [] k = "lrem"  -> LET q == s.h[e[2]].el  P == {i \in DOMAIN q : SEq(s.h, q[i], e[3], FALSE)} IN
                      IF P = {} THEN Ok(e[4] = 0, s)
                      ELSE Ok(e[4] = 1, [s EXCEPT !.h[e[2]].el = Without(q, CHOOSE i \in P : \A j \in P : i <= j)])
    [] k = "iter"  -> IterRun(s, e[2], 0, e[3])
    \* vectors
    [] k = "vadd"  -> Ok(e[4] = 0 \/ Held(s, e[4]), [Drop(s, e[4]) EXCEPT !.h[e[2]].el[e[3] + 1] = e[4]])
    [] k = "vget"  -> Ok(e[4] = s.h[e[2]].el[e[3] + 1], s)
    [] k = "vgetp" -> LET q == s.h[e[2]].el  x == IF e[3] < Len(q) THEN q[e[3] + 1] ELSE 0 IN
                      Ok(e[4] = (IF x # 0 /\ s.h[x].t = Pointer THEN s.h[x].v ELSE <<>>), s)
    [] k = "vres"  -> {[s EXCEPT !.h[e[2]].el = IF e[3] <= Len(@) THEN SubSeq(@, 1, e[3]) ELSE @ \o [i \in 1..(e[3] - Len(@)) |-> 0]]}
    [] k = "vcomp" -> LET q == NotNull(s.h[e[2]].el) IN Ok(e[3] = Len(q), [s EXCEPT !.h[e[2]].el = q])
    [] k = "vcount" -> Ok(e[5] = VCount(s.h, e[2], e[3], Bit(e[4])), s)
    [] k = "vdims" -> Ok(DimsOk(s.h, e[2], e[3], e[4]), s)
    [] k = "vtoarr" -> \* vector, type, recurse, result, new objects
                      IF ~Fresh(s, e[6]) \/ e[5] \notin NewIds(e[6]) THEN {}
                      ELSE LET s1 == Absorb(s, e[6])  y == s1.h[e[5]] IN
                           Ok(y.t = Array /\ y.et = e[3] /\ e[7] = Casts(s.h, Flat(s.h, s.h[e[2]].el, Bit(e[4])), e[3]), Hold(s1, e[5]))
    [] k = "atrans" -> \* array, type, result, new objects, numbers in, numbers out
                      LET r == [i \in DOMAIN e[6] |-> Cast(s.h[e[2]].et, e[6][i], e[3])]  g == SelectSeq(r, LAMBDA x : x[1] = 1) IN
                      IF ~Fresh(s, e[5]) \/ e[4] \notin NewIds(e[5]) THEN {}
                      ELSE LET s1 == Absorb(s, e[5])  y == s1.h[e[4]] IN
                           Ok(y.t = Array /\ y.et = e[3] /\ e[7] = [i \in DOMAIN g |-> g[i][2]], Hold(s1, e[4]))
    [] k = "vtovec" -> \* vector, type, recurse, result id, new objects
                      IF ~Fresh(s, e[6]) \/ e[5] \notin NewIds(e[6]) THEN {}
                      ELSE LET s1 == Absorb(s, e[6])  q == SelectSeq(Flat(s.h, s.h[e[2]].el, Bit(e[4])), LAMBDA i : s.h[i].t = e[3] \/ Cast(s.h[i].t, s.h[i].v, e[3])[1] = 1)
                               y == s1.h[e[5]] IN
                           Ok(y.t = Vector /\ y.et = e[3] /\ Len(y.el) = Len(q)
                              /\ \A i \in DOMAIN q : IF s.h[q[i]].t = e[3] THEN y.el[i] = q[i]
                                                     ELSE y.el[i] # q[i] /\ s1.h[y.el[i]].t = e[3] /\ s1.h[y.el[i]].v = Cast(s.h[q[i]].t, s.h[q[i]].v, e[3])[2], Hold(s1, e[5]))
    \* maps
    [] k = "madd"  -> Ok(Held(s, e[3]) /\ Held(Drop(s, e[3]), e[4]), [Drop(Drop(s, e[3]), e[4]) EXCEPT !.h[e[2]].mp = PutEntry(s.h, @, e[3], e[4])])
    [] k = "smadd" -> \* map, key bytes, new key (0: none), new objects, value
                      IF e[4] = 0 THEN LET i == Find(s.h, s.h[e[2]].mp, KObj(String, e[3])) IN
                           Ok(i > 0 /\ Held(s, e[6]), [Drop(s, e[6]) EXCEPT !.h[e[2]].mp[i][2] = e[6]])
                      ELSE IF ~Fresh(s, e[5]) \/ e[4] \notin NewIds(e[5]) \/ Find(s.h, s.h[e[2]].mp, KObj(String, e[3])) > 0 THEN {}
                      ELSE LET s1 == Absorb(s, e[5]) IN
                           Ok(s1.h[e[4]].t = String /\ s1.h[e[4]].v = e[3] /\ Held(s, e[6]), [Drop(s1, e[6]) EXCEPT !.h[e[2]].mp = PutEntry(s1.h, @, e[4], e[6])])
    [] k = "munus" -> LET i == Find(s.h, s.h[e[2]].mp, s.h[e[3]]) IN
                      IF i > 0 THEN Ok(e[5] = 0, s)
                      ELSE Ok(e[5] = 1, [Drop(Drop(s, e[3]), e[4]) EXCEPT !.h[e[2]].mp = PutEntry(s.h, @, e[3], e[4])])
    [] k = "mrem"  -> LET i == Find(s.h, s.h[e[2]].mp, s.h[e[3]]) IN
                      Ok(e[4] = B(i > 0), IF i > 0 THEN [s EXCEPT !.h[e[2]].mp = Without(@, i)] ELSE s)
    [] k = "smrem" -> LET i == Find(s.h, s.h[e[2]].mp, KObj(String, e[3])) IN
                      Ok(e[4] = B(i > 0), IF i > 0 THEN [s EXCEPT !.h[e[2]].mp = Without(@, i)] ELSE s)
    [] k = "mget"  -> Ok(e[4] = Look(s, e[2], s.h[e[3]]), s)
    [] k = "smget" -> Ok(e[4] = Look(s, e[2], KObj(String, e[3])), s)
    [] k = "mgett" -> LET i == Look(s, e[2], s.h[e[3]]) IN Ok(e[5] = (IF i # 0 /\ s.h[i].t = e[4] THEN i ELSE 0), s)
    [] k = "mgtyp" -> Ok(GetTyped(s, e[2], s.h[e[3]], e[4], e[5], e[6]), s)
    [] k = "smgtyp" -> Ok(GetTyped(s, e[2], KObj(String, e[3]), e[4], e[5], e[6]), s)
    [] k = "mgnum" -> Ok(GetCast(s, e[2], s.h[e[3]], e[4], e[5]), s)
    [] k = "smgnum" -> Ok(GetCast(s, e[2], KObj(String, e[3]), e[4], e[5]), s)
    [] k = "mends" -> LET q == s.h[e[2]].mp IN Ok(e[3] = (IF q = <<>> THEN 0 ELSE q[1][2]) /\ e[4] = (IF q = <<>> THEN 0 ELSE q[Len(q)][2]), s)
    [] k = "mendp" -> LET q == s.h[e[2]].mp IN Ok(e[3] = (IF q = <<>> THEN <<>> ELSE s.h[q[1][2]].v) /\ e[4] = (IF q = <<>> THEN <<>> ELSE s.h[q[Len(q)][2]].v), s)
    [] k = "mempty" -> {[s EXCEPT !.h[e[2]].mp = <<>>]}
    [] k = "mmerge" -> {[s EXCEPT !.h[e[2]].mp = PutAll(s.h, @, s.h[e[3]].mp)]}
    [] k = "mb64"  -> \* map, key, ok, new array (0: none), new objects, expected bytes or <<-1>>
                      LET i == Find(s.h, s.h[e[2]].mp, s.h[e[3]]) IN
                      IF i = 0 \/ s.h[s.h[e[2]].mp[i][2]].t # String \/ e[7] = <<-1>> THEN Ok(e[4] = 0 /\ e[5] = 0, s)
                      ELSE IF e[4] = 0 \/ ~Fresh(s, e[6]) \/ e[5] \notin NewIds(e[6]) THEN {}
                      ELSE LET s1 == Absorb(s, e[6])  y == s1.h[e[5]] IN
                           Ok(y.t = Array /\ y.et = UInt8 /\ y.v = e[7], [s1 EXCEPT !.h[e[2]].mp[i][2] = e[5]])
    \* copies and paths: source.., result, new objects
    [] k = "copy"  -> IF ~Fresh(s, e[4]) THEN {} ELSE LET s1 == Absorb(s, e[4]) IN Ok(Has(s1, e[3]) /\ CopyOf(s1.h, e[2], e[3], NewIds(e[4])), Hold(s1, e[3]))
    [] k = "shallow" -> IF ~Fresh(s, e[4]) THEN {} ELSE LET s1 == Absorb(s, e[4]) IN Ok(Has(s1, e[3]) /\ ShallowOf(s1.h, e[2], e[3], NewIds(e[4])), Hold(s1, e[3]))
    [] k = "transf" -> \* source, type, result, new
                      IF ~Fresh(s, e[5]) THEN {}
                      ELSE LET x == s.h[e[2]]  s1 == Absorb(s, e[5])  r == Cast(x.t, x.v, e[3]) IN
                           IF x.t = e[3] THEN Ok(e[4] = e[2], Hold(s, e[2]))
                           ELSE IF r[1] = 0 THEN Ok(e[4] = 0, s)
                           ELSE Ok(e[4] # 0 /\ Has(s1, e[4]) /\ s1.h[e[4]].t = e[3] /\ s1.h[e[4]].v = r[2] /\ (e[3] = Bool \/ e[4] \in NewIds(e[5])), Hold(s1, e[4]))
    [] k = "getp"  -> Ok(e[4] = GetAt(s, e[2], e[3]), s)     \* path as a sequence of ids, first step first
    [] k = "addat" -> \* data, path, value, result, new
                      IF ~Fresh(s, e[6]) THEN {}
                      ELSE LET s1 == Absorb(s, e[6]) IN
                           Ok(Has(s1, e[5]) /\ PathOk(s1, e[2], e[5], e[3], "add", e[4], NewIds(e[6])), Hold(Drop(s1, e[4]), e[5]))
    [] k = "rmat"  -> IF ~Fresh(s, e[5]) THEN {}
                      ELSE LET s1 == Absorb(s, e[5]) IN Ok(Has(s1, e[4]) /\ PathOk(s1, e[2], e[4], e[3], "rem", 0, NewIds(e[5])), Hold(s1, e[4]))
    [] k = "updat" -> \* data, path, what the function was given (-1: not called), what it gave (held before), result, new
                      IF ~Fresh(s, e[7]) THEN {}
                      ELSE LET s1 == Absorb(s, e[7])  g == GetAt(s, e[2], e[3]) IN
                           Ok(Has(s1, e[6]) /\ (IF e[4] = -1 THEN g = 0 ELSE e[4] = g)
                              /\ PathOk(s1, e[2], e[6], e[3], "upd", e[5], NewIds(e[7])), Hold(IF e[4] = -1 THEN s1 ELSE Drop(s1, e[5]), e[6]))
    [] k = "compr" -> \* data, objects below it afterwards as <<id, obj>> pairs, second value compressed with the same cache (0 none)
                      LET R == {e[2], e[4]} \ {0}  old == Reach(s.h, {}, R)
                          h2 == [i \in {e[3][n][1] : n \in DOMAIN e[3]} |-> Obj(e[3][CHOOSE n \in DOMAIN e[3] : e[3][n][1] = i][2])] @@ s.h IN
                      Ok(/\ \A n \in DOMAIN e[3] : e[3][n][1] \in old
                         /\ \A n \in DOMAIN e[3] : Kids(Obj(e[3][n][2])) \subseteq old
                         /\ \A n \in DOMAIN e[3] : LET x == h2[e[3][n][1]]  y == s.h[e[3][n][1]] IN x.me = y.me /\ x.t = y.t /\ x.et = y.et /\ x.kt = y.kt /\ x.v = y.v /\ x.c = y.c
                         /\ \A r \in R : SEq2(s.h, h2, r, r)
                         /\ LET D == UNION {Under(h2, r) \ {r} : r \in R} IN \A a \in D : \A b \in D : (a # b /\ h2[a].t # Buffer /\ h2[b].t # Buffer) => ~SEq(h2, a, b, FALSE),
                         [s EXCEPT !.h = h2])
    [] k = "meta"  -> Ok(Held(s, e[3]), [Drop(s, e[3]) EXCEPT !.h[e[2]].me = MetaPut(@, e[4], e[3])])
    [] k = "gmeta" -> LET M == {i \in DOMAIN s.h[e[2]].me : s.h[e[2]].me[i][1] = e[3]} IN
                      Ok(e[4] = (IF M = {} THEN 0 ELSE s.h[e[2]].me[CHOOSE i \in M : TRUE][2]), s)
    [] k = "eq"    -> \* a, b, equal, compare(a,b), compare(b,a), equal_value, compare_value(a,b), (b,a), hashes alike
                      Ok(/\ e[4] = B(SEq(s.h, e[2], e[3], FALSE)) /\ CmpOk(s.h, e[2], e[3], FALSE, e[5]) /\ e[6] = -e[5]
                         /\ e[7] = B(SEq(s.h, e[2], e[3], TRUE)) /\ CmpOk(s.h, e[2], e[3], TRUE, e[8]) /\ e[9] = -e[8]
                         /\ (e[4] = 1 => e[10] = 1), s)
    [] k = "ord3"  -> \* signs of compare(a,b), compare(b,c), compare(a,c): transitive
                      Ok(/\ (e[2] <= 0 /\ e[3] <= 0) => e[4] <= 0 /\ ((e[2] < 0 \/ e[3] < 0) => e[4] < 0)
                         /\ (e[2] >= 0 /\ e[3] >= 0) => e[4] >= 0 /\ ((e[2] > 0 \/ e[3] > 0) => e[4] > 0), s)
    [] k = "tc"    -> \* id, typecode, type, length, matches own, type query by name
                      LET x == s.h[e[2]] IN Ok(e[3] = <<x.t, x.et, x.kt>> /\ e[4] = x.t /\ e[5] = (IF x.t \in {Array, Binary} THEN Len(x.v) \div Size(x.et) ELSE IF x.t \in {Vector, List} THEN Len(x.el) ELSE IF x.t = Map THEN Len(x.mp) ELSE 1) /\ e[6] = x.t, s)
    [] k = "tq"    -> \* id, a type, is it that, a type, array of it, a type, map keyed by it, element type (20: it has none), key type
                      LET x == s.h[e[2]] IN
                      Ok(/\ e[4] = B(x.t = e[3]) /\ e[6] = B(x.t \in {Array, Binary} /\ x.et = e[5]) /\ e[8] = B(x.t = Map /\ x.kt = e[7])
                         /\ e[9] = (IF x.t \in Binary..Map THEN x.et ELSE 20) /\ e[10] = (IF x.t = Map THEN x.kt ELSE 20), s)
    [] k = "tag"   -> \* id, tag, set to, was
                      Ok(Has(s, e[2]) /\ e[5] = B(<<e[2], e[3]>> \in s.tags), [s EXCEPT !.tags = IF e[4] = 1 THEN @ \cup {<<e[2], e[3]>>} ELSE @ \ {<<e[2], e[3]>>}])
    [] k = "gtag"  -> Ok(Has(s, e[2]) /\ e[4] = B(<<e[2], e[3]>> \in s.tags), s)
    [] k = "match" -> \* id, typecode, value matches it, it equals the value's, the other way round, equal to itself and NULL to NULL but neither to the other
                      LET x == s.h[e[2]] IN
                      Ok(e[4] = B(x.t = e[3][1] /\ (x.t \in Array..Map => x.et = e[3][2]) /\ (x.t = Map => x.kt = e[3][3])) /\ e[5] = e[4] /\ e[6] = e[4] /\ e[7] = 3, s)
    [] k = "a2b"   -> {[s EXCEPT !.h[e[2]].t = e[3]]}
    [] k = "btake" -> \* array, length, bytes, buffer id, is it the own buffer
                      LET x == s.h[e[2]] IN
                      IF e[3] # Len(x.v) \/ e[4] # x.v THEN {}
                      ELSE IF x.el # <<>> /\ RefCount(s, e[2]) = 1
                           THEN Ok(e[5] = x.el[1], Hold([s EXCEPT !.h[e[2]].el = <<>>, !.h[e[2]].v = <<>>], x.el[1]))
                      ELSE IF Has(s, e[5]) THEN {}
                      ELSE LET s1 == IF e[5] = 0 THEN s ELSE Hold(Absorb(s, <<<<e[5], <<Buffer, 0, 0, 0, <<>>, <<>>, <<>>, <<>>>>>>>>), e[5]) IN
                           Ok(e[5] > 0 \/ x.v = <<>>, IF e[6] = 1 THEN [s1 EXCEPT !.h[e[2]].v = <<>>] ELSE s1)
    [] k = "tobin" -> IF ~Fresh(s, e[4]) \/ e[3] \notin NewIds(e[4]) THEN {}
                      ELSE LET s1 == Absorb(s, e[4])  y == s1.h[e[3]] IN Ok(y.t = Binary /\ y.et = UInt8 /\ y.v = s.h[e[2]].v, Hold(s1, e[3]))
    [] k = "tostr" -> IF ~Fresh(s, e[4]) \/ e[3] \notin NewIds(e[4]) THEN {}
                      ELSE LET s1 == Absorb(s, e[4])  y == s1.h[e[3]] IN Ok(y.t = String /\ y.v = UpTo0(s.h[e[2]].v), Hold(s1, e[3]))
    [] k = "aget"  -> LET x == s.h[e[2]] IN Ok(e[4] = SubSeq(x.v, e[3] * Size(x.et) + 1, (e[3] + 1) * Size(x.et)), s)
    [] k = "inc"   -> LET x == s.h[e[2]] IN Ok(e[4] = Step1(x.t, x.v, e[3]), [s EXCEPT !.h[e[2]].v = e[4]])
    [] k = "dump"  -> Ok(Has(s, e[2]) /\ Obj(e[3]) = s.h[e[2]] /\ (s.h[e[2]].c \/ e[4] = RefCount(s, e[2])), s)
    [] k = "end"   -> Ok(e[2] = 0 /\ \A i \in DOMAIN s.h : s.h[i].c, s)
    [] OTHER       -> {}
(* what no longer lives is freed by the call, once, and nothing else is *)
Finish(s, t, F, fr) ==
  IF t = s THEN (IF F = <<>> THEN {s} ELSE {})
  ELSE LET L == Live(t)  G == DOMAIN t.h \ L IN
       IF fr = 1 /\ (Ids(F) # G \/ Len(F) # Cardinality(G)) THEN {}
       ELSE IF G = {} THEN {t} ELSE {[h |-> [i \in L |-> t.h[i]], held |-> [i \in L |-> t.held[i]], tags |-> {x \in t.tags : x[1] \in L}]}
=============================================================================

----------------------------- MODULE Container -----------------------------
(* A container of components: configuration names components and their types, a component is made on demand by     *)
(* the factory of its type, which may resolve further components while it makes it.  Every thread has a stack of   *)
(* calls and callbacks in progress; a callback happens inside the call that makes it.                              *)
(* P (in s.P): listed[n] container naming component n, ty[n] its type there (0 not a string), cfg[n] = 0 usable    *)
(* configuration, lib[n] = 1 its configuration names a loadable factory, the one of type 4, ccfg[c] = 0 usable configuration of       *)
(* container c, cat[ty] category, save whether configurations are saved.                                           *)
EXTENDS Integers, Sequences, FiniteSets
Range(q) == {q[i] : i \in DOMAIN q}
Empty(P, T) == [P |-> P, comps |-> <<>>, fac |-> Range(P.fac), stk |-> [t \in T |-> <<>>]]
Max(a, b) == IF a > b THEN a ELSE b
Bit(n, b) == (n \div b) % 2 = 1
Alive(x) == ~x.dying /\ ~x.gone /\ x.hid = -1
Oldest(s, c, n) == LET m == SelectSeq(s.comps, LAMBDA x : Alive(x) /\ x.c = c /\ x.n = n) IN IF m = <<>> THEN 0 ELSE m[1].id
Present(s, c, ct) == {x.id : x \in {y \in Range(s.comps) : Alive(y) /\ y.c = c /\ (ct = 0 \/ s.P.cat[y.ty] = ct)}}
Index(s, id) == LET I == {i \in DOMAIN s.comps : s.comps[i].id = id} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
Makeable(s, c, n) == s.P.listed[n] = c /\ s.P.ccfg[c] = 0 /\ s.P.ty[n] \in s.fac /\ s.P.cfg[n] = 0
(* what a thread is making because the configuration says so (what is added explicitly is not looked up meanwhile) *)
Making(s, t, upto) == {s.stk[t][i].n : i \in {j \in 2..upto : s.stk[t][j].k = "create" /\ s.stk[t][j - 1].k # "add"}}
MakingAny(s) == UNION {Making(s, t, Len(s.stk[t])) : t \in DOMAIN s.stk}
Top(s, t) == IF s.stk[t] = <<>> THEN [k |-> "none"] ELSE s.stk[t][Len(s.stk[t])]
(* first of container c after place i (before place i when going back) having callback b, 0 none; b = 0: any *)
After(s, c, i, b) == LET J == {j \in (i + 1)..Len(s.comps) : s.comps[j].c = c /\ Alive(s.comps[j]) /\ (b = 0 \/ Bit(s.comps[j].cb, b))} IN IF J = {} THEN 0 ELSE CHOOSE j \in J : \A k \in J : j <= k
Before(s, c, i, b) == LET J == {j \in 1..(i - 1) : s.comps[j].c = c /\ Alive(s.comps[j]) /\ (b = 0 \/ Bit(s.comps[j].cb, b))} IN IF J = {} THEN 0 ELSE CHOOSE j \in J : \A k \in J : j >= k
Running(s, c) == \A x \in Range(s.comps) : x.c = c /\ Alive(x) => 2 \in x.st
RunningSure(s, c) == \A x \in Range(s.comps) : x.c = c /\ Alive(x) => x.st = {2}
Far == 1000000000
(* what a call in progress gets to see *)
Look(s, t, i, now) ==
  LET f == s.stk[t][i] IN
  CASE f.k = "find"   -> LET o == Oldest(s, f.c, f.n) IN
                         [f EXCEPT !.found = IF o = 0 THEN @ ELSE @ \cup {o}, !.none = @ \/ (o = 0 /\ (~Makeable(s, f.c, f.n) \/ f.n \in Making(s, t, i - 1) \/ f.failed))]
    [] f.k = "delete" -> [f EXCEPT !.none = @ \/ Oldest(s, f.c, f.n) = 0]
    [] f.k = "read"   -> [f EXCEPT !.found = @ \cup {Oldest(s, f.c, f.n)}, !.sts = @ \cup UNION {{<<x.id, z>> : z \in x.st} : x \in Range(s.comps)}]
    [] f.k = "list"   -> [f EXCEPT !.snaps = @ \cup {Present(s, f.c, f.ct)}, !.sts = @ \cup UNION {{<<x.id, z>> : z \in x.st} : x \in Range(s.comps)}]
    [] f.k = "start"  -> [f EXCEPT !.may = IF @ = Far /\ Running(s, f.c) THEN now ELSE @, !.must = IF @ = Far /\ RunningSure(s, f.c) THEN now ELSE @]
    [] OTHER -> f
See(s, now) == [s EXCEPT !.stk = [t \in DOMAIN s.stk |-> [i \in DOMAIN s.stk[t] |-> Look(s, t, i, now)]]]
Push(s, t, f) == [s EXCEPT !.stk[t] = Append(@, f)]
Pop(s, t) == [s EXCEPT !.stk[t] = SubSeq(@, 1, Len(@) - 1)]
SetTop(s, t, f) == [s EXCEPT !.stk[t] = [@ EXCEPT ![Len(@)] = f]]
(* a call begins: op and its arguments *)
Frame(s, t, op, a, now) ==
  CASE op = "find"    -> [k |-> op, c |-> a[1], n |-> a[2], found |-> {}, none |-> FALSE, failed |-> FALSE]
    [] op = "init"    -> [k |-> op, c |-> a[1], did |-> {}]
    [] op = "add"     -> [k |-> op, c |-> a[1], n |-> a[2], ty |-> a[3], ok |-> a[4] = 0, lib |-> a[5] = 1, did |-> FALSE]
    [] op = "start"   -> [k |-> op, c |-> a[1], ph |-> 1, i |-> 0, at |-> now, may |-> Far, must |-> Far, arg |-> -1]
    [] op = "stop"    -> [k |-> op, c |-> a[1], ph |-> 1, i |-> Far]
    [] op = "free"    -> [k |-> op, c |-> a[1], stopped |-> {}]
    [] op = "delete"  -> [k |-> op, c |-> a[1], n |-> a[2], none |-> FALSE, id |-> 0, stopped |-> {}, done |-> FALSE]
    [] op = "list"    -> [k |-> op, c |-> a[1], ct |-> a[2], snaps |-> {}, sts |-> {}]
    [] op = "read"    -> [k |-> op, c |-> a[1], n |-> a[2], found |-> {}, sts |-> {}]
    [] op = "reconf"  -> [k |-> op, id |-> a[1], v |-> a[2], w |-> a[3], cb |-> 0, saved |-> FALSE]
    [] op = "facadd"  -> [k |-> op, ty |-> a[1]]
    [] op = "facfind" -> [k |-> op, ty |-> a[1]]
    [] OTHER -> [k |-> "none"]
Invoke(s, t, op, a, now) ==
  LET f == Frame(s, t, op, a, now) IN
  IF f.k = "none" THEN {} ELSE {See(Push(IF op = "facadd" THEN [s EXCEPT !.fac = @ \cup {a[1]}] ELSE s, t, f), now)}
(* a factory makes a component: begins, inside the call that wants it *)
Cfg(s, t, id, c, n, ty, now) ==
  LET f == Top(s, t)
      new == Oldest(s, c, n) = 0 /\ (\A x \in Range(s.comps) : x.hid # -1 => x.c # c \/ x.n # n) /\ Makeable(s, c, n) /\ s.P.ty[n] = ty /\ n \notin MakingAny(s)
      ok == CASE f.k = "find" -> f.c = c /\ f.n = n /\ ~f.failed /\ new
              [] f.k = "init" -> f.c = c /\ n \notin f.did /\ new
              [] f.k = "add"  -> f.c = c /\ f.n = n /\ f.ty = ty /\ ty \in s.fac /\ f.ok /\ ~f.did
              [] OTHER -> FALSE IN
  IF ok THEN {See(Push(s, t, [k |-> "create", id |-> id, c |-> c, n |-> n, ty |-> ty]), now)} ELSE {}
CfgEnd(s, t, id, ok, cb, v, now) ==
  LET f == Top(s, t) IN
  IF f.k # "create" \/ f.id # id THEN {}
  ELSE LET s1 == Pop(s, t)
           g == Top(s1, t)
           g1 == CASE g.k = "find" -> [g EXCEPT !.failed = ok = 0] [] g.k = "init" -> [g EXCEPT !.did = @ \cup {f.n}] [] OTHER -> [g EXCEPT !.did = TRUE]
           s2 == SetTop(s1, t, g1)
           x == [id |-> id, c |-> f.c, n |-> f.n, ty |-> f.ty, cb |-> cb, st |-> {0}, v |-> v, w |-> -1, dying |-> FALSE, gone |-> FALSE, hid |-> -1] IN
       {See(IF ok = 1 THEN [s2 EXCEPT !.comps = Append(@, x)] ELSE s2, now)}
(* a component just made by t is there for others at once or a little later, at the latest with the next step of t *)
Hide(s, t) == IF s.comps = <<>> THEN s ELSE [s EXCEPT !.comps = [@ EXCEPT ![Len(@)] = [@ EXCEPT !.hid = t]]]
Appear(s, t, now) == IF \E x \in Range(s.comps) : x.hid = t THEN See([s EXCEPT !.comps = [i \in DOMAIN @ |-> IF @[i].hid = t THEN [@[i] EXCEPT !.hid = -1] ELSE @[i]]], now) ELSE s
Hiders(s) == {x.hid : x \in Range(s.comps)} \ {-1}
(* the call that loads a factory from a library *)
FacFn(s, t, ty, now) == IF Top(s, t).k \in {"init", "add"} THEN {See([s EXCEPT !.fac = @ \cup {ty}], now)} ELSE {}
(* nobody is in the middle of going through the components of c *)
Walked(s, c) == \E t \in DOMAIN s.stk : \E i \in DOMAIN s.stk[t] : LET f == s.stk[t][i] IN
  \/ f.k = "start" /\ f.c = c /\ (f.ph > 1 \/ f.i > 0) /\ (f.ph < 2 \/ (f.ph = 2 /\ After(s, c, f.i, 0) # 0) \/ After(s, c, IF f.ph = 2 THEN 0 ELSE f.i, 4) # 0)
  \/ f.k = "stop" /\ f.c = c /\ (f.ph > 1 \/ f.i # Far) /\ (f.ph < 2 \/ Before(s, c, IF f.i = Far THEN Len(s.comps) + 1 ELSE f.i, 0) # 0)
Back(s, f, b) == Before(s, f.c, IF f.i = Far THEN Len(s.comps) + 1 ELSE f.i, b)
(* a callback begins *)
Cb(s, t, kind, id, arg, now) ==
  LET f == Top(s, t)
      i == Index(s, id)
      go(g) == {See(Push(SetTop(s, t, g), t, [k |-> "cb", kind |-> kind, id |-> id]), now)} IN
  IF i = 0 \/ s.comps[i].gone THEN {}
  ELSE LET x == s.comps[i] IN
  CASE f.k = "start" /\ kind = "starting" -> IF f.ph = 1 /\ i = After(s, f.c, f.i, 1) THEN go([f EXCEPT !.i = i]) ELSE {}
    [] f.k = "start" /\ kind = "start" ->
         IF (f.ph = 1 /\ After(s, f.c, f.i, 1) = 0 /\ i = After(s, f.c, 0, 0)) \/ (f.ph = 2 /\ i = After(s, f.c, f.i, 0)) THEN go([f EXCEPT !.ph = 2, !.i = i, !.may = Far, !.must = Far]) ELSE {}
    [] f.k = "start" /\ kind = "running" ->
         IF \/ f.ph = 2 /\ After(s, f.c, f.i, 0) = 0 /\ i = After(s, f.c, 0, 4) /\ (IF arg = 0 THEN f.may # Far /\ now <= Max(f.at, f.must) + 500 ELSE now >= f.at + 4700 /\ f.must >= f.at + 4700)
            \/ f.ph = 3 /\ i = After(s, f.c, f.i, 4) /\ arg = f.arg
         THEN go([f EXCEPT !.ph = 3, !.i = i, !.arg = arg]) ELSE {}
    [] f.k = "stop" /\ kind = "stopping" -> IF f.ph = 1 /\ i = Back(s, f, 2) THEN go([f EXCEPT !.i = i]) ELSE {}
    [] f.k = "stop" /\ kind = "stop" ->
         IF (f.ph = 1 /\ Back(s, f, 2) = 0 /\ i = Before(s, f.c, Len(s.comps) + 1, 0)) \/ (f.ph = 2 /\ i = Back(s, f, 0)) THEN go([f EXCEPT !.ph = 2, !.i = i]) ELSE {}
    [] f.k = "free" /\ kind = "stop" -> IF x.c = f.c /\ x.st # {1} /\ id \notin f.stopped THEN {See(Push([SetTop(s, t, [f EXCEPT !.stopped = @ \cup {id}]) EXCEPT !.comps[i].dying = TRUE], t, [k |-> "cb", kind |-> kind, id |-> id]), now)} ELSE {}
    [] f.k = "free" /\ kind = "free" -> IF x.c = f.c /\ (1 \in x.st \/ id \in f.stopped) THEN {See(Push([s EXCEPT !.comps[i].gone = TRUE], t, [k |-> "cb", kind |-> kind, id |-> id]), now)} ELSE {}
    [] f.k = "delete" /\ kind = "stop" ->
         IF ~f.done /\ f.id = 0 /\ id = Oldest(s, f.c, f.n) /\ x.st # {1} /\ ~Walked(s, f.c)
         THEN {See(Push([SetTop(s, t, [f EXCEPT !.id = id, !.stopped = {id}]) EXCEPT !.comps[i].dying = TRUE], t, [k |-> "cb", kind |-> kind, id |-> id]), now)} ELSE {}
    [] f.k = "delete" /\ kind = "free" ->
         IF ~f.done /\ ((f.id = id) \/ (f.id = 0 /\ id = Oldest(s, f.c, f.n) /\ 1 \in x.st)) /\ ~Walked(s, f.c)
         THEN {See(Push([SetTop(s, t, [f EXCEPT !.id = id, !.done = TRUE]) EXCEPT !.comps[i].gone = TRUE], t, [k |-> "cb", kind |-> kind, id |-> id]), now)} ELSE {}
    [] f.k = "reconf" /\ kind = "reconf" -> IF f.id = id /\ f.cb = 0 THEN go([f EXCEPT !.cb = IF arg = 1 THEN 1 ELSE 2]) ELSE {}
    [] OTHER -> {}
CbEnd(s, t, kind, id, now) ==
  LET f == Top(s, t) IN
  IF f.k = "cb" /\ f.kind = kind /\ f.id = id
  THEN LET s1 == Pop(s, t)  g == Top(s1, t) IN {See(IF g.k = "start" /\ kind = "start" THEN SetTop(s1, t, [g EXCEPT !.at = now]) ELSE s1, now)} ELSE {}
SetSt(s, id, st, now) == LET i == Index(s, id) IN IF i = 0 THEN {} ELSE {See([s EXCEPT !.comps[i].st = @ \cup {st}], now)}
SetDone(s, id, st, now) == LET i == Index(s, id) IN IF i = 0 THEN {} ELSE {See([s EXCEPT !.comps[i].st = {st}], now)}
Merged(old, new) == IF new = -1 THEN old ELSE new
Saved(s, t, n, v, w, now) ==
  LET f == Top(s, t) IN
  IF f.k # "reconf" \/ f.saved \/ ~s.P.save THEN {}
  ELSE LET x == s.comps[Index(s, f.id)] IN IF f.cb # 2 /\ x.n = n /\ v = Merged(x.v, f.v) /\ w = Merged(x.w, f.w) THEN {SetTop(s, t, [f EXCEPT !.saved = TRUE])} ELSE {}
Entry(s, r, sts) ==     \* what is told of a component: id, name, type, category, state, values
  LET i == Index(s, r[1]) IN i # 0 /\ LET x == s.comps[i] IN r[2] = x.n /\ r[3] = x.ty /\ r[4] = s.P.cat[x.ty] /\ <<x.id, r[5]>> \in sts /\ r[6] = x.v /\ r[7] = x.w
(* a call returns r *)
Return(s, t, op, r, now) ==
  LET f == Top(s, t)
      ok == CASE f.k = "find" -> IF r = 0 THEN f.none ELSE r \in f.found
              [] f.k = "init" -> IF s.P.ccfg[f.c] # 0 THEN r = 0 /\ f.did = {}
                                 ELSE /\ r = 1 /\ \A n \in DOMAIN s.P.listed : s.P.listed[n] = f.c =>
                                            /\ s.P.ty[n] = 4 /\ s.P.cfg[n] = 0 /\ s.P.lib[n] = 1 => 4 \in s.fac
                                            /\ Makeable(s, f.c, n) => n \in f.did \/ Oldest(s, f.c, n) # 0
              [] f.k = "add"  -> (f.did <=> (f.ok /\ f.ty \in s.fac)) /\ (f.ok /\ f.lib => 4 \in s.fac)
              [] f.k = "start" -> \/ f.ph = 1 /\ After(s, f.c, 0, 0) = 0
                                  \/ f.ph = 2 /\ After(s, f.c, f.i, 0) = 0 /\ After(s, f.c, 0, 4) = 0
                                  \/ f.ph = 3 /\ After(s, f.c, f.i, 4) = 0
              [] f.k = "stop" -> \/ f.ph = 1 /\ After(s, f.c, 0, 0) = 0
                                 \/ f.ph = 2 /\ Back(s, f, 0) = 0
              [] f.k = "free" -> \A x \in Range(s.comps) : x.c = f.c => x.gone
              [] f.k = "delete" -> f.done \/ (f.id = 0 /\ f.none)
              [] f.k = "list" -> /\ Cardinality({e[1] : e \in Range(r)}) = Len(r) /\ {e[1] : e \in Range(r)} \in f.snaps /\ \A e \in Range(r) : Entry(s, e, f.sts)
              [] f.k = "read" -> IF r = <<>> THEN 0 \in f.found ELSE Len(r) = 1 /\ r[1][1] \in f.found /\ Entry(s, r[1], f.sts)
              [] f.k = "reconf" -> r = (IF f.cb = 2 THEN 0 ELSE 1) /\ (f.saved <=> (s.P.save /\ f.cb # 2))
              [] f.k = "facfind" -> r = (IF f.ty \in s.fac THEN 1 ELSE 0)
              [] f.k = "facadd" -> TRUE
              [] OTHER -> FALSE IN
  IF f.k # op \/ ~ok THEN {}
  ELSE IF op = "reconf" /\ r = 1 THEN LET i == Index(s, f.id) IN {See([Pop(s, t) EXCEPT !.comps[i].v = Merged(@, f.v), !.comps[i].w = Merged(@, f.w)], now)}
  ELSE {See(Pop(s, t), now)}
Quiet(s) == \A t \in DOMAIN s.stk : s.stk[t] = <<>>
(* ---- the properties, as invariants of the design *)
OneEach(s) == \A i, j \in DOMAIN s.comps : i # j /\ Alive(s.comps[i]) /\ Alive(s.comps[j]) => s.comps[i].c # s.comps[j].c \/ s.comps[i].n # s.comps[j].n
============================================================================

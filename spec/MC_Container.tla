---------------------------- MODULE MC_Container ----------------------------
(* Every configuration of a few components - who is listed, who needs whom, whose making fails - and every order   *)
(* in which threads look components up, initialise, delete, start and stop: the properties hold of the design.     *)
EXTENDS Container, TLC
CONSTANTS T, N, Calls
VARIABLES s, deps, fails, left, ids, pos
(* deps[n]: what making n resolves, in order; pos[t]: for each component being made by t, how far it got *)
vars == <<s, deps, fails, left, ids, pos>>
Names == 1..N
Lists == {<<>>} \cup {<<a>> : a \in Names}
Init ==
  /\ \E l \in [Names -> {0, 1}] : s = Empty([listed |-> l, ty |-> [n \in Names |-> 1], cfg |-> [n \in Names |-> 0], lib |-> [n \in Names |-> 0], ccfg |-> <<0>>, cat |-> <<0>>, save |-> FALSE, fac |-> <<1>>], T)
  /\ deps \in [Names -> Lists] /\ fails \in SUBSET {1} /\ left = Calls /\ ids = 0 /\ pos = [t \in T |-> <<>>]
Idle(t) == s.stk[t] = <<>>
Inv(t, op, a) == s' \in Invoke(s, t, op, a, 0)
InFind(c) == \E t \in DOMAIN s.stk : \E i \in DOMAIN s.stk[t] : s.stk[t][i].k \in c
(* the locks of the code: loading is one thread at a time, deleting excludes all else, starting and stopping exclude loading here *)
Client(t) == /\ Idle(t) /\ left > 0 /\ left' = left - 1 /\ UNCHANGED <<deps, fails, ids, pos>>
             /\ \/ ~InFind({"delete", "start", "stop"}) /\ \E n \in Names : Inv(t, "find", <<1, n>>)
                \/ ~InFind({"find", "start", "stop", "delete", "init"}) /\ Inv(t, "init", <<1>>)
                \/ ~InFind({"find", "start", "stop", "delete", "init"}) /\ \E n \in Names : Inv(t, "delete", <<1, n>>)
                \/ ~InFind({"find", "delete", "init", "start", "stop"}) /\ \E o \in {"start", "stop"} : Inv(t, o, <<1>>)
Loader == Hiders(s) \cup {t \in T : \E i \in DOMAIN s.stk[t] : s.stk[t][i].k = "create"}
Make(t) == /\ Loader \subseteq {t} /\ \E n \in Names : s' \in Cfg(s, t, ids + 1, 1, n, 1, 0)
           /\ ids' = ids + 1 /\ pos' = [pos EXCEPT ![t] = Append(@, 0)] /\ UNCHANGED <<deps, fails, left>>
Resolve(t) == /\ Top(s, t).k = "create" /\ LET p == pos[t][Len(pos[t])] IN p < Len(deps[Top(s, t).n])
              /\ Inv(t, "find", <<1, deps[Top(s, t).n][pos[t][Len(pos[t])] + 1]>>)
              /\ pos' = [pos EXCEPT ![t] = [@ EXCEPT ![Len(@)] = @ + 1]] /\ UNCHANGED <<deps, fails, left, ids>>
Made(t) == /\ Top(s, t).k = "create" /\ pos[t][Len(pos[t])] = Len(deps[Top(s, t).n])
           /\ \E x \in CfgEnd(s, t, Top(s, t).id, IF Top(s, t).n \in fails THEN 0 ELSE 1, 4, 0, 0) : s' = x \/ (Top(s, t).n \notin fails /\ s' = Hide(x, t))
           /\ pos' = [pos EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)] /\ UNCHANGED <<deps, fails, left, ids>>
Ids == {0} \cup {x.id : x \in Range(s.comps)}
Call(t) == /\ \E id \in Ids, k \in {"start", "stop", "free", "running"} : s' \in Cb(s, t, k, id, IF k = "running" THEN 0 ELSE 0, 0)
           /\ UNCHANGED <<deps, fails, left, ids, pos>>
Called(t) == /\ Top(s, t).k = "cb" /\ LET f == Top(s, t) IN
                \E u \in SetDone(s, f.id, IF f.kind = "start" THEN 2 ELSE IF f.kind = "stop" THEN 1 ELSE CHOOSE z \in s.comps[Index(s, f.id)].st : TRUE, 0) : s' \in CbEnd(u, t, f.kind, f.id, 0)
             /\ UNCHANGED <<deps, fails, left, ids, pos>>
Ret(t) == /\ s.stk[t] # <<>> /\ \E r \in Ids \cup {1} : s' \in Return(s, t, Top(s, t).k, r, 0)
          /\ UNCHANGED <<deps, fails, left, ids, pos>>
Turn(t) == Make(t) \/ Resolve(t) \/ Made(t) \/ Call(t) \/ Called(t) \/ Ret(t)
There(t) == t \in Hiders(s) /\ s' = Appear(s, t, 0) /\ UNCHANGED <<deps, fails, left, ids, pos>>
Next == \E t \in T : IF t \in Hiders(s) THEN There(t) ELSE Client(t) \/ Turn(t)
Spec == Init /\ [][Next]_vars
(* ---- properties *)
Once == OneEach(s)
(* what a component resolved while it was made is complete, hence older than it *)
Older == \A t \in T : \A i \in DOMAIN s.stk[t] : s.stk[t][i].k = "find" => \A r \in s.stk[t][i].found : Index(s, r) # 0
NoSelf == \A t \in T : \A i, j \in DOMAIN s.stk[t] : i # j /\ s.stk[t][i].k = "create" /\ s.stk[t][j].k = "create" => s.stk[t][i].n # s.stk[t][j].n
Depth == \A t \in T : Len(s.stk[t]) <= 2 * N + 2
(* no call is stuck: whoever is not waiting for the loader can move *)
Moves == \A t \in T : s.stk[t] # <<>> /\ Loader \subseteq {t} =>
           ENABLED (There(t) \/ Turn(t))
=============================================================================

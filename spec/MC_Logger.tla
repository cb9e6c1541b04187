----------------------------- MODULE MC_Logger -----------------------------
(* All histories of a few loggers: one thread changes levels, starts, stops, chains and frees, others log. *)
EXTENDS Logger, TLC
CONSTANTS T, N, Levels, Ctl, Ops, Logs
VARIABLES s, want, seen, still, own, nops, nlogs
vars == <<s, want, seen, still, own, nops, nlogs>>
(* want: level each logger was last given; seen: loggers that emitted in the call; still: loggers stopped during all of the call; own: references the clients hold *)
Ids == 1..N
Acyclic(i, nx) == nx < i
Init == s = Start0(T, N) /\ want = [i \in Ids |-> 0] /\ seen = [t \in T |-> <<>>] /\ still = [t \in T |-> {}] /\ own = [i \in Ids |-> 0] /\ nops = 0 /\ nlogs = 0
Stopped(x) == {i \in Ids : x.lg[i].alive /\ x.lg[i].st = 1 /\ ~(x.call[Ctl].op = "start" /\ x.call[Ctl].id = i)}
Make == \E i \in Ids, lv \in Levels, st \in BOOLEAN, nx \in 0..N :
   /\ s.lg[i] = Dead /\ Acyclic(i, nx) /\ (\A j \in Ids : j < i => s.lg[j] # Dead) /\ (nx # 0 => own[nx] > 0)
   /\ s' \in New(s, i, "custom", lv, st, nx) /\ want' = [want EXCEPT ![i] = lv] /\ own' = [own EXCEPT ![i] = 1] /\ UNCHANGED <<seen, still, nops, nlogs>>
CtlOp == \E i \in Ids, o \in {"level", "start", "stop", "addref", "free", "next"}, a \in Levels \cup 0..N :
   /\ nops < Ops /\ own[i] > 0 /\ (o = "level" => a \in Levels) /\ (o \notin {"level", "next"} => a = 0)
   /\ (o = "free" /\ own[i] = 1 => \A t \in T \ {Ctl} : s.call[t].op = "")   \* loggers are used by holders of references only: the last goes when no log call runs
   /\ (o = "next" => (a = 0 \/ (a \in Ids /\ Acyclic(i, a) /\ own[a] > 0)) /\ \A t \in T \ {Ctl} : s.call[t].op = "")
   /\ s' \in Invoke(s, Ctl, o, i, a, 0) /\ nops' = nops + 1
   /\ want' = IF o = "level" THEN [want EXCEPT ![i] = a] ELSE want
   /\ own' = [own EXCEPT ![i] = @ + (IF o = "addref" THEN 1 ELSE IF o = "free" THEN -1 ELSE 0)]
   /\ still' = IF o = "start" THEN [t \in T |-> still[t] \ {i}] ELSE still
   /\ UNCHANGED <<seen, nlogs>>
LogOp == \E t \in T \ {Ctl}, i \in Ids, o \in {"macro", "log"}, sev \in Levels \ {0} :
   /\ nlogs < Logs /\ own[i] > 0 /\ ~(s.call[Ctl].op \in {"free", "next"})
   /\ s' \in Invoke(s, t, o, i, sev, 7) /\ nlogs' = nlogs + 1 /\ seen' = [seen EXCEPT ![t] = <<>>] /\ still' = [still EXCEPT ![t] = Stopped(s)] /\ UNCHANGED <<want, own, nops>>
Eff == \E t \in T : s' \in Effect(s, t) /\ UNCHANGED <<want, seen, still, own, nops, nlogs>>
Emit == \E t \in T, i \in Ids : LET e == Sink(s, t, i, s.call[t].arg, 1, 7) IN s' \in e /\ seen' = [seen EXCEPT ![t] = Append(@, i)] /\ UNCHANGED <<want, still, own, nops, nlogs>>
Go == \E t \in T, i \in Ids : s' \in Gone(s, t, i) /\ UNCHANGED <<want, seen, still, own, nops, nlogs>>
Ret == \E t \in T : s' \in Return(s, t, 0) /\ UNCHANGED <<want, seen, still, own, nops, nlogs>>
Next == Make \/ CtlOp \/ LogOp \/ Eff \/ Emit \/ Go \/ Ret
Spec == Init /\ [][Next]_vars
Busy(i) == s.call[Ctl].id = i /\ ~s.call[Ctl].done
(* a running logger has the level it was last given, a stopped one none *)
Level == \A i \in Ids : s.lg[i].alive /\ ~Busy(i) => /\ (s.lg[i].st = 2 => s.lg[i].lv = want[i]) /\ (s.lg[i].st = 1 => s.lg[i].lv = 0) /\ s.lg[i].save = want[i]
(* once per logger and call, in the order of the chain *)
Once == \A t \in T : \A a, b \in 1..Len(seen[t]) : a < b => seen[t][a] > seen[t][b]
Silent == \A t \in T : \A k \in 1..Len(seen[t]) : seen[t][k] \notin still[t]
Refs == s.call[Ctl].op = "" => \A i \in Ids : s.lg[i].alive => s.lg[i].refs = own[i] + Cardinality({j \in Ids : s.lg[j].alive /\ s.lg[j].next = i})
NoEarly == \A i \in Ids : own[i] > 0 => s.lg[i].alive
(* nothing that is alive refers to something that is not *)
Whole == \A i \in Ids : s.lg[i].alive /\ s.lg[i].next # 0 => s.lg[s.lg[i].next].alive
=============================================================================

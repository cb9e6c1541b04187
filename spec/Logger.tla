------------------------------- MODULE Logger -------------------------------
(* Chains of loggers.  A logger has an effective level lv (0: emits nothing), the level it was last    *)
(* given (save), a run state, a successor and a reference count; calls take effect between invocation  *)
(* and return.  A log call walks the chain: at each logger it looks at the level once and, if high     *)
(* enough, produces one record there.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets
MsgMax == 1024
Min(a, b) == IF a < b THEN a ELSE b
Dead == [alive |-> FALSE, kind |-> "", st |-> 0, lv |-> 0, save |-> 0, next |-> 0, refs |-> 0]
Idle == [op |-> "", id |-> 0, arg |-> 0, len |-> 0, pos |-> 0, emit |-> FALSE, ts |-> -1, todo |-> {}, done |-> FALSE]
Start0(T, N) == [lg |-> [i \in 1..N |-> Dead], call |-> [t \in T |-> Idle]]
(* kinds: "custom" has a context that is freed, "file" a file that is closed, "nofile" one that could not be opened,  *)
(* "default" is the one that lives for ever                                                                          *)
Freed == {"custom", "file", "udp"}
Live(s, i) == i \in DOMAIN s.lg /\ s.lg[i].alive
Ref(s, i, n) == IF i = 0 \/ s.lg[i].kind = "default" THEN s ELSE [s EXCEPT !.lg[i].refs = @ + n]
New(s, i, kind, level, start, next) ==
  IF i \notin DOMAIN s.lg \/ s.lg[i].alive \/ (next # 0 /\ ~Live(s, next)) THEN {}
  ELSE {Ref([s EXCEPT !.lg[i] = [alive |-> TRUE, kind |-> kind, st |-> IF start THEN 2 ELSE 0, lv |-> IF start \/ kind = "default" THEN level ELSE 0, save |-> level, next |-> next, refs |-> 1]], next, 1)}
(* one reference fewer; the last one takes the logger, and its hold on the next one, away *)
RECURSIVE Drop(_, _, _)
Drop(s, t, i) ==
  IF i = 0 \/ s.lg[i].kind = "default" THEN s
  ELSE IF s.lg[i].refs > 1 THEN [s EXCEPT !.lg[i].refs = @ - 1]
  ELSE Drop([s EXCEPT !.lg[i] = [Dead EXCEPT !.kind = "was"], !.call[t].todo = IF s.lg[i].kind \in Freed THEN @ \cup {i} ELSE @], t, s.lg[i].next)
RECURSIVE DropAll(_, _, _)
DropAll(s, t, X) == IF X = {} THEN s ELSE LET i == CHOOSE j \in X : TRUE IN DropAll(Drop(s, t, i), t, X \ {i})
Invoke(s, t, op, i, arg, len) ==
  IF s.call[t].op # "" \/ ~Live(s, i) THEN {} ELSE {[s EXCEPT !.call[t] = [Idle EXCEPT !.op = op, !.id = i, !.arg = arg, !.len = len, !.pos = IF op = "log" THEN i ELSE 0]]}
Done(s, t) == [s EXCEPT !.call[t].done = TRUE]
Goto(s, t, i) == IF i = 0 THEN Done([s EXCEPT !.call[t].pos = 0, !.call[t].emit = FALSE], t) ELSE [s EXCEPT !.call[t].pos = i, !.call[t].emit = FALSE]
(* "macro" logs through the macros, which look at the level of the first logger first *)
Effect(s, t) ==
  LET c == s.call[t] IN
  IF c.op = "" \/ c.done THEN {}
  ELSE CASE c.op = "macro" -> IF c.pos = 0 THEN IF s.lg[c.id].lv >= c.arg THEN {[s EXCEPT !.call[t].pos = c.id]} ELSE {Done(s, t)}
                              ELSE IF c.emit THEN {} ELSE IF s.lg[c.pos].lv >= c.arg /\ s.lg[c.pos].kind # "nofile" THEN {[s EXCEPT !.call[t].emit = TRUE]} ELSE {Goto(s, t, s.lg[c.pos].next)}
         [] c.op = "log"   -> IF c.emit THEN {} ELSE IF s.lg[c.pos].lv >= c.arg /\ s.lg[c.pos].kind # "nofile" THEN {[s EXCEPT !.call[t].emit = TRUE]} ELSE {Goto(s, t, s.lg[c.pos].next)}
         [] c.op = "level" -> {Done([s EXCEPT !.lg[c.id].save = c.arg, !.lg[c.id].lv = IF s.lg[c.id].st = 1 THEN @ ELSE c.arg], t)}
         [] c.op = "start" -> {Done([s EXCEPT !.lg[c.id].st = 2, !.lg[c.id].lv = s.lg[c.id].save], t)}
         [] c.op = "stop"  -> {Done([s EXCEPT !.lg[c.id].st = 1, !.lg[c.id].lv = 0], t)}
         [] c.op = "addref" -> {Done(Ref(s, c.id, 1), t)}
         [] c.op = "free"  -> {Done(Drop(s, t, c.id), t)}
         [] c.op = "freeall" -> {Done(DropAll(s, t, {i \in DOMAIN s.lg : s.lg[i].alive}), t)}
         [] c.op = "next"  -> IF c.arg # 0 /\ ~Live(s, c.arg) THEN {} ELSE {Done(Drop(Ref([s EXCEPT !.lg[c.id].next = c.arg], c.arg, 1), t, s.lg[c.id].next), t)}
         [] c.op = "query" -> {Done([s EXCEPT !.call[t].ts = s.lg[c.id].st], t)}
         [] OTHER -> {}
(* a record appears at logger i *)
Emits(s, t, i, sev) == s.call[t].op \in {"macro", "log"} /\ s.call[t].emit /\ s.call[t].pos = i /\ s.call[t].arg = sev
Stamp(s, t, ts) == s.call[t].ts \in {-1, ts}
After(s, t, i, ts) == Goto([s EXCEPT !.call[t].ts = ts], t, s.lg[i].next)
(* handed to the function of the user: the message, cut to the limit *)
Sink(s, t, i, sev, ts, len) == IF Emits(s, t, i, sev) /\ Stamp(s, t, ts) /\ s.lg[i].kind = "custom" /\ len = Min(s.call[t].len, MsgMax - 1) THEN {After(s, t, i, ts)} ELSE {}
(* written as one record: head, message, new line, within the limit, to the stream its kind and severity demand *)
Stream(kind, sev) == CASE kind \in {"console", "default"} -> IF sev > 2 THEN "out" ELSE "err" [] OTHER -> kind
Record(s, t, i, sev, ts, head, len, stream) ==
  IF Emits(s, t, i, sev) /\ Stamp(s, t, ts) /\ stream = Stream(s.lg[i].kind, sev) /\ len = Min(head + Min(s.call[t].len, MsgMax - 1) + 1, MsgMax - 1) THEN {After(s, t, i, ts)} ELSE {}
Gone(s, t, i) == IF i \in s.call[t].todo THEN {[s EXCEPT !.call[t].todo = @ \ {i}]} ELSE {}
Return(s, t, r) == IF s.call[t].op # "" /\ s.call[t].done /\ s.call[t].todo = {} /\ (s.call[t].op = "query" => s.call[t].ts = r) THEN {[s EXCEPT !.call[t] = Idle]} ELSE {}
=============================================================================

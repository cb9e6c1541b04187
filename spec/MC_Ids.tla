------------------------------- MODULE MC_Ids -------------------------------
(* The generator under its lock against the identifier specification: threads draw from one stream.  Draws are numbers. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Calls, Bug      \* Bug: "none", "nolock", "reinit" (initialised test outside the lock, seed reread)
VARIABLES lock, ready, stream, source, pc, tmp, left, out
vars == <<lock, ready, stream, source, pc, tmp, left, out>>
Free == 0
Init == /\ lock = Free /\ ready = FALSE /\ stream = 0 /\ source = 100 /\ pc = [t \in Threads |-> "idle"] /\ tmp = [t \in Threads |-> 0] /\ left = [t \in Threads |-> Calls] /\ out = <<>>
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
Enter(t) == pc[t] = "idle" /\ left[t] > 0 /\ left' = [left EXCEPT ![t] = @ - 1] /\ (IF Bug = "nolock" THEN UNCHANGED lock ELSE lock = Free /\ lock' = t) /\ Go(t, "seed") /\ UNCHANGED <<ready, stream, source, tmp, out>>
(* the random source may fail or give too little any number of times; then it gives something never given before *)
Seed(t) == pc[t] = "seed" /\ (IF ready THEN UNCHANGED <<ready, stream, source>> ELSE ready' = TRUE /\ stream' = source /\ source' = source + 100) /\ Go(t, "read") /\ UNCHANGED <<lock, tmp, left, out>>
Read(t) == pc[t] = "read" /\ tmp' = [tmp EXCEPT ![t] = stream] /\ Go(t, "write") /\ UNCHANGED <<lock, ready, stream, source, left, out>>
Write(t) == pc[t] = "write" /\ stream' = tmp[t] + 1 /\ Go(t, "leave") /\ UNCHANGED <<lock, ready, source, tmp, left, out>>
Leave(t) == pc[t] = "leave" /\ lock' = (IF Bug = "nolock" THEN lock ELSE Free) /\ out' = Append(out, tmp[t]) /\ Go(t, "idle") /\ UNCHANGED <<ready, stream, source, tmp, left>>
Next == \E t \in Threads : Enter(t) \/ Seed(t) \/ Read(t) \/ Write(t) \/ Leave(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Seed(t) \/ Read(t) \/ Write(t) \/ Leave(t))
Unique == Cardinality({out[i] : i \in DOMAIN out}) = Len(out)
Ends == \A t \in Threads : pc[t] = "seed" ~> pc[t] = "idle"
=============================================================================

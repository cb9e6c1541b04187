------------------------------ MODULE MC_Share ------------------------------
(* The counting scheme of the code (an atomic counter per value, the drop that takes it from one releases) keeps to Share, for every interleaving. *)
EXTENDS Share
CONSTANTS T, X, MaxOps
VARIABLES s, c, at, left
vars == <<s, c, at, left>>
Init == s = Start(T, X) /\ c = [x \in X |-> Cardinality(T)] /\ at = [t \in T |-> <<"idle", 0>>] /\ left = [t \in T |-> MaxOps]
Add(t, x) == at[t][1] = "idle" /\ left[t] > 0 /\ s.held[t][x] > 0 /\ c' = [c EXCEPT ![x] = @ + 1] /\ s' \in Ref(s, t, x) /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED at
Begin(t, x) == at[t][1] = "idle" /\ s.held[t][x] > 0 /\ s' \in Drop(s, t, x) /\ at' = [at EXCEPT ![t] = <<"sub", x>>] /\ UNCHANGED <<c, left>>
Sub(t) == at[t][1] = "sub" /\ LET x == at[t][2] IN c' = [c EXCEPT ![x] = @ - 1] /\ at' = [at EXCEPT ![t] = <<IF c[x] = 1 THEN "rel" ELSE "done", x>>] /\ UNCHANGED <<s, left>>
Rel(t) == at[t][1] = "rel" /\ s' \in Release(s, at[t][2]) /\ at' = [at EXCEPT ![t][1] = "done"] /\ UNCHANGED <<c, left>>
Done(t) == at[t][1] = "done" /\ s' \in Dropped(s, at[t][2]) /\ at' = [at EXCEPT ![t] = <<"idle", 0>>] /\ UNCHANGED <<c, left>>
Next == \E t \in T : (\E x \in X : Add(t, x) \/ Begin(t, x)) \/ Sub(t) \/ Rel(t) \/ Done(t)
Spec == Init /\ [][Next]_vars
Allowed == \A t \in T : /\ at[t][1] = "rel" => Release(s, at[t][2]) # {}
                        /\ at[t][1] = "done" => Dropped(s, at[t][2]) # {}
Safe == \A x \in s.rel : Refs(s, x) = 0
AllGone == (\A t \in T : at[t][1] = "idle" /\ \A x \in X : s.held[t][x] = 0) => s.rel = X
=============================================================================

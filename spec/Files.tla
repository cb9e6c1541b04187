------------------------------- MODULE Files -------------------------------
(* Files, the store built on them, and configurations kept in the store.                                    *)
(* A disk maps the names of regular files to contents; contents are numbers (0: no bytes at all, -2: no such *)
(* file, -1: anything that was never written).  Names are relative to one directory.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Absent == -2
Empty == 0
At(disk, n) == IF n \in DOMAIN disk THEN disk[n] ELSE Absent
With(disk, n, c) == [x \in DOMAIN disk \cup {n} |-> IF x = n THEN c ELSE disk[x]]
Without(disk, n) == [x \in DOMAIN disk \ {n} |-> disk[x]]
EndsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
StartsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, 1, Len(t)) = t
HasPart(s, t) == \E i \in 0..(Len(s) - Len(t)) : SubSeq(s, i + 1, i + Len(t)) = t
Json == ".json"
(* the place of a configuration in the store *)
ConfigPath(name, uri, hasUri) == IF hasUri THEN uri \o "/" \o name \o Json ELSE name \o Json
(* what a reader of a file sees, in the order in which it looks, while the file is replaced by new contents: *)
(* the old contents and then the new ones, whole                                                             *)
Replaces(seen, old, new) ==
  \E k \in 0..Len(seen) : (\A i \in 1..k : seen[i] = old) /\ (\A i \in (k + 1)..Len(seen) : seen[i] = new)
(* names selected by a pattern <<kind, text>> *)
Selects(p, n) == CASE p[1] = "all" -> TRUE [] p[1] = "suffix" -> EndsWith(n, p[2]) [] p[1] = "prefix" -> StartsWith(n, p[2]) [] p[1] = "part" -> HasPart(n, p[2]) [] p[1] = "whole" -> n = p[2]
Listing(disk, p) == {n \in DOMAIN disk : Selects(p, n)}
ConfigNames(disk) == {SubSeq(n, 1, Len(n) - 5) : n \in {m \in DOMAIN disk : EndsWith(m, Json)}}
=============================================================================

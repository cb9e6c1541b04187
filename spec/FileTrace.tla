------------------------------ MODULE FileTrace ------------------------------
EXTENDS Files, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, disk, loose, mem, mode
vars == <<tid, l, disk, loose, mem, mode>>
Set(s) == {s[i] : i \in DOMAIN s}
(* what a directory scan found, <<name, contents>> each, against the disk the specification expects; what a write that failed *)
(* left behind beside the file (under a longer name) does not matter                                                          *)
Same(found, d) == Len(found) = Cardinality(DOMAIN d) /\ \A i \in DOMAIN found : found[i][1] \in DOMAIN d /\ d[found[i][1]] = found[i][2]
(* what a failed write left behind: a file under another name; from then on it may hold anything, and a write may remove it *)
SameBut(found, d) ==
  /\ \A x \in DOMAIN d : \E i \in DOMAIN found : found[i] = <<x, d[x]>>

Tidy(found) == SelectSeq(found, LAMBDA x : x[1] \notin loose)
DiskOf(found, but) == [n \in {found[i][1] : i \in DOMAIN found} \ but |-> found[CHOOSE i \in DOMAIN found : found[i][1] = n][2]]
(* ["write", name, contents, must succeed, must fail, fault, result, contents seen on the way, directory after, handles left open] *)
Write(e) ==
  LET n == e[2]  old == At(disk, n)  new == e[3]  all == {e[9][i][1] : i \in DOMAIN e[9]} IN
  /\ e[10] = 0
  /\ (e[4] = 1 => e[7] = 1) /\ (e[5] = 1 => e[7] = 0)
  /\ IF e[7] = 1 THEN Replaces(e[8], old, new) /\ Same(SelectSeq(e[9], LAMBDA x : x[1] \notin loose \ {n}), With(disk, n, new)) /\ loose' = (loose \ {n}) \cap all
     ELSE (\A i \in DOMAIN e[8] : e[8][i] = old) /\ SameBut(e[9], disk) /\ loose' = all \ DOMAIN disk
  /\ disk' = DiskOf(e[9], loose') /\ UNCHANGED <<mem, mode>>
(* ["read", name, fault, contents, length right, handles left open] *)
Read(e) ==
  /\ e[6] = 0 /\ e[5] = 1
  /\ LET c == At(disk, e[2])  there == IF c \in {Absent, Empty} THEN Absent ELSE c IN IF e[3] = 0 THEN e[4] = there ELSE e[4] \in {there, Absent}
  /\ UNCHANGED <<disk, loose, mem, mode>>
(* ["delete", name, fault, result, directory after] *)
Delete(e) ==
  LET d == IF e[4] = 1 THEN Without(disk, e[2]) ELSE disk IN
  /\ (e[4] = 1 => e[2] \in DOMAIN disk) /\ (e[3] = 0 /\ e[2] \in DOMAIN disk => e[4] = 1)
  /\ Same(Tidy(e[5]), d) /\ disk' = d /\ UNCHANGED <<loose, mem, mode>>
(* ["list", <<kind, text>>, directory exists, pattern is one, <<0>> or <<1, names>>, handles left open] *)
List(e) ==
  /\ e[6] = 0
  /\ IF e[3] = 0 \/ e[4] = 0 THEN e[5] = <<0>> ELSE Len(e[5]) = 2 /\ Len(e[5][2]) = Cardinality(Set(e[5][2])) /\ Set(e[5][2]) \ loose = Listing(disk, e[2])
  /\ UNCHANGED <<disk, loose, mem, mode>>
(* ["confs", directory exists, <<0>> or <<1, names>>, handles] *)
Confs(e) ==
  /\ e[4] = 0
  /\ IF e[2] = 0 THEN e[3] \in {<<0>>, <<1, <<>>>>} ELSE Len(e[3]) = 2 /\ Len(e[3][2]) = Cardinality(Set(e[3][2])) /\ Set(e[3][2]) \ ConfigNames([n \in loose |-> 0]) = ConfigNames(disk) \ ConfigNames([n \in loose |-> 0])
  /\ UNCHANGED <<disk, loose, mem, mode>>
(* the store in front of functions that were registered: "mem" (kept by the harness, which records each call as <<operation, path, *)
(* contents>>), "none", "file"; ["sw" | "sr" | "sd", operation name, arguments.., result, calls made]                             *)
StorePath(e) == IF e[2] = "conf" THEN ConfigPath(e[3], e[4], e[5] = 1) ELSE e[3]
SWrite(e) ==   \* contents e[6], does the back end agree e[7], result e[8], calls e[9]
  LET p == StorePath(e) IN
  CASE mode = "none" -> e[8] = 0 /\ e[9] = <<>> /\ UNCHANGED mem
    [] mode = "mem" -> e[9] = <<<<"w", p, e[6]>>>> /\ e[8] = e[7] /\ mem' = IF e[7] = 1 THEN With(mem, p, e[6]) ELSE mem
SRead(e) ==    \* result e[6], length right e[7], calls e[8]
  LET p == StorePath(e) IN
  CASE mode = "none" -> e[6] = Absent /\ e[8] = <<>>
    [] mode = "mem" -> e[8] = <<<<"r", p, 0>>>> /\ e[6] = At(mem, p) /\ e[7] = 1
SDelete(e) ==  \* result e[6], calls e[7]
  LET p == StorePath(e) IN
  CASE mode = "none" -> e[6] = 0 /\ e[7] = <<>> /\ UNCHANGED mem
    [] mode = "mem" -> e[7] = <<<<"d", p, 0>>>> /\ e[6] = (IF p \in DOMAIN mem THEN 1 ELSE 0) /\ mem' = Without(mem, p)
Step(e) ==
  CASE e[1] = "write" -> Write(e)
    [] e[1] = "read" -> Read(e)
    [] e[1] = "delete" -> Delete(e)
    [] e[1] = "list" -> List(e)
    [] e[1] = "confs" -> Confs(e)
    [] e[1] = "put" -> disk' = With(disk, e[2], e[3]) /\ loose' = loose \ {e[2]} /\ UNCHANGED <<mem, mode>>      \* the harness changes a file itself
    [] e[1] = "backend" -> mode' = e[2] /\ UNCHANGED <<disk, loose, mem>>
    [] e[1] = "sw" -> SWrite(e) /\ UNCHANGED <<disk, loose, mode>>
    [] e[1] = "sr" -> SRead(e) /\ UNCHANGED <<disk, loose, mem, mode>>
    [] e[1] = "sd" -> SDelete(e) /\ UNCHANGED <<disk, loose, mode>>
    [] e[1] = "live" -> e[2] = 0 /\ UNCHANGED <<disk, loose, mem, mode>>
    [] e[1] = "end" -> UNCHANGED <<disk, loose, mem, mode>>
    [] OTHER -> FALSE /\ UNCHANGED <<disk, loose, mem, mode>>
Init == tid \in 1..Len(Traces) /\ l = 1 /\ disk = <<>> /\ loose = {} /\ mem = <<>> /\ mode = "file"
Next == /\ l <= Len(Traces[tid].ev)
        /\ IF ~ENABLED Step(Traces[tid].ev[l]) THEN PrintT(<<"REJECT", tid, l>>) /\ l' = 1000000 /\ UNCHANGED <<tid, disk, loose, mem, mode>>
           ELSE Step(Traces[tid].ev[l]) /\ l' = l + 1 /\ UNCHANGED tid /\ (l < Len(Traces[tid].ev) \/ PrintT(<<"ACCEPT", tid>>))
Spec == Init /\ [][Next]_vars
=============================================================================

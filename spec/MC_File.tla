------------------------------ MODULE MC_File ------------------------------
(* The protocol behind a file write, as a small state machine with faults and crashes at every step, checked    *)
(* against the atomic replacement of Files.tla: a temporary file beside the target is filled through a buffer,   *)
(* closed, and given the name of the target.  Protocols that leave out one of the precautions are here too; for *)
(* each of them TLC finds the behaviour that breaks atomicity (configurations MC_FileBad*.cfg).                  *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Blocks,        \* the new contents are this many blocks
          CheckClose,    \* the result of close is looked at
          CheckRename,   \* the result of rename is looked at
          UseTemp        \* the data goes to a temporary file first
VARIABLES pc, target, temp, buffered, ok, result, crashed, lost
vars == <<pc, target, temp, buffered, ok, result, crashed, lost>>
Old == [c |-> "old", n |-> 1]
New(n) == [c |-> "new", n |-> n]
Whole == New(Blocks)
Init == pc = "start" /\ target \in {<<>>, <<Old>>} /\ temp = <<>> /\ buffered = 0 /\ ok = FALSE /\ result = "none" /\ crashed = FALSE /\ lost = FALSE
Put(f) == IF UseTemp THEN temp' = f /\ UNCHANGED target ELSE target' = f /\ UNCHANGED temp
Cur == IF UseTemp THEN temp ELSE target
Open == /\ pc = "start"
        /\ \/ Put(<<New(0)>>) /\ pc' = "write" /\ UNCHANGED result
           \/ pc' = "done" /\ result' = "no" /\ UNCHANGED <<target, temp>>
        /\ UNCHANGED <<buffered, ok, crashed, lost>>
(* some blocks reach the disk, the others stay in the buffer; or the disk is full and some are lost for good, which is noticed now *)
WriteData == /\ pc = "write"
             /\ \E k \in 0..Blocks : Put(<<New(k)>>) /\ ((buffered' = Blocks - k /\ ok' = TRUE) \/ (buffered' = 0 /\ ok' = FALSE /\ k < Blocks))
             /\ pc' = "close" /\ UNCHANGED <<result, crashed, lost>>
Close == /\ pc = "close"
         /\ \/ Put(<<New(Cur[1].n + buffered)>>) /\ ok' = ok /\ UNCHANGED lost
            \/ \E k \in 0..buffered : buffered > 0 /\ k < buffered /\ Put(<<New(Cur[1].n + k)>>) /\ ok' = (IF CheckClose THEN FALSE ELSE ok) /\ lost' = TRUE
         /\ buffered' = 0 /\ pc' = "rename" /\ UNCHANGED <<result, crashed>>
Rename == /\ pc = "rename"
          /\ IF ~ok THEN result' = "no" /\ UNCHANGED <<target, temp>>
             ELSE IF ~UseTemp THEN result' = "yes" /\ UNCHANGED <<target, temp>>
             ELSE \/ target' = temp /\ temp' = <<>> /\ result' = "yes"
                  \/ result' = (IF CheckRename THEN "no" ELSE "yes") /\ UNCHANGED <<target, temp>>
          /\ pc' = "done" /\ UNCHANGED <<buffered, ok, crashed, lost>>
Crash == ~crashed /\ pc # "done" /\ crashed' = TRUE /\ pc' = "dead" /\ buffered' = 0 /\ UNCHANGED <<target, temp, ok, result, lost>>
Next == Open \/ WriteData \/ Close \/ Rename \/ Crash
Spec == Init /\ [][Next]_vars
(* at every moment, whether the program goes on or not, the file is the old one or the whole new one *)
Atomic == target \in {<<>>, <<Old>>, <<Whole>>}
(* success is reported only with the new contents in place, failure only with the old ones *)
Honest == (result = "yes" => target = <<Whole>>) /\ (result = "no" => target \in {<<>>, <<Old>>})
OneWay == [][target # target' => target' = <<Whole>>]_vars
=============================================================================

------------------------------ MODULE CowRace -------------------------------
(***************************************************************************)
(* The copy-on-write protocol of ubuf.go at the grain of its atomic steps. *)
(* Every handle is owned by one goroutine; goroutines write to, read and   *)
(* snapshot their own handle, and a snapshot is given to a new goroutine.  *)
(* "release" says when the shared data is released: after copying it (the  *)
(* code), or before (the mistake that commit 9789893 repaired); "count"    *)
(* says whether the reference count is changed atomically.                 *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS MaxHandles, MaxWrites, Release, Atomic

VARIABLES n,      \* number of handles (= goroutines)
          ptr,    \* handle -> data
          cow,    \* handle -> flag
          rc,     \* data -> reference count
          val,    \* data -> content (one abstract value)
          nd,     \* number of data blocks
          ideal,  \* handle -> content if it were private
          pc, old, new, tmp, \* per goroutine
          acc,    \* goroutine -> [d, w]: the data it is accessing right now
          wr      \* writes done
vars == <<n, ptr, cow, rc, val, nd, ideal, pc, old, new, tmp, acc, wr>>
H == 1..MaxHandles
D == 1..(MaxHandles * (MaxWrites + 1))
None == [d |-> 0, w |-> FALSE]

Init ==
  /\ n = 1 /\ nd = 1
  /\ ptr = [h \in H |-> IF h = 1 THEN 1 ELSE 0]
  /\ cow = [h \in H |-> FALSE]
  /\ rc = [d \in D |-> IF d = 1 THEN 1 ELSE 0]
  /\ val = [d \in D |-> 0]
  /\ ideal = [h \in H |-> 0]
  /\ pc = [h \in H |-> "idle"]
  /\ old = [h \in H |-> 0] /\ new = [h \in H |-> 0] /\ tmp = [h \in H |-> 0]
  /\ acc = [h \in H |-> None]
  /\ wr = [h \in H |-> 0]

Goto(h, l) == pc' = [pc EXCEPT ![h] = l]

StartWrite(h) ==
  /\ pc[h] = "idle" /\ wr[h] < MaxWrites
  /\ wr' = [wr EXCEPT ![h] = @ + 1]
  /\ IF cow[h] THEN /\ cow' = [cow EXCEPT ![h] = FALSE] /\ Goto(h, "load")
               ELSE /\ cow' = cow /\ Goto(h, "write")
  /\ UNCHANGED <<n, ptr, rc, val, nd, ideal, old, new, tmp, acc>>
Load(h) ==
  /\ pc[h] = "load"
  /\ Goto(h, IF rc[ptr[h]] = 1 THEN "write" ELSE IF Release = "before" THEN "dec" ELSE "copy")
  /\ UNCHANGED <<n, ptr, cow, rc, val, nd, ideal, old, new, tmp, acc, wr>>
BeginCopy(h) ==
  /\ pc[h] = "copy"
  /\ acc' = [acc EXCEPT ![h] = [d |-> ptr[h], w |-> FALSE]]
  /\ Goto(h, "copying")
  /\ UNCHANGED <<n, ptr, cow, rc, val, nd, ideal, old, new, tmp, wr>>
EndCopy(h) ==
  /\ pc[h] = "copying"
  /\ acc' = [acc EXCEPT ![h] = None]
  /\ nd' = nd + 1
  /\ new' = [new EXCEPT ![h] = nd + 1]
  /\ val' = [val EXCEPT ![nd + 1] = val[ptr[h]]]
  /\ rc' = [rc EXCEPT ![nd + 1] = 1]
  /\ Goto(h, IF Release = "before" THEN "switch" ELSE "dec")
  /\ UNCHANGED <<n, ptr, cow, ideal, old, tmp, wr>>
Dec(h) ==
  /\ pc[h] = "dec"
  /\ IF Atomic
     THEN /\ rc' = [rc EXCEPT ![ptr[h]] = @ - 1]
          /\ Goto(h, IF Release = "before" THEN "copy" ELSE "switch")
          /\ tmp' = tmp
     ELSE /\ tmp' = [tmp EXCEPT ![h] = rc[ptr[h]]] /\ Goto(h, "dec2") /\ rc' = rc
  /\ UNCHANGED <<n, ptr, cow, val, nd, ideal, old, new, acc, wr>>
Dec2(h) ==
  /\ pc[h] = "dec2"
  /\ rc' = [rc EXCEPT ![ptr[h]] = tmp[h] - 1]
  /\ Goto(h, IF Release = "before" THEN "copy" ELSE "switch")
  /\ UNCHANGED <<n, ptr, cow, val, nd, ideal, old, new, tmp, acc, wr>>
Switch(h) ==
  /\ pc[h] = "switch"
  /\ ptr' = [ptr EXCEPT ![h] = new[h]]
  /\ Goto(h, "write")
  /\ UNCHANGED <<n, cow, rc, val, nd, ideal, old, new, tmp, acc, wr>>
BeginWrite(h) ==
  /\ pc[h] = "write"
  /\ acc' = [acc EXCEPT ![h] = [d |-> ptr[h], w |-> TRUE]]
  /\ Goto(h, "writing")
  /\ UNCHANGED <<n, ptr, cow, rc, val, nd, ideal, old, new, tmp, wr>>
EndWrite(h) ==
  /\ pc[h] = "writing"
  /\ acc' = [acc EXCEPT ![h] = None]
  /\ val' = [val EXCEPT ![ptr[h]] = 10 * h + wr[h]]
  /\ ideal' = [ideal EXCEPT ![h] = 10 * h + wr[h]]
  /\ Goto(h, "idle")
  /\ UNCHANGED <<n, ptr, cow, rc, nd, old, new, tmp, wr>>
BeginRead(h) ==
  /\ pc[h] = "idle"
  /\ acc' = [acc EXCEPT ![h] = [d |-> ptr[h], w |-> FALSE]]
  /\ Goto(h, "reading")
  /\ UNCHANGED <<n, ptr, cow, rc, val, nd, ideal, old, new, tmp, wr>>
EndRead(h) ==
  /\ pc[h] = "reading"
  /\ acc' = [acc EXCEPT ![h] = None]
  /\ Goto(h, "idle")
  /\ UNCHANGED <<n, ptr, cow, rc, val, nd, ideal, old, new, tmp, wr>>
Snap(h) ==
  /\ pc[h] = "idle" /\ n < MaxHandles
  /\ Atomic
  /\ rc' = [rc EXCEPT ![ptr[h]] = @ + 1]
  /\ cow' = [cow EXCEPT ![h] = TRUE, ![n + 1] = TRUE]
  /\ ptr' = [ptr EXCEPT ![n + 1] = ptr[h]]
  /\ ideal' = [ideal EXCEPT ![n + 1] = ideal[h]]
  /\ n' = n + 1
  /\ UNCHANGED <<val, nd, pc, old, new, tmp, acc, wr>>
SnapLoad(h) ==
  /\ pc[h] = "idle" /\ n < MaxHandles /\ ~Atomic
  /\ tmp' = [tmp EXCEPT ![h] = rc[ptr[h]]]
  /\ Goto(h, "snap2")
  /\ UNCHANGED <<n, ptr, cow, rc, val, nd, ideal, old, new, acc, wr>>
SnapStore(h) ==
  /\ pc[h] = "snap2" /\ n < MaxHandles
  /\ rc' = [rc EXCEPT ![ptr[h]] = tmp[h] + 1]
  /\ cow' = [cow EXCEPT ![h] = TRUE, ![n + 1] = TRUE]
  /\ ptr' = [ptr EXCEPT ![n + 1] = ptr[h]]
  /\ ideal' = [ideal EXCEPT ![n + 1] = ideal[h]]
  /\ n' = n + 1
  /\ Goto(h, "idle")
  /\ UNCHANGED <<val, nd, old, new, tmp, acc, wr>>

Next == \E h \in 1..n :
  \/ StartWrite(h) \/ Load(h) \/ BeginCopy(h) \/ EndCopy(h) \/ Dec(h) \/ Dec2(h) \/ Switch(h)
  \/ BeginWrite(h) \/ EndWrite(h) \/ BeginRead(h) \/ EndRead(h)
  \/ Snap(h) \/ SnapLoad(h) \/ SnapStore(h)
Spec == Init /\ [][Next]_vars

\* no handle can see what another one does
Seen(h) == IF (pc[h] \in {"dec", "dec2"} /\ Release = "after") \/ pc[h] = "switch"
           THEN val[new[h]] ELSE val[ptr[h]]
Private == \A h \in 1..n : Seen(h) = ideal[h]
\* no access to bytes that another goroutine is writing
NoRace == \A g, h \in 1..n :
            (g # h /\ acc[g].d # 0 /\ acc[g].d = acc[h].d) => ~acc[g].w /\ ~acc[h].w
=============================================================================

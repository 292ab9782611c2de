------------------------------- MODULE StatMC --------------------------------
(***************************************************************************)
(* The statistics processor under concurrency: the endpoints' writers and  *)
(* the connections' readers count, every reader may also answer a query.   *)
(* Steps are as small as the memory accesses between them.                 *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Writers, Readers, \* threads
          Each,             \* messages per thread
          Queries,          \* queries per reader
          Mistake           \* "none", "nolock", "self" (queries are counted), "early" (counts before it sees the kind)
VARIABLES pc, tmp, tx, rx, lock, todo, ask, put, fed, wired, handed, ans, lo
vars == <<pc, tmp, tx, rx, lock, todo, ask, put, fed, wired, handed, ans, lo>>
Threads == Writers \union Readers
Init == /\ pc = [t \in Threads |-> "idle"] /\ tmp = [t \in Threads |-> <<0, 0>>]
        /\ tx = 0 /\ rx = 0 /\ lock = {} /\ todo = [t \in Threads |-> Each]
        /\ ask = [t \in Readers |-> Queries]
        /\ put = 0 /\ fed = 0 /\ wired = 0 /\ handed = 0
        /\ ans = [t \in Readers |-> <<>>] /\ lo = [t \in Readers |-> <<0, 0>>]
Free(t) == Mistake = "nolock" \/ lock = {} \/ lock = {t}
Take(t) == lock' = IF Mistake = "nolock" THEN lock ELSE {t}
Go(t, x) == pc' = [pc EXCEPT ![t] = x]

Begin(t) == /\ pc[t] = "idle" /\ todo[t] > 0 /\ todo' = [todo EXCEPT ![t] = @ - 1]
            /\ Go(t, "count")
            /\ IF t \in Writers THEN put' = put + 1 /\ UNCHANGED fed ELSE fed' = fed + 1 /\ UNCHANGED put
            /\ UNCHANGED <<tmp, tx, rx, lock, ask, wired, handed, ans, lo>>
Ask(t) == /\ t \in Readers /\ pc[t] = "idle" /\ ask[t] > 0 /\ ask' = [ask EXCEPT ![t] = @ - 1]
          /\ lo' = [lo EXCEPT ![t] = <<wired, handed>>]
          /\ IF Mistake = "self" THEN Go(t, "selfcount") ELSE Go(t, "answer")
          /\ UNCHANGED <<tmp, tx, rx, lock, todo, put, fed, wired, handed, ans>>
Load(t) == /\ pc[t] \in {"count", "selfcount"} /\ Free(t) /\ Take(t)
           /\ tmp' = [tmp EXCEPT ![t] = <<tx, rx>>]
           /\ Go(t, IF pc[t] = "count" THEN "store" ELSE "selfstore")
           /\ UNCHANGED <<tx, rx, todo, ask, put, fed, wired, handed, ans, lo>>
Store(t) == /\ pc[t] \in {"store", "selfstore"}
            /\ IF t \in Writers THEN tx' = tmp[t][1] + 1 /\ UNCHANGED rx ELSE rx' = tmp[t][2] + 1 /\ UNCHANGED tx
            /\ lock' = {} /\ Go(t, IF pc[t] = "store" THEN "pass" ELSE "answer")
            /\ UNCHANGED <<tmp, todo, ask, put, fed, wired, handed, ans, lo>>
Pass(t) == /\ pc[t] = "pass" /\ Go(t, "idle")
           /\ IF t \in Writers THEN wired' = wired + 1 /\ UNCHANGED handed ELSE handed' = handed + 1 /\ UNCHANGED wired
           /\ UNCHANGED <<tmp, tx, rx, lock, todo, ask, put, fed, ans, lo>>
Answer(t) == /\ pc[t] = "answer" /\ Free(t) /\ tmp' = [tmp EXCEPT ![t] = <<tx, rx>>]
             /\ Go(t, "write")
             /\ UNCHANGED <<tx, rx, lock, todo, ask, put, fed, wired, handed, ans, lo>>
Write(t) == /\ pc[t] = "write" /\ Go(t, "idle")
            /\ ans' = [ans EXCEPT ![t] = Append(@, <<tmp[t], lo[t], <<put, fed>>>>)]
            /\ UNCHANGED <<tmp, tx, rx, lock, todo, ask, put, fed, wired, handed, lo>>
Next == \E t \in Threads : Begin(t) \/ Ask(t) \/ Load(t) \/ Store(t) \/ Pass(t) \/ Answer(t) \/ Write(t)
Spec == Init /\ [][Next]_vars

\* an answer lies between what was through when the query came and what had
\* begun when the answer left: the bounds StatTrace.tla uses for recorded runs
Between == \A t \in Readers : \A k \in 1..Len(ans[t]) : LET a == ans[t][k] IN
             \A j \in {1, 2} : a[2][j] <= a[1][j] /\ a[1][j] <= a[3][j]
Idle == \A t \in Threads : pc[t] = "idle"
ExactWhenIdle == Idle => tx = put /\ rx = fed
OnePerQuery == Idle => \A t \in Readers : Len(ans[t]) = Queries - ask[t]
=============================================================================

------------------------------- MODULE ChurnMC -------------------------------
(***************************************************************************)
(* What is kept of connections that come and go: by the lower deck, by the *)
(* reader's goroutine, by the goroutines that send something every         *)
(* interval, by the reassembly caches, and by the transport's list.  A     *)
(* write that fails may report the end while the reader is still busy with *)
(* the last bytes.                                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Conns, MaxOps,
          Mistake, \* "none", "cache" (not dropped at the end), "late" (made anew by the last bytes),
                   \* "timer" (goes on for ever), "list" (only grows), "deck" (only the reader clears it)
          Record
VARIABLES st, rd, deck, cache, timers, list, since, ops, hist
vars == <<st, rd, deck, cache, timers, list, since, ops, hist>>
Init == /\ st = [c \in Conns |-> "none"] /\ rd = [c \in Conns |-> "none"]
        /\ deck = {} /\ cache = {} /\ timers = {} /\ list = {} /\ since = {} /\ ops = 0 /\ hist = <<>>
Log(o, c) == /\ ops < MaxOps /\ ops' = ops + 1
             /\ hist' = IF Record THEN Append(hist, <<o, c>>) ELSE hist
Shut == {c \in Conns : st[c] = "shut"}
Open(c) == /\ st[c] = "none" /\ \A d \in Conns : d < c => st[d] # "none"
           /\ Log("open", c)
           /\ st' = [st EXCEPT ![c] = "open"] /\ rd' = [rd EXCEPT ![c] = "idle"]
           /\ deck' = deck \union {c} /\ timers' = timers \union {c}
           /\ list' = (IF Mistake = "list" THEN list ELSE list \ Shut) \union {c}
           /\ since' = {} /\ UNCHANGED cache
Feed(c) == /\ st[c] = "open" /\ rd[c] = "idle" /\ Log("feed", c)
           /\ rd' = [rd EXCEPT ![c] = "busy"] /\ UNCHANGED <<st, deck, cache, timers, list, since>>
Handle(c) == /\ rd[c] = "busy" /\ Log("go", c)
             /\ cache' = IF st[c] = "open" \/ Mistake = "late" THEN cache \union {c} ELSE cache
             /\ rd' = [rd EXCEPT ![c] = "idle"] /\ UNCHANGED <<st, deck, timers, list, since>>
End(c) == /\ st[c] = "open" /\ Log("end", c)
          /\ st' = [st EXCEPT ![c] = "shut"] /\ since' = since \union {c}
          /\ UNCHANGED <<rd, deck, cache, timers, list>>
Report(c) == /\ deck' = deck \ {c}
             /\ cache' = IF c \in deck /\ Mistake # "cache" THEN cache \ {c} ELSE cache
Put(c) == /\ st[c] = "shut" /\ Log("put", c)
          /\ IF Mistake = "deck" THEN UNCHANGED <<deck, cache>> ELSE Report(c)
          /\ UNCHANGED <<st, rd, timers, list, since>>
Leave(c) == /\ rd[c] = "idle" /\ st[c] = "shut"
            /\ rd' = [rd EXCEPT ![c] = "done"] /\ Report(c)
            /\ UNCHANGED <<st, timers, list, since, ops, hist>>
Tick(c) == /\ c \in timers /\ st[c] = "shut" /\ Mistake # "timer"
           /\ timers' = timers \ {c} /\ UNCHANGED <<st, rd, deck, cache, list, since, ops, hist>>
Next == \E c \in Conns : \/ Open(c) \/ Feed(c) \/ Handle(c) \/ End(c) \/ Put(c) \/ Leave(c) \/ Tick(c)
Spec == Init /\ [][Next]_vars /\ \A c \in Conns : WF_vars(Leave(c)) /\ WF_vars(Tick(c))
\* when its goroutines are gone nothing is left of a connection
NothingKept == \A c \in Shut : (rd[c] = "done" /\ c \notin timers) => c \notin deck \union cache
\* the list holds at most those that ended since the last one came
Pruned == list \intersect Shut \subseteq since
\* and they do go, unless the application holds the reader up
Gone == \A c \in Conns : (st[c] = "shut") ~> (rd[c] = "busy" \/ (rd[c] = "done" /\ c \notin timers))
Emit == (Record /\ Len(hist) > 0 /\ (\A c \in Conns : st[c] # "open" /\ rd[c] # "busy")) => PrintT("T " \o ToJson(hist))
=============================================================================

-------------------------------- MODULE EpMC ---------------------------------
(***************************************************************************)
(* One session of the upper deck: endpoints that share it one after the    *)
(* other, their outgoing channels, and one worker per incarnation with the *)
(* two selects of its loop.  The application puts, adds and removes; the   *)
(* write of a worker takes as long as it takes.                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Eps,      \* endpoints
          MaxPut, MaxChange, Cap,
          Mistake,  \* "none", "oneselect" (may take on after its removal), "drain" (empties the
                    \* channel at its removal), "forget" (a taken message is given up at removal),
                    \* "twin" (removing an endpoint that never got the session ends the one that has it)
          Record
VARIABLES chan, in, idle, workers, sent, puts, changes, after, hist
vars == <<chan, in, idle, workers, sent, puts, changes, after, hist>>
\* idle: endpoints that were added while another one had the session
\* workers: incarnation -> [e, pc, m, stop]; after: incarnation -> messages sent after its removal
Init == /\ chan = [e \in Eps |-> <<>>] /\ in = {} /\ idle = {} /\ workers = <<>> /\ sent = <<>>
        /\ puts = 0 /\ changes = 0 /\ after = <<>> /\ hist = <<>>
Log(x, e) == hist' = IF Record THEN Append(hist, <<x, e>>) ELSE hist
Put(e) == /\ puts < MaxPut /\ Len(chan[e]) < Cap /\ puts' = puts + 1
          /\ chan' = [chan EXCEPT ![e] = Append(@, puts')]
          /\ Log("put", e) /\ UNCHANGED <<in, idle, workers, sent, changes, after>>
Add(e) == /\ in = {} /\ changes < MaxChange /\ changes' = changes + 1
          /\ in' = {e}
          /\ workers' = Append(workers, [e |-> e, pc |-> "look", m |-> 0, stop |-> FALSE])
          /\ after' = Append(after, 0)
          /\ Log("add", e) /\ UNCHANGED <<chan, idle, sent, puts>>
AddTwin(e) == /\ in # {} /\ e \notin in \union idle /\ changes < MaxChange /\ changes' = changes + 1
              /\ idle' = idle \union {e}
              /\ Log("add", e) /\ UNCHANGED <<chan, in, workers, sent, puts, after>>
DelTwin(e) == /\ e \in idle /\ changes < MaxChange /\ changes' = changes + 1
              /\ idle' = idle \ {e}
              /\ workers' = IF Mistake = "twin" THEN [w \in DOMAIN workers |-> [workers[w] EXCEPT !.stop = TRUE]] ELSE workers
              /\ Log("del", e) /\ UNCHANGED <<chan, in, sent, puts, after>>
Del(e) == /\ e \in in /\ idle = {} /\ changes < MaxChange /\ changes' = changes + 1 /\ in' = {}
          /\ workers' = [w \in DOMAIN workers |-> IF workers[w].e = e /\ ~workers[w].stop
                                                  THEN [workers[w] EXCEPT !.stop = TRUE] ELSE workers[w]]
          /\ chan' = IF Mistake = "drain" THEN [chan EXCEPT ![e] = <<>>] ELSE chan
          /\ Log("del", e) /\ UNCHANGED <<idle, sent, puts, after>>
\* the worker: first select, second select, write
Look(w) == /\ workers[w].pc = "look"
           /\ workers' = [workers EXCEPT ![w].pc = IF workers[w].stop /\ Mistake # "oneselect" THEN "gone" ELSE "wait"]
           /\ UNCHANGED <<chan, in, idle, sent, puts, changes, after, hist>>
Leave(w) == /\ workers[w].pc = "wait" /\ workers[w].stop
            /\ workers' = [workers EXCEPT ![w].pc = "gone"]
            /\ UNCHANGED <<chan, in, idle, sent, puts, changes, after, hist>>
TakeIt(w) == /\ workers[w].pc = "wait" /\ chan[workers[w].e] # <<>>
             /\ workers' = [workers EXCEPT ![w].pc = "write", ![w].m = Head(chan[workers[w].e])]
             /\ chan' = [chan EXCEPT ![workers[w].e] = Tail(@)]
             /\ UNCHANGED <<in, idle, sent, puts, changes, after, hist>>
Write(w) == /\ workers[w].pc = "write"
            /\ IF Mistake = "forget" /\ workers[w].stop THEN UNCHANGED <<sent, after>>
               ELSE /\ sent' = Append(sent, <<workers[w].e, workers[w].m, w>>)
                    /\ after' = IF workers[w].stop THEN [after EXCEPT ![w] = @ + 1] ELSE after
            /\ workers' = [workers EXCEPT ![w].pc = "look", ![w].m = 0]
            /\ UNCHANGED <<chan, in, idle, puts, changes, hist>>
Next == \/ \E e \in Eps : Put(e) \/ Add(e) \/ Del(e) \/ AddTwin(e) \/ DelTwin(e)
        \/ \E w \in DOMAIN workers : Look(w) \/ Leave(w) \/ TakeIt(w) \/ Write(w)
Spec == Init /\ [][Next]_vars

Ids(e) == SelectSeq(sent, LAMBDA r : r[1] = e)
OnlyOneAfter == \A w \in DOMAIN after : after[w] <= 1
InHand == {workers[w].m : w \in {v \in DOMAIN workers : workers[v].pc = "write"}}
Waiting == UNION {{chan[e][k] : k \in 1..Len(chan[e])} : e \in Eps}
SentIds == {sent[k][2] : k \in 1..Len(sent)}
NoneLost == SentIds \union InHand \union Waiting = 1..puts
NoneTwice == Cardinality(SentIds) = Len(sent)
\* what one incarnation sends is in order
Ordered == \A j, k \in 1..Len(sent) : (j < k /\ sent[j][3] = sent[k][3]) => sent[j][2] < sent[k][2]
Still == \A w \in DOMAIN workers : workers[w].pc = "gone" \/ (workers[w].pc = "wait" /\ ~workers[w].stop /\ chan[workers[w].e] = <<>>)
Drained == Still => \A e \in in : chan[e] = <<>>
Emit == (Record /\ Still /\ puts = MaxPut /\ changes = MaxChange) => PrintT("T " \o ToJson(hist))
=============================================================================

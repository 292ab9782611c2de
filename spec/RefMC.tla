-------------------------------- MODULE RefMC --------------------------------
(***************************************************************************)
(* Reference transports at one address: a server and a client side share a *)
(* pair of bounded queues for as long as at least one of them runs.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxSend, MaxOps, Cap,
          Mistake, \* "none", "leak" (the pair survives both stops), "early" (the first stop removes the pair),
                   \* "twice" (a second stop counts again), "hang" (a receive is not ended by stop)
          Record
Sides == {"s", "c"}
Peer(x) == IF x = "s" THEN "c" ELSE "s"
VARIABLES running, refs, pair, pairs, mine, wait, sent, log, count, hist
vars == <<running, refs, pair, pairs, mine, wait, sent, log, count, hist>>
\* pair: the pair registered for the address (0: none); pairs: pair -> side -> queue towards that side
\* mine: the pair a side uses; wait: side -> number of pending receives; log: side -> what was received, with the pair
Init == /\ running = [x \in Sides |-> FALSE] /\ refs = <<>> /\ pair = 0 /\ pairs = <<>>
        /\ mine = [x \in Sides |-> 0] /\ wait = [x \in Sides |-> 0] /\ sent = <<>> /\ log = <<>> /\ count = 0 /\ hist = <<>>
Rec(e) == /\ count < MaxOps /\ count' = count + 1
          /\ hist' = IF Record THEN Append(hist, e) ELSE hist
Run(x) == /\ Rec(<<x, "run">>)
          /\ running' = [running EXCEPT ![x] = TRUE]
          /\ IF running[x] THEN UNCHANGED <<refs, pair, pairs, mine>>
             ELSE IF pair = 0
             THEN /\ pair' = Len(pairs) + 1 /\ refs' = Append(refs, 1)
                  /\ pairs' = Append(pairs, [y \in Sides |-> <<>>]) /\ mine' = [mine EXCEPT ![x] = Len(pairs) + 1]
             ELSE refs' = [refs EXCEPT ![pair] = @ + 1] /\ mine' = [mine EXCEPT ![x] = pair] /\ UNCHANGED <<pair, pairs>>
          /\ UNCHANGED <<wait, sent, log>>
Stop(x) == /\ Rec(<<x, "stop">>)
           /\ running' = [running EXCEPT ![x] = FALSE]
           /\ LET p == mine[x]
                  counts == running[x] \/ (Mistake = "twice" /\ p # 0 /\ refs[p] > 0)
                  last == p # 0 /\ refs[p] = 1
              IN /\ refs' = IF counts THEN [refs EXCEPT ![p] = @ - 1] ELSE refs
                 /\ pair' = IF counts /\ pair = p /\ (IF Mistake = "leak" THEN FALSE ELSE last \/ Mistake = "early") THEN 0 ELSE pair
           /\ wait' = [wait EXCEPT ![x] = IF Mistake = "hang" THEN @ ELSE 0]
           /\ UNCHANGED <<pairs, mine, sent, log>>
Send(x) == /\ running[x] /\ Len(sent) < MaxSend
           /\ Len(pairs[mine[x]][Peer(x)]) < Cap
           /\ Rec(<<x, "send">>)
           \* who it is for and since when both sides have been stopped
           /\ sent' = Append(sent, [to |-> Peer(x), pair |-> mine[x]])
           /\ pairs' = [pairs EXCEPT ![mine[x]][Peer(x)] = Append(@, Len(sent) + 1)]
           /\ UNCHANGED <<running, refs, pair, mine, wait, log>>
Ask(x) == /\ running[x] /\ wait[x] = 0
          /\ Rec(<<x, "recv">>)
          /\ wait' = [wait EXCEPT ![x] = 1]
          /\ UNCHANGED <<running, refs, pair, pairs, mine, sent, log>>
Get(x) == /\ wait[x] > 0 /\ running[x] /\ pairs[mine[x]][x] # <<>>
          /\ wait' = [wait EXCEPT ![x] = @ - 1]
          /\ log' = Append(log, [by |-> x, m |-> Head(pairs[mine[x]][x]), pair |-> mine[x]])
          /\ pairs' = [pairs EXCEPT ![mine[x]][x] = Tail(@)]
          /\ UNCHANGED <<running, refs, pair, mine, sent, count, hist>>
Next == \E x \in Sides : Run(x) \/ Stop(x) \/ Send(x) \/ Ask(x) \/ Get(x)
Spec == Init /\ [][Next]_vars

\* while both run, they use the same pair
Connected == (running["s"] /\ running["c"]) => mine["s"] = mine["c"]
\* received in order, once, by whom it was sent to, before both sides have stopped
OneToOne == /\ \A k \in DOMAIN log : sent[log[k].m].to = log[k].by
            /\ \A j, k \in DOMAIN log : (j < k /\ log[j].by = log[k].by) => log[j].m < log[k].m
Fresh == (running = [x \in Sides |-> FALSE]) => pair = 0
Bounded == \A p \in DOMAIN pairs : \A x \in Sides : Len(pairs[p][x]) <= Cap
Ends == \A x \in Sides : ~running[x] => wait[x] = 0
Emit == (Record /\ count = MaxOps) => PrintT("T " \o ToJson(hist))
=============================================================================

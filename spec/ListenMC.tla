------------------------------ MODULE ListenMC -------------------------------
(***************************************************************************)
(* The data listener of an endpoint: one goroutine looks which listener is *)
(* installed, waits for a message or for a change, and calls it.  Messages *)
(* arrive, the application installs, replaces and removes listeners or     *)
(* takes messages itself, also from within a listener.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Listeners, MaxMsg, MaxOps,
          Mistake, \* "none", "spawn" (a goroutine per installation), "drain" (consumes without a listener),
                   \* "deaf" (a change is not noticed while waiting), "gone" (ends on removal for good)
          Record
VARIABLES q, cur, gs, sent, log, seen, count, hist
vars == <<q, cur, gs, sent, log, seen, count, hist>>
\* gs: goroutines [pc, l, m]; log: calls and takes in order [by, m]; seen: listeners installed since the last call ended
Init == /\ q = <<>> /\ cur = 0 /\ gs = <<>> /\ sent = 0 /\ log = <<>> /\ seen = {0} /\ count = 0 /\ hist = <<>>
Busy == {g \in DOMAIN gs : gs[g].pc = "call"}
Rec(e) == hist' = IF Record THEN Append(hist, e) ELSE hist
In == IF Busy = {} THEN 0 ELSE gs[CHOOSE g \in Busy : TRUE].m
Put == /\ sent < MaxMsg /\ sent' = sent + 1 /\ q' = Append(q, sent + 1)
       /\ Rec(<<0, "put", sent + 1>>)
       /\ UNCHANGED <<cur, gs, log, seen, count>>
\* where: 0 by the application, otherwise by the listener that is being called
Set(where, l) ==
  /\ count < MaxOps /\ count' = count + 1
  /\ where # 0 => where = In
  /\ cur' = l /\ seen' = seen \union {l}
  /\ LET woken == IF Mistake = "deaf" THEN gs
                  ELSE [g \in DOMAIN gs |-> IF gs[g].pc = "wait" THEN [gs[g] EXCEPT !.pc = "look"] ELSE gs[g]]
     IN gs' = IF l # 0 /\ (gs = <<>> \/ Mistake = "spawn") THEN Append(woken, [pc |-> "look", l |-> 0, m |-> 0]) ELSE woken
  /\ Rec(<<where, "set", l>>)
  /\ UNCHANGED <<q, sent, log>>
Take == /\ q # <<>> /\ cur = 0 /\ count < MaxOps /\ count' = count + 1
        /\ log' = Append(log, [by |-> "app", m |-> Head(q)]) /\ q' = Tail(q)
        /\ Rec(<<0, "take", 0>>)
        /\ UNCHANGED <<cur, gs, sent, seen>>
Look(g) == /\ gs[g].pc = "look"
           /\ gs' = [gs EXCEPT ![g] = IF cur = 0 /\ Mistake = "gone" THEN [pc |-> "end", l |-> 0, m |-> 0] ELSE [pc |-> "wait", l |-> cur, m |-> 0]]
           /\ UNCHANGED <<q, cur, sent, log, seen, count, hist>>
Get(g) == /\ gs[g].pc = "wait" /\ q # <<>>
          /\ gs[g].l # 0 \/ Mistake = "drain"
          /\ q' = Tail(q)
          /\ IF gs[g].l = 0 THEN UNCHANGED <<gs, log>>
             ELSE /\ gs' = [gs EXCEPT ![g].pc = "call", ![g].m = Head(q)]
                  /\ log' = Append(log, [by |-> "listener", m |-> Head(q)])
          /\ UNCHANGED <<cur, sent, seen, count, hist>>
Return(g) == /\ gs[g].pc = "call"
             /\ gs' = [gs EXCEPT ![g] = [pc |-> "look", l |-> 0, m |-> 0]]
             /\ seen' = {cur}
             /\ UNCHANGED <<q, cur, sent, log, count, hist>>
Next == \/ Put \/ Take
        \/ \E l \in Listeners \union {0} : Set(0, l) \/ (In # 0 /\ Set(In, l))
        \/ \E g \in DOMAIN gs : Look(g) \/ Get(g) \/ Return(g)
Spec == Init /\ [][Next]_vars /\ \A g \in 1..(MaxOps + 1) : WF_vars(g \in DOMAIN gs /\ (Look(g) \/ Get(g) \/ Return(g)))

OneAtATime == Cardinality(Busy) <= 1
InOrder == \A i, j \in 1..Len(log) : i < j => log[i].m < log[j].m
\* every message is in the channel or was handed to somebody
Kept == {log[i].m : i \in 1..Len(log)} \union {q[i] : i \in 1..Len(q)} = 1..sent
Installed == \A g \in Busy : gs[g].l \in seen \ {0}
\* the goroutine waits with the listener that is installed
Fresh == \A g \in DOMAIN gs : gs[g].pc = "wait" => gs[g].l = cur
\* with a listener installed for good, the channel is emptied
Served == \A l \in Listeners : <>[](cur = l) => []<>(q = <<>>)
Emit == (Record /\ sent = MaxMsg /\ count = MaxOps /\ {g \in DOMAIN gs : gs[g].pc \in {"look", "call"}} = {}
         /\ (cur = 0 \/ q = <<>>)) => PrintT("T " \o ToJson(hist))
=============================================================================

----------------------------- MODULE ListenTrace -----------------------------
(***************************************************************************)
(* C19 on a recorded run: messages are put, listeners set, called and      *)
(* return, the application takes messages.  Operations take effect between *)
(* their beginning and their end; a message is handed to a listener that   *)
(* was installed at some moment since the last call ended or everything    *)
(* came to rest.                                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)
VARIABLES tid, i, pend, cur, seen, hand, busy, ops
vars == <<tid, i, pend, cur, seen, hand, busy, ops>>
\* pend: messages on their way or in the channel [m, id, c, done, pre], pre: those that were there before it
T == Traces[tid]
Ev == T.ev[i]
Init == /\ tid \in 1..N /\ i = 1 /\ TLCSet(tid, 1)
        /\ pend = {} /\ cur = 0 /\ seen = {0} /\ hand = 0 /\ busy = 0 /\ ops = {}
Begin == /\ Ev.o = "beg"
         /\ IF Ev.k = "put"
            THEN /\ pend' = pend \union {[m |-> Ev.a, id |-> Ev.id, c |-> Ev.c, done |-> FALSE,
                                           pre |-> {p.id : p \in {x \in pend : x.done \/ (x.c = Ev.c)}}]}
                 /\ UNCHANGED ops
            ELSE /\ ops' = ops \union {[id |-> Ev.id, k |-> Ev.k, a |-> Ev.a, open |-> TRUE, r |-> 0]}
                 /\ UNCHANGED pend
         /\ UNCHANGED <<cur, seen, hand, busy>>
Ids == {p.id : p \in pend}
\* messages that may be the first in the channel
First == {p \in pend : p.pre \intersect Ids = {}}
MayBeEmpty == {p \in pend : p.done} = {}
Effect ==
  /\ Ev.o \in {"call", "end", "quiet"}
  /\ \E o \in ops :
       /\ o.open
       /\ LET done(r) == ops' = (ops \ {o}) \union {[o EXCEPT !.open = FALSE, !.r = r]} IN
          IF o.k = "set" THEN cur' = o.a /\ seen' = seen \union {o.a} /\ done(0) /\ UNCHANGED pend
          ELSE \* the application takes a message, if there is one
               /\ UNCHANGED <<cur, seen>>
               /\ \/ (MayBeEmpty /\ done(0) /\ UNCHANGED pend)
                  \/ \E p \in First : done(p.m) /\ pend' = pend \ {p}
  /\ UNCHANGED <<tid, i, hand, busy>>
\* the next message is taken out of the channel for a listener
Grab == /\ Ev.o \in {"call", "end"} /\ hand = 0 /\ busy = 0 /\ seen # {0}
        /\ Ev.o = "end" => {o \in ops : o.k = "take"} # {}
        /\ \E p \in First : /\ Ev.o = "call" => (p.m = Ev.m \/ {o \in ops : o.k = "take"} # {})
                            /\ hand' = p.m /\ pend' = pend \ {p}
        /\ UNCHANGED <<tid, i, cur, seen, busy, ops>>
Call == /\ Ev.o = "call" /\ busy = 0 /\ hand # 0
        /\ Ev.m = hand /\ Ev.a \in seen \ {0}
        /\ busy' = hand /\ hand' = 0
        /\ UNCHANGED <<pend, cur, seen, ops>>
Return == /\ Ev.o = "ret" /\ busy = Ev.m /\ busy' = 0 /\ seen' = {cur}
          /\ UNCHANGED <<pend, cur, hand, ops>>
End == /\ Ev.o = "end"
       /\ IF Ev.k = "put"
          THEN pend' = {[p EXCEPT !.done = @ \/ (p.id = Ev.id)] : p \in pend} /\ UNCHANGED ops
          ELSE /\ \E o \in ops : o.id = Ev.id /\ ~o.open /\ o.r = Ev.r /\ ops' = ops \ {o}
               /\ UNCHANGED pend
       /\ UNCHANGED <<cur, seen, hand, busy>>
\* everything is at rest: nothing is on the way, and with a listener nothing is left
Quiet == /\ Ev.o = "quiet" /\ hand = 0
         /\ (cur # 0 /\ busy = 0) => pend = {}
         /\ pend' = {[p EXCEPT !.done = TRUE] : p \in pend}
         /\ seen' = {cur}
         /\ UNCHANGED <<cur, hand, busy, ops>>
Step == Begin \/ Call \/ Return \/ End \/ Quiet
Next == /\ i <= Len(T.ev)
        /\ \/ Effect \/ Grab
           \/ /\ Step /\ i' = i + 1 /\ tid' = tid
              /\ TLCSet(tid, IF TLCGet(tid) > i' THEN TLCGet(tid) ELSE i')
Spec == Init /\ [][Next]_vars
Accepted ==
  LET bad == {t \in 1..N : TLCGet(t) # Len(Traces[t].ev) + 1} IN
  \A t \in bad : PrintT("REJECT " \o ToString(t) \o " " \o ToString(TLCGet(t)))
AllAccepted == Accepted /\ PrintT("VALIDATED " \o ToString(N))
=============================================================================

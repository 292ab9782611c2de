------------------------------ MODULE LifeTrace ------------------------------
(***************************************************************************)
(* C13 on a recorded run with real sockets: run, stop, dial and next have  *)
(* a beginning and an end; at times the driver waits until nothing moves   *)
(* any more and looks at everything (settle).                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)
VARIABLES tid, i, poss, ops, con, peer, calm
vars == <<tid, i, poss, ops, con, peer, calm>>
\* poss: the states the transport may be in; ops: running operations [id, k, alone, firm, none, mid]
\*   firm: begun in state down, nothing has been run since; none: it may have been down meanwhile; mid: overlaps a stop
\* con, peer: their class: "new" (of this run), "old" (before the last stop), "mid" (unknown)
\* calm: the state seen by the last settle, until something is done
T == Traces[tid]
Ev == T.ev[i]
Init == /\ tid \in 1..N /\ i = 1 /\ TLCSet(tid, 1)
        /\ poss = {"down"} /\ ops = {} /\ con = <<>> /\ peer = <<>> /\ calm = "none"
Control == {o \in ops : o.k \in {"run", "stop"}}
Stopping == {o \in ops : o.k = "stop"} # {}
Old(s) == [x \in DOMAIN s |-> "old"]
Begin ==
  /\ Ev.o = "beg"
  /\ LET new == [id |-> Ev.id, k |-> Ev.k, alone |-> Control = {}, firm |-> poss = {"down"} /\ {o \in ops : o.k = "run"} = {},
                 none |-> "down" \in poss, mid |-> Stopping]
         k == Ev.k
         rest == CASE k = "run" -> {[o EXCEPT !.alone = FALSE, !.firm = FALSE] : o \in ops}
                   [] k = "stop" -> {[o EXCEPT !.alone = FALSE, !.none = TRUE, !.mid = TRUE] : o \in ops}
                   [] OTHER -> ops
     IN ops' = rest \union {new}
  /\ poss' = CASE Ev.k = "run" -> poss \union {"up"} [] Ev.k = "stop" -> poss \union {"down"} [] OTHER -> poss
  /\ IF Ev.k = "stop" THEN con' = Old(con) /\ peer' = Old(peer) ELSE UNCHANGED <<con, peer>>
  /\ calm' = IF Ev.k \in {"run", "stop"} THEN "none" ELSE calm
Class(o) == IF o.mid THEN "mid" ELSE "new"
Op == CHOOSE o \in ops : o.id = Ev.id
End ==
  /\ Ev.o = "end" /\ ops' = ops \ {Op} /\ UNCHANGED calm
  /\ CASE Ev.k \in {"run", "stop"} ->
            /\ poss' = IF Op.alone THEN {IF Ev.k = "run" THEN "up" ELSE "down"} ELSE poss
            /\ UNCHANGED <<con, peer>>
       [] Ev.k = "next" ->
            /\ IF Ev.c = 0 THEN Op.none /\ UNCHANGED con
               ELSE ~Op.firm /\ Ev.r = 0 /\ Ev.c = Len(con) + 1 /\ con' = Append(con, Class(Op))
            /\ UNCHANGED <<poss, peer>>
       [] OTHER -> \* dial; right after a start the address may not be there yet
            /\ IF Ev.r = 0 THEN UNCHANGED peer
               ELSE ~Op.firm /\ Ev.c = Len(peer) + 1 /\ peer' = Append(peer, Class(Op))
            /\ UNCHANGED <<poss, con>>
\* the server of a client transport has accepted a connection, at some time before
Accepted1 == /\ Ev.o = "acc" /\ Ev.c = Len(peer) + 1 /\ peer' = Append(peer, "mid") /\ calm # "down"
             /\ UNCHANGED <<poss, ops, con, calm>>
\* the stack announces a connection
Announce == /\ Ev.o = "ann" /\ Ev.r = 0 /\ Ev.c = Len(con) + 1
            /\ calm # "down"
            /\ con' = Append(con, "mid")
            /\ UNCHANGED <<poss, ops, peer, calm>>
Settle == /\ Ev.o = "settle"
          /\ \E s \in poss :
               /\ s = "down" => Ev.n = 0 /\ Ev.r = 0
               /\ (s = "up" /\ ~T.server /\ T.nexters > 0) => Ev.r = 1
               /\ poss' = {s} /\ calm' = s
          /\ UNCHANGED <<ops, con, peer>>
LookConn == /\ Ev.o = "cs"
            /\ CASE calm = "down" \/ con[Ev.c] = "old" -> Ev.r = 1
                 [] con[Ev.c] = "new" -> Ev.r = 0
                 [] OTHER -> TRUE
            /\ UNCHANGED <<poss, ops, con, peer, calm>>
LookPeer == /\ Ev.o = "ps"
            /\ CASE calm = "down" \/ peer[Ev.c] = "old" -> Ev.r = 1
                 [] peer[Ev.c] = "new" -> Ev.r = 0 /\ (T.nexters > 0 => Ev.e = 1)
                 [] OTHER -> Ev.e # 9
            /\ UNCHANGED <<poss, ops, con, peer, calm>>
Probe == /\ Ev.o = "probe"
         /\ IF calm = "down" THEN Ev.r = 0 ELSE Ev.r = 1 /\ (T.nexters > 0 => Ev.e = 1)
         /\ UNCHANGED <<poss, ops, con, peer, calm>>
Step == Begin \/ End \/ Accepted1 \/ Announce \/ Settle \/ LookConn \/ LookPeer \/ Probe
Next == /\ i <= Len(T.ev)
        /\ Step /\ i' = i + 1 /\ tid' = tid
        /\ TLCSet(tid, IF TLCGet(tid) > i' THEN TLCGet(tid) ELSE i')
Spec == Init /\ [][Next]_vars
Accepted ==
  LET bad == {t \in 1..N : TLCGet(t) # Len(Traces[t].ev) + 1} IN
  \A t \in bad : PrintT("REJECT " \o ToString(t) \o " " \o ToString(TLCGet(t)))
AllAccepted == Accepted /\ PrintT("VALIDATED " \o ToString(N))
=============================================================================

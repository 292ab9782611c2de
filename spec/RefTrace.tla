------------------------------ MODULE RefTrace -------------------------------
(***************************************************************************)
(* C18 on a recorded run: transports are run and stopped, connections are  *)
(* asked for, objects are sent and received, several of it at once.  An    *)
(* operation takes effect between its beginning and its end.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cf == INSTANCE Conf
Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)
VARIABLES tid, i, tp, ad, con, ops, sets
vars == <<tid, i, tp, ad, con, ops, sets>>
\* T.tps: transport -> [a (address), s (server side)]; sets: their settings so far
\* tp: transport -> [up, inc, avail] ; ad: address -> [refs, ep, cap (of each queue), q (towards the server, towards the client)]
\* con: connection -> [t, inc, ep, closed]
T == Traces[tid]
Ev == T.ev[i]
Tps == 1..Len(Traces[tid].tps)
Addrs == {Traces[tid].tps[t].a : t \in Tps}
Init == /\ tid \in 1..N /\ i = 1 /\ TLCSet(tid, 1)
        /\ tp = [t \in 1..Len(Traces[tid].tps) |-> [up |-> FALSE, inc |-> 0, avail |-> FALSE]]
        /\ ad = [a \in {Traces[tid].tps[t].a : t \in 1..Len(Traces[tid].tps)} |-> [refs |-> 0, ep |-> 0, cap |-> 0, q |-> <<<<>>, <<>>>>]]
        /\ con = <<>> /\ ops = {} /\ sets = <<>>
A(t) == T.tps[t].a
In(t) == IF T.tps[t].s THEN 1 ELSE 2
Out(t) == 3 - In(t)
Open(c) == ~con[c].closed /\ tp[con[c].t].up /\ tp[con[c].t].inc = con[c].inc
\* until Stop returns, its connection may still work
Works(c) == Open(c) \/ ({o \in ops : o.k = "stop" /\ o.t = con[c].t} # {} /\ ~con[c].closed /\ tp[con[c].t].inc = con[c].inc)
Begin == /\ Ev.o = "beg"
         /\ ops' = ops \union {[id |-> Ev.id, k |-> Ev.k, t |-> Ev.t, c |-> Ev.c, m |-> Ev.m, open |-> TRUE, r |-> 0,
                                ok |-> IF Ev.k \in {"send", "recv", "close"} THEN Works(Ev.c) ELSE tp[Ev.t].up, inc |-> 0, ep |-> 0]}
         /\ UNCHANGED <<tp, ad, con>>
\* r: -1 is an error or no connection, 0 success, otherwise what was received
Upd(o, r) == ops' = (ops \ {o}) \union {[o EXCEPT !.open = FALSE, !.r = r, !.inc = IF o.t = 0 THEN 0 ELSE tp[o.t].inc,
                                                  !.ep = IF o.t = 0 THEN 0 ELSE ad[A(o.t)].ep]}
DoRun(o) == LET t == o.t a == A(t) IN
  /\ Upd(o, 0) /\ UNCHANGED con
  /\ IF tp[t].up THEN UNCHANGED <<tp, ad>>
     ELSE /\ tp' = [tp EXCEPT ![t] = [up |-> TRUE, inc |-> @.inc + 1, avail |-> TRUE]]
          /\ ad' = [ad EXCEPT ![a] = IF @.refs = 0 THEN [refs |-> 1, ep |-> @.ep + 1, cap |-> Cf!QueueSize(sets, T.tps[t].c), q |-> <<<<>>, <<>>>>]
                                     ELSE [@ EXCEPT !.refs = @ + 1]]
DoStop(o) == LET t == o.t a == A(t) IN
  /\ Upd(o, 0) /\ UNCHANGED con
  /\ IF ~tp[t].up THEN UNCHANGED <<tp, ad>>
     ELSE /\ tp' = [tp EXCEPT ![t].up = FALSE, ![t].avail = FALSE]
          /\ ad' = [ad EXCEPT ![a].refs = @ - 1]
DoNext(o) == /\ UNCHANGED <<ad, con>>
             /\ IF tp[o.t].up THEN tp[o.t].avail /\ Upd(o, 1) /\ tp' = [tp EXCEPT ![o.t].avail = FALSE]
                ELSE Upd(o, -1) /\ UNCHANGED tp
DoSend(o) == /\ UNCHANGED <<tp, con>>
             /\ LET t == con[o.c].t a == A(t) IN
                \/ ~Open(o.c) /\ Upd(o, -1) /\ UNCHANGED ad
                \/ /\ Works(o.c) \/ o.ok
                   /\ IF ad[a].ep # con[o.c].ep THEN UNCHANGED ad
                      ELSE Len(ad[a].q[Out(t)]) < ad[a].cap /\ ad' = [ad EXCEPT ![a].q[Out(t)] = Append(@, o.m)]
                   /\ Upd(o, 0)
DoRecv(o) == /\ UNCHANGED <<tp, con>>
             /\ LET t == con[o.c].t a == A(t) IN
                \/ ~Open(o.c) /\ Upd(o, -1) /\ UNCHANGED ad
                \/ /\ Works(o.c) \/ o.ok
                   /\ ad[a].ep = con[o.c].ep /\ ad[a].q[In(t)] # <<>>
                   /\ ad' = [ad EXCEPT ![a].q[In(t)] = Tail(@)]
                   /\ Upd(o, Head(ad[a].q[In(t)]))
DoClose(o) == /\ con' = [con EXCEPT ![o.c].closed = TRUE] /\ Upd(o, 0) /\ UNCHANGED <<tp, ad>>
Effect == /\ Ev.o = "end"
          /\ \E o \in ops : /\ o.open
                            /\ CASE o.k = "run" -> DoRun(o) [] o.k = "stop" -> DoStop(o) [] o.k = "next" -> DoNext(o)
                                 [] o.k = "send" -> DoSend(o) [] o.k = "recv" -> DoRecv(o) [] OTHER -> DoClose(o)
          /\ UNCHANGED <<tid, i, sets>>
End == /\ Ev.o = "end"
       /\ \E o \in ops :
            /\ o.id = Ev.id /\ ~o.open /\ ops' = ops \ {o}
            /\ IF o.k = "next"
               THEN IF o.r = -1 THEN Ev.c = 0 /\ UNCHANGED con
                    ELSE \* a new connection
                         /\ Ev.c = Len(con) + 1
                         /\ con' = Append(con, [t |-> o.t, inc |-> o.inc, ep |-> o.ep, closed |-> FALSE])
               ELSE Ev.r = o.r /\ UNCHANGED con
       /\ UNCHANGED <<tp, ad>>
\* everything is at rest: what is still running has to wait
Waits(o) == /\ o.open
            /\ CASE o.k = "next" -> tp[o.t].up /\ ~tp[o.t].avail
                 [] o.k = "send" -> Open(o.c) /\ Len(ad[A(con[o.c].t)].q[Out(con[o.c].t)]) >= ad[A(con[o.c].t)].cap
                 [] o.k = "recv" -> Open(o.c) /\ ad[A(con[o.c].t)].q[In(con[o.c].t)] = <<>>
                 [] OTHER -> FALSE
Quiet == /\ Ev.o = "quiet" /\ {o \in ops : ~Waits(o)} = {} /\ UNCHANGED <<tp, ad, con, ops>>
\* a connection says whether it is closed
Is == /\ Ev.o = "is" /\ (Ev.r = 1) = Open(Ev.c) /\ UNCHANGED <<tp, ad, con, ops>>
Set == /\ Ev.o = "set" /\ sets' = Append(sets, Ev.set) /\ UNCHANGED <<tp, ad, con, ops>>
Step == Set \/ ((Begin \/ End \/ Quiet \/ Is) /\ UNCHANGED sets)
Next == /\ i <= Len(T.ev)
        /\ \/ Effect
           \/ /\ Step /\ i' = i + 1 /\ tid' = tid
              /\ TLCSet(tid, IF TLCGet(tid) > i' THEN TLCGet(tid) ELSE i')
Spec == Init /\ [][Next]_vars
Accepted ==
  LET bad == {t \in 1..N : TLCGet(t) # Len(Traces[t].ev) + 1} IN
  \A t \in bad : PrintT("REJECT " \o ToString(t) \o " " \o ToString(TLCGet(t)))
AllAccepted == Accepted /\ PrintT("VALIDATED " \o ToString(N))
=============================================================================

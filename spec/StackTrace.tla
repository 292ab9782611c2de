----------------------------- MODULE StackTrace -----------------------------
(* Is a recorded run of one stack a behaviour of Stack.tla?  Stimuli are   *)
(* applied one at a time, each to a quiet stack.                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
S == INSTANCE Stack
Cf == INSTANCE Conf
Raw == ndJsonDeserialize(IOEnv.TRACES)
Traces == [t \in 1..Len(Raw) |-> Cf!Settled(Raw[t])]
N == Len(Traces)
VARIABLES tid, i, X
vars == <<tid, i, X>>
T == Traces[tid]
Cfg == T.cfg
Ev == T.ev[i]
Init == /\ tid \in 1..N /\ i = 1 /\ X = S!Fresh(Traces[tid].cfg, Traces[tid].cfg.conns)
        /\ TLCSet(tid, 1)

\* goroutines of several processors react to a new connection in any order
SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ \A x \in {a[j] : j \in 1..Len(a)} \union {b[j] : j \in 1..Len(b)} :
                      Cardinality({j \in 1..Len(a) : a[j] = x}) = Cardinality({j \in 1..Len(b) : b[j] = x})
With(Y, ev) == [Y EXCEPT !.fup = ev.fup, !.fdn = ev.fdn]

\* what one endpoint got
Of(dlv, e) == SelectSeq(dlv, LAMBDA r : r[1] = e)

React(ev) ==
  CASE ev.o = "send"   -> LET w == {r \in {X.eps[j] : j \in 1..Len(X.eps)} : r.e = ev.e} IN
                          IF w = {} THEN S!Quiet(X)
                          ELSE S!Send(Cfg, With(X, ev), (CHOOSE r \in w : TRUE).s, ev.c, ev.ref, ev.m, ev.d)
    [] ev.o = "readend" -> S!ReadEnd(Cfg, With(X, ev), ev.c, ev.b)
    [] ev.o = "read"   -> S!Read(Cfg, With(X, ev), ev.c, ev.b)
    [] ev.o = "readref" -> S!ReadRef(Cfg, With(X, ev), ev.c, ev.m)
    [] ev.o = "open"   -> S!Open(Cfg, X, ev.c, ev.ref)
    [] ev.o = "close"  -> S!Closed(X, ev.c)
    [] ev.o = "addep"  -> S!AddEp(X, ev.e, ev.s)
    [] ev.o = "delep"  -> S!DelEp(X, ev.e)
    [] ev.o = "event"  -> S!Quiet(X) \* heartbeat loss, other transports, events of the application
    [] ev.o = "enable" -> S!Enable(X, ev.p, ev.on)

Next ==
  /\ i <= Len(T.ev) /\ Ev.o # "unread" \* unread: the stack ignores its connection
  /\ LET Y == React(Ev) IN
     /\ IF Ev.o = "open" THEN SameBag(Ev.wire, Y.wire) ELSE Ev.wire = Y.wire
     /\ Ev.refs = Y.refs
     /\ \A e \in 1..Cfg.eps : Of(Ev.dlv, e) = Of(Y.dlv, e)
     /\ Len(Ev.dlv) = Len(Y.dlv)
     /\ Ev.calls = Y.calls
     /\ {Ev.dead[j] : j \in 1..Len(Ev.dead)} = Y.dead
     /\ X' = Y
  /\ i' = i + 1 /\ tid' = tid
  /\ TLCSet(tid, i')
Spec == Init /\ [][Next]_vars
Accepted ==
  LET bad == {t \in 1..N : TLCGet(t) # Len(Traces[t].ev) + 1} IN
  \A t \in bad : PrintT("REJECT " \o ToString(t) \o " " \o ToString(TLCGet(t)))
AllAccepted == Accepted /\ PrintT("VALIDATED " \o ToString(N))
=============================================================================

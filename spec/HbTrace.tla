------------------------------- MODULE HbTrace -------------------------------
(***************************************************************************)
(* C14 on a recorded run with virtual times (milliseconds): heartbeats go  *)
(* out at once and every interval; a lapse is reported once, not before    *)
(* the timeout and within a second after it.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
S == INSTANCE Stack
Cf == INSTANCE Conf
Raw == ndJsonDeserialize(IOEnv.TRACES)
Traces == [t \in 1..Len(Raw) |-> Cf!Settled(Raw[t])]
N == Len(Traces)
VARIABLES tid, i, X, st, last, prev, armed, at, sent, cause, exp
vars == <<tid, i, X, st, last, prev, armed, at, sent, cause, exp>>
T == Traces[tid]
Cfg == T.cfg
Ev == T.ev[i]
Conns == 1..Cfg.conns
Slack == 50
Interval == T.hb.interval * 1000
Timeout == T.hb.timeout * 1000
Closing == T.hb.close = 1

Init == /\ tid \in 1..N /\ i = 1 /\ TLCSet(tid, 1)
        /\ X = S!Fresh(Traces[tid].cfg, Traces[tid].cfg.conns)
        /\ LET C == 1..Traces[tid].cfg.conns IN
           /\ st = [c \in C |-> "none"] \* none, open, ref, shut
           /\ last = [c \in C |-> 0] /\ prev = [c \in C |-> [t |-> 0, a |-> FALSE]] /\ armed = [c \in C |-> FALSE] /\ at = [c \in C |-> 0]
           /\ sent = [c \in C |-> 0] /\ cause = [c \in C |-> FALSE]
        /\ exp = <<>>

P == CHOOSE p \in 1..Len(Cfg.procs) : Cfg.procs[p].k = "hb"
HbBytes(c) == S!Control(Cfg, [S!Quiet(X) EXCEPT !.gone = {}], P, c, <<131>>).wire[1][2]

\* up to now nothing is overdue
InTime(t) ==
  \A c \in Conns : st[c] = "open" =>
    /\ (armed[c] /\ ~cause[c]) => t <= last[c] + Timeout + 1000 + Slack
    /\ cause[c] \/ sent[c] * Interval + at[c] + Slack >= t
\* a heartbeat of this very millisecond may have been logged before and yet come later
Since(c, t) == IF last[c] = t /\ prev[c].a THEN prev[c].t ELSE last[c]
Same == UNCHANGED <<X, st, last, prev, armed, at, sent, cause, exp>>

Step ==
  LET c == Ev.c IN
  CASE Ev.o = "yield" -> Same
    [] Ev.o = "new" ->
         /\ st[c] = "none"
         /\ prev' = [prev EXCEPT ![c] = [t |-> Ev.t, a |-> FALSE]]
         /\ st' = [st EXCEPT ![c] = IF \E j \in 1..i : T.ev[j].o = "yield" /\ T.ev[j].c = c /\ T.ev[j].ref
                                    THEN "ref" ELSE "open"]
         /\ last' = [last EXCEPT ![c] = Ev.t] /\ at' = [at EXCEPT ![c] = Ev.t]
         /\ armed' = [armed EXCEPT ![c] = (st'[c] = "open")]
         /\ UNCHANGED <<X, sent, cause, exp>>
    [] Ev.o = "rx" ->
         IF st[c] \notin {"none", "open"} THEN Same
         ELSE LET Y == S!Read(Cfg, X, c, Ev.b) IN
              /\ X' = Y
              /\ exp' = exp \o Y.dlv
              /\ prev' = IF c \in Y.hbs /\ last[c] # Ev.t THEN [prev EXCEPT ![c] = [t |-> last[c], a |-> armed[c]]] ELSE prev
              /\ last' = IF c \in Y.hbs THEN [last EXCEPT ![c] = Ev.t] ELSE last
              /\ armed' = IF c \in Y.hbs THEN [armed EXCEPT ![c] = TRUE] ELSE armed
              /\ UNCHANGED <<st, at, sent, cause>>
    [] Ev.o = "rxref" -> Same
    [] Ev.o = "dlv" ->
         \/ /\ st[c] = "ref" /\ Same
         \/ \E j \in 1..Len(exp) :
              /\ exp[j] = <<Ev.e, c, Ev.m>>
              /\ \A k \in 1..(j - 1) : <<exp[k][1], exp[k][2]>> # <<Ev.e, c>>
              /\ exp' = SubSeq(exp, 1, j - 1) \o SubSeq(exp, j + 1, Len(exp))
              /\ UNCHANGED <<X, st, last, prev, armed, at, sent, cause>>
    [] Ev.o = "wire" ->
         IF Ev.b # HbBytes(c) THEN Same
         ELSE /\ st[c] # "ref"
              /\ st[c] = "none" => sent[c] = 0 \* the monitor learned of it first
              /\ st[c] = "shut" => Ev.t = at[c] \* it was on its way
              /\ st[c] = "open" => /\ Ev.t >= at[c] + sent[c] * Interval
                                  /\ Ev.t <= at[c] + sent[c] * Interval + Slack
              /\ sent' = [sent EXCEPT ![c] = @ + 1]
              /\ UNCHANGED <<X, st, last, prev, armed, at, cause, exp>>
    [] Ev.o = "ref" -> Ev.m.k # "none" /\ Same
    [] Ev.o = "lost" ->
         /\ st[c] \in {"open", "shut"} /\ armed[c]
         /\ Ev.t >= Since(c, Ev.t) + Timeout
         /\ st[c] = "shut" => at[c] = Ev.t /\ cause[c] /\ Closing \* closed because of it, at this moment
         /\ armed' = [armed EXCEPT ![c] = (Ev.t < last[c] + Timeout /\ st[c] = "open")]
         /\ prev' = [prev EXCEPT ![c].a = FALSE]
         /\ cause' = [cause EXCEPT ![c] = @ \/ Closing]
         /\ UNCHANGED <<X, st, last, at, sent, exp>>
    [] Ev.o \in {"eof", "err", "rxeof", "appclose", "wfail", "rerr", "werr"} ->
         /\ cause' = IF Ev.o = "werr" THEN cause ELSE [cause EXCEPT ![c] = TRUE]
         /\ UNCHANGED <<X, st, last, prev, armed, at, sent, exp>>
    [] Ev.o = "close" ->
         IF cause[c] THEN \* for another reason, or it was just lost
           /\ st' = [st EXCEPT ![c] = "shut"]
           /\ armed' = [armed EXCEPT ![c] = FALSE]
           /\ at' = [at EXCEPT ![c] = Ev.t]
           /\ X' = S!Quiet(S!Closed(X, c))
           /\ UNCHANGED <<last, prev, sent, cause, exp>>
         ELSE \* only for loss, which is about to be reported
           /\ Closing /\ st[c] = "open" /\ armed[c] /\ Ev.t >= Since(c, Ev.t) + Timeout
           /\ st' = [st EXCEPT ![c] = "shut"] /\ cause' = [cause EXCEPT ![c] = TRUE]
           /\ at' = [at EXCEPT ![c] = Ev.t]
           /\ X' = S!Quiet(S!Closed(X, c))
           /\ UNCHANGED <<last, prev, armed, sent, exp>>
    [] Ev.o = "closed" -> st[c] \in {"shut", "ref"} /\ Same
    [] Ev.o = "quiet" ->
         /\ exp = <<>>
         /\ (\A k \in Conns : (st[k] = "open" => ~cause[k]) /\ (st[k] = "shut" => ~armed[k])) = TRUE
         /\ Same
    [] Ev.o = "add" -> /\ X' = S!Quiet(S!AddEp(X, Ev.e, Ev.s))
                       /\ UNCHANGED <<st, last, prev, armed, at, sent, cause, exp>>
    [] OTHER -> Same

Next == /\ i <= Len(T.ev)
        /\ InTime(Ev.t) = TRUE \* a value: TLC would follow each disjunct of each connection
        /\ Step
        /\ i' = i + 1 /\ tid' = tid
        /\ TLCSet(tid, IF TLCGet(tid) > i' THEN TLCGet(tid) ELSE i')
Spec == Init /\ [][Next]_vars
Accepted ==
  LET bad == {t \in 1..N : TLCGet(t) # Len(Traces[t].ev) + 1} IN
  \A t \in bad : PrintT("REJECT " \o ToString(t) \o " " \o ToString(TLCGet(t)))
AllAccepted == Accepted /\ PrintT("VALIDATED " \o ToString(N))
=============================================================================

------------------------------ MODULE ConnTrace ------------------------------
(***************************************************************************)
(* C11 on a recorded run: one announcement per connection, before anything *)
(* it brought is delivered; one closed event, after it and with a cause;   *)
(* when nothing moves any more every connection with a cause is closed and *)
(* reported.                                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
S == INSTANCE Stack
Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)
VARIABLES tid, i, run, tp, of, st, may, must, shut
vars == <<tid, i, run, tp, of, st, may, must, shut>>
\* tp: transport -> "out" "adding" "in"; of: connection -> its transport
\* st: connection -> none, yielded, new, closed
\* may, must: it may, it must end; shut: Close was called
T == Traces[tid]
Cfg == T.cfg
Ev == T.ev[i]
Init == /\ tid \in 1..N /\ i = 1 /\ TLCSet(tid, 1) /\ run = FALSE
        /\ tp = [n \in 0..9 |-> "out"]
        /\ LET C == 1..Traces[tid].cfg.conns IN
           /\ of = [c \in C |-> 99] /\ st = [c \in C |-> "none"]
           /\ may = [c \in C |-> FALSE] /\ must = [c \in C |-> FALSE] /\ shut = [c \in C |-> FALSE]
Conns == DOMAIN st
Framed == \E p \in 1..Len(Cfg.procs) : Cfg.procs[p].k = "frame"
Closing == T.hb.close = 1
Ends(C) == /\ may' = [k \in Conns |-> may[k] \/ k \in C]
           /\ must' = [k \in Conns |-> must[k] \/ k \in C]
Same == UNCHANGED <<run, tp, of, st, may, must, shut>>
Step ==
  LET c == Ev.c
      n == Ev.n
  IN
  CASE Ev.o = "ran" -> /\ run' = TRUE /\ tp' = [k \in DOMAIN tp |-> IF tp[k] = "adding" THEN "in" ELSE tp[k]]
                       /\ UNCHANGED <<of, st, may, must, shut>>
    [] Ev.o = "addtp" -> /\ tp' = [tp EXCEPT ![n] = "adding"] /\ UNCHANGED <<run, of, st, may, must, shut>>
    [] Ev.o = "addedtp" -> /\ tp' = [tp EXCEPT ![n] = IF run THEN "in" ELSE @] /\ UNCHANGED <<run, of, st, may, must, shut>>
    [] Ev.o = "deltp" -> \* what it yielded before ends, unless the stack does not run yet
         /\ tp' = [tp EXCEPT ![n] = "out"]
         /\ may' = [k \in Conns |-> may[k] \/ of[k] = n]
         /\ must' = [k \in Conns |-> must[k] \/ (tp[n] = "in" /\ of[k] = n)]
         /\ UNCHANGED <<run, of, st, shut>>
    [] Ev.o = "yield" -> /\ of' = [of EXCEPT ![c] = n] /\ st' = [st EXCEPT ![c] = "yielded"]
                         /\ may' = [may EXCEPT ![c] = @ \/ tp[n] = "out"] \* a removal may be under way
                         /\ UNCHANGED <<run, tp, must, shut>>
    [] Ev.o = "new" -> /\ st[c] = "yielded" /\ st' = [st EXCEPT ![c] = "new"]
                       /\ UNCHANGED <<run, tp, of, may, must, shut>>
    [] Ev.o = "dlv" -> (c = 0 \/ st[c] \in {"new", "closed"}) /\ Same
    [] Ev.o = "closed" -> /\ st[c] = "new" /\ may[c] /\ shut[c] /\ Ev.b = <<1>>
                          /\ st' = [st EXCEPT ![c] = "closed"]
                          /\ must' = [must EXCEPT ![c] = TRUE]
                          /\ UNCHANGED <<run, tp, of, may, shut>>
    [] Ev.o \in {"eof", "err", "rxeof", "appclose", "wfail", "rerr"} ->
         Ends({c}) /\ UNCHANGED <<run, tp, of, st, shut>>
    [] Ev.o = "lost" -> Ends(IF Closing THEN {c} ELSE {}) /\ UNCHANGED <<run, tp, of, st, shut>>
    [] Ev.o = "rx" ->
         Ends(IF Framed /\ Len(Ev.b) >= 4 /\ S!Num32(Ev.b) + 4 > Cfg.cap THEN {c} ELSE {})
         /\ UNCHANGED <<run, tp, of, st, shut>>
    [] Ev.o = "close" -> \* heartbeat loss is reported after it
         /\ may[c] \/ Closing
         /\ Ends({c}) /\ shut' = [shut EXCEPT ![c] = TRUE]
         /\ UNCHANGED <<run, tp, of, st>>
    [] Ev.o = "quiet" ->
         /\ {k \in Conns : st[k] = "yielded" /\ tp[of[k]] = "in"} = {}
         /\ {k \in Conns : st[k] = "new" /\ must[k]} = {}
         /\ {k \in Conns : shut[k] /\ ~must[k]} = {}
         /\ Same
    [] OTHER -> Same
Next == /\ i <= Len(T.ev)
        /\ Step
        /\ i' = i + 1 /\ tid' = tid
        /\ TLCSet(tid, IF TLCGet(tid) > i' THEN TLCGet(tid) ELSE i')
Spec == Init /\ [][Next]_vars
Accepted ==
  LET bad == {t \in 1..N : TLCGet(t) # Len(Traces[t].ev) + 1} IN
  \A t \in bad : PrintT("REJECT " \o ToString(t) \o " " \o ToString(TLCGet(t)))
AllAccepted == Accepted /\ PrintT("VALIDATED " \o ToString(N))
=============================================================================

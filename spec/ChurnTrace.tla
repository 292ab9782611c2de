------------------------------ MODULE ChurnTrace ------------------------------
(***************************************************************************)
(* C23 on a recorded run: at rest the goroutines and the connections that  *)
(* are still held depend on what is there at that moment, not on what has  *)
(* been.                                                                   *)
(*   [o, gor, kept, mem]: at "rest" gor is the number of goroutines, kept  *)
(*   that of ended connections and removed endpoints and transports that   *)
(*   are still reachable, mem the KB in use (0: not recorded)              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)
VARIABLES tid, i, here, first, since
vars == <<tid, i, here, first, since>>
T == Traces[tid]
Ev == T.ev[i]
Slack == 4  \* what the loops may hold on to
Room  == 1100 \* KB: the buffers of one open thing
Each  == 10 \* goroutines that one open thing may need
Init == /\ tid \in 1..N /\ i = 1 /\ TLCSet(tid, 1)
        /\ here = 0 /\ first = [gor |-> -1, here |-> 0, mem |-> 0] /\ since = 0
Step ==
  CASE Ev.o = "open" -> here' = here + 1 /\ since' = 0 /\ UNCHANGED first
    [] Ev.o \in {"add", "addtp"} -> here' = here + 1 /\ UNCHANGED <<first, since>>
    [] Ev.o = "end" -> here' = here - 1 /\ since' = since + 1 /\ UNCHANGED first
    [] Ev.o \in {"del", "deltp"} -> here' = here - 1 /\ UNCHANGED <<first, since>>
    [] Ev.o = "rest" ->
         /\ IF first.gor < 0 THEN first' = [gor |-> Ev.gor, here |-> here, mem |-> Ev.mem]
            ELSE /\ Ev.gor <= first.gor + Slack + Each * (IF here > first.here THEN here - first.here ELSE 0)
                 /\ Ev.mem <= first.mem + Room * (Slack + 2 * (IF here > first.here THEN here - first.here ELSE 0))
                 /\ UNCHANGED first
         \* a transport may hold those that ended since the last one came
         /\ Ev.kept <= Slack + (IF T.list = 1 THEN since ELSE 0)
         /\ UNCHANGED <<here, since>>
    [] OTHER -> UNCHANGED <<here, first, since>>
Next == /\ i <= Len(T.ev) /\ Step /\ i' = i + 1 /\ tid' = tid
        /\ TLCSet(tid, IF TLCGet(tid) > i' THEN TLCGet(tid) ELSE i')
Spec == Init /\ [][Next]_vars
Accepted ==
  LET bad == {t \in 1..N : TLCGet(t) # Len(Traces[t].ev) + 1} IN
  \A t \in bad : PrintT("REJECT " \o ToString(t) \o " " \o ToString(TLCGet(t)))
AllAccepted == Accepted /\ PrintT("VALIDATED " \o ToString(N))
=============================================================================

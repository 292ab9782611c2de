------------------------------ MODULE RetryTrace -----------------------------
(***************************************************************************)
(* C20 on a recorded run, in milliseconds of virtual time: attempts are    *)
(* made when they are due, each succeeds if the server is there; what the  *)
(* transport yields and how many connections the server has seen follows.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Cf == INSTANCE Conf
Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)
VARIABLES tid, i, st, from, k, on, seen, want, sets, n, iv
vars == <<tid, i, st, from, k, on, seen, want, sets, n, iv>>
\* k: attempts made in this run; seen: connections since the server is there
\* sets: the settings so far, n and iv: the budget and the interval (milliseconds) of this run
\* want: what the waiting caller is to be told and when: [what, lo, hi]
T == Traces[tid]
Ev == T.ev[i]
Init == /\ tid \in 1..N /\ i = 1 /\ TLCSet(tid, 1)
        /\ st = "idle" /\ from = 0 /\ k = 0 /\ on = FALSE /\ seen = 0 /\ want = <<>>
        /\ sets = <<>> /\ n = 0 /\ iv = 0
Due == from + k * iv
\* an attempt, or the end of the budget, that lies before the next event
Pending == st = "try" /\ (k >= n \/ Due <= Ev.t)
Attempt == /\ Pending
           /\ IF k >= n \* told at the latest one interval after the last attempt
              THEN /\ st' = "over" /\ UNCHANGED <<k, seen>>
                   /\ want' = Append(want, [what |-> "none", lo |-> IF k = 0 THEN from ELSE from + (k - 1) * iv, hi |-> Due])
              ELSE /\ k' = k + 1
                   /\ IF on THEN st' = "conn" /\ seen' = seen + 1 /\ want' = Append(want, [what |-> "got", lo |-> Due, hi |-> Due])
                      ELSE UNCHANGED <<st, seen, want>>
           /\ UNCHANGED <<tid, i, from, on, sets, n, iv>>
\* nobody is told too late
InTime == IF want = <<>> THEN TRUE ELSE want[1].hi >= Ev.t
Run == /\ Ev.o = "run" /\ InTime
       /\ IF st \in {"idle", "over"}
          THEN /\ st' = "try" /\ from' = Ev.t /\ k' = 0
               /\ n' = Cf!RetryCount(sets, "tp") /\ iv' = 1000 * Cf!RetryInterval(sets, "tp")
          ELSE UNCHANGED <<st, from, k, n, iv>>
       /\ UNCHANGED <<on, seen, want, sets>>
Set == /\ Ev.o = "set" /\ InTime /\ sets' = Append(sets, Ev.set) /\ UNCHANGED <<st, from, k, on, seen, want, n, iv>>
Stop == /\ Ev.o = "stop" /\ InTime
        /\ want' = IF st \in {"try", "conn"} THEN Append(want, [what |-> "none", lo |-> Ev.t, hi |-> Ev.t])
                   \* it was about to end anyway
                   ELSE IF want = <<>> THEN want ELSE [want EXCEPT ![1].hi = Ev.t]
        /\ st' = "idle"
        /\ UNCHANGED <<from, k, on, seen, sets, n, iv>>
On == Ev.o = "on" /\ InTime /\ on' = TRUE /\ seen' = 0 /\ UNCHANGED <<st, from, k, want, sets, n, iv>>
Off == Ev.o = "off" /\ InTime /\ Ev.n = seen /\ on' = FALSE /\ seen' = 0 /\ UNCHANGED <<st, from, k, want, sets, n, iv>>
Told == /\ Ev.o \in {"got", "none"} /\ want # <<>>
        /\ want[1].what = Ev.o /\ want[1].lo <= Ev.t /\ Ev.t <= want[1].hi
        /\ Ev.n = 0
        /\ want' = Tail(want)
        /\ UNCHANGED <<st, from, k, on, seen, sets, n, iv>>
End == Ev.o = "end" /\ (IF want = <<>> THEN TRUE ELSE want[1].hi > Ev.t) /\ UNCHANGED <<st, from, k, on, seen, want, sets, n, iv>>
Step == ~Pending /\ (Set \/ Run \/ Stop \/ On \/ Off \/ Told \/ End)
Next == /\ i <= Len(T.ev)
        /\ \/ Attempt
           \/ /\ Step /\ i' = i + 1 /\ tid' = tid
              /\ TLCSet(tid, IF TLCGet(tid) > i' THEN TLCGet(tid) ELSE i')
Spec == Init /\ [][Next]_vars
Accepted ==
  LET bad == {t \in 1..N : TLCGet(t) # Len(Traces[t].ev) + 1} IN
  \A t \in bad : PrintT("REJECT " \o ToString(t) \o " " \o ToString(TLCGet(t)))
AllAccepted == Accepted /\ PrintT("VALIDATED " \o ToString(N))
=============================================================================

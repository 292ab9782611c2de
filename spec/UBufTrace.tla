----------------------------- MODULE UBufTrace ------------------------------
(* Is a recorded history of buffer operations a behaviour of UBuf.tla?     *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
U == INSTANCE UBuf
Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)
VARIABLES tid, i, hs, ss
vars == <<tid, i, hs, ss>>
Ev == Traces[tid].ev[i]
Init == /\ tid \in 1..N /\ i = 1 /\ hs = <<>> /\ ss = <<>>
        /\ TLCSet(tid, 1)
Next ==
  /\ i <= Len(Traces[tid].ev)
  /\ LET R == U!SysApply(Ev.op, hs, ss) IN
     /\ R.r = Ev.r
     /\ Len(Ev.lens) > 0 => Ev.lens = U!SysLens(R.hs, R.ss)
     /\ Len(Ev.con) > 0 => Ev.con = U!SysContents(R.hs, R.ss)
     /\ hs' = R.hs /\ ss' = R.ss
  /\ i' = i + 1 /\ tid' = tid
  /\ TLCSet(tid, i')
Spec == Init /\ [][Next]_vars
Where == [t \in 1..N |-> TLCGet(t)]
Accepted ==
  LET bad == {t \in 1..N : TLCGet(t) # Len(Traces[t].ev) + 1} IN
  \A t \in bad : PrintT("REJECT " \o ToString(t) \o " " \o ToString(TLCGet(t)))
AllAccepted == /\ Accepted /\ PrintT("VALIDATED " \o ToString(N))
=============================================================================

------------------------------ MODULE PairTrace ------------------------------
(***************************************************************************)
(* Two stacks that talk to each other, many endpoints sending at once:     *)
(* what an endpoint sends to an endpoint over a connection is a queue.     *)
(* C07 (and C04, C05, C09 under concurrency).                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
S == INSTANCE Stack
Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)
VARIABLES tid, i, Q
vars == <<tid, i, Q>>
T == Traces[tid]
Cfg == T.cfg
Ev == T.ev[i]
HasCodec == \E p \in 1..Len(Cfg.procs) : Cfg.procs[p].k \in S!Codecs
Codec == Cfg.procs[CHOOSE p \in 1..Len(Cfg.procs) : Cfg.procs[p].k \in S!Codecs].k
HasSession == \E p \in 1..Len(Cfg.procs) : Cfg.procs[p].k = "session"
Zero == <<0, 0, 0, 0>>
\* the endpoint of the peer that a message goes to, 0 if there is none
Target(e, d) == LET s == IF ~HasSession THEN Zero ELSE IF d = <<>> THEN T.sess[e] ELSE d
                    w == {j \in 1..Len(T.sess) : T.sess[j] = s}
                IN IF w = {} THEN 0 ELSE CHOOSE j \in w : TRUE
\* what arrives, or nothing
\* (without a codec: over references, the object itself)
Arrives(m) == IF ~HasCodec THEN <<m>> ELSE LET x == S!Encode(Codec, m, Cfg) IN
              IF ~x.ok THEN <<>>
              ELSE LET y == S!Decode(Codec, x.b, Cfg) IN IF y.ok THEN <<y.m>> ELSE <<>>

Keys == {<<side, c, e, t>> : side \in 0..1, c \in 1..Cfg.conns, e \in 1..Len(T.sess), t \in 1..Len(T.sess)}
Init == /\ tid \in 1..N /\ i = 1 /\ TLCSet(tid, 1)
        /\ Q = [k \in {<<side, c, e, t>> : side \in 0..1, c \in 1..Traces[tid].cfg.conns,
                       e \in 1..Len(Traces[tid].sess), t \in 1..Len(Traces[tid].sess)} |-> <<>>]
Send == /\ Ev.o = "send"
        /\ LET t == Target(Ev.e, Ev.d)
               a == Arrives(Ev.m)
           IN IF t = 0 \/ a = <<>> \/ Ev.c = 0 THEN UNCHANGED Q
              ELSE Q' = [Q EXCEPT ![<<Ev.side, Ev.c, Ev.e, t>>] = @ \o a]
Deliver == /\ Ev.o = "dlv"
           /\ Ev.c \in 1..Cfg.conns
           /\ \E e \in 1..Len(T.sess) :
                LET k == <<1 - Ev.side, Ev.c, e, Ev.e>> IN
                /\ Q[k] # <<>> /\ Q[k][1] = Ev.m
                /\ Q' = [Q EXCEPT ![k] = Tail(@)]
Quiet == Ev.o = "quiet" /\ (\A k \in DOMAIN Q : Q[k] = <<>>) /\ UNCHANGED Q
Next == /\ i <= Len(T.ev) /\ (Send \/ Deliver \/ Quiet)
        /\ i' = i + 1 /\ tid' = tid
        /\ TLCSet(tid, IF TLCGet(tid) > i' THEN TLCGet(tid) ELSE i')
Spec == Init /\ [][Next]_vars
Accepted ==
  LET bad == {t \in 1..N : TLCGet(t) # Len(Traces[t].ev) + 1} IN
  \A t \in bad : PrintT("REJECT " \o ToString(t) \o " " \o ToString(TLCGet(t)))
AllAccepted == Accepted /\ PrintT("VALIDATED " \o ToString(N))
=============================================================================

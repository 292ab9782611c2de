------------------------------ MODULE ParTrace -------------------------------
(***************************************************************************)
(* Many connections of one stack are fed at the same time.  Whatever they  *)
(* do to each other in time, each of them must have caused exactly what it *)
(* causes alone: the stack's answer is the run of Stack.tla on the reads   *)
(* of that connection only.  C05 (and C06, C17 under concurrency).         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
S == INSTANCE Stack
Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)
VARIABLES tid, c, i, X, D, W, step
vars == <<tid, c, i, X, D, W, step>>
T == Traces[tid]
Cfg == T.cfg
C == T.conns[c]
RECURSIVE With(_, _, _)
With(X0, sess, e) == IF e > Len(sess) THEN X0 ELSE With(S!AddEp(X0, e, sess[e]), sess, e + 1)
RECURSIVE Off(_, _, _)
Off(X0, procs, p) == IF p > Len(procs) THEN X0
                     ELSE Off(IF procs[p].k = "lb" THEN S!Enable(X0, p, FALSE) ELSE X0, procs, p + 1)
Start(t) == Off(With(S!Fresh(Traces[t].cfg, Len(Traces[t].conns)), Traces[t].sess, 1), Traces[t].cfg.procs, 1)
Init == /\ tid \in 1..N /\ c = 1 /\ i = 0 /\ X = Start(tid) /\ D = <<>> /\ W = <<>> /\ step = 1 /\ TLCSet(tid, 1)
Take(Y, j) == /\ X' = Y /\ D' = D \o Y.dlv /\ W' = W \o [k \in 1..Len(Y.wire) |-> Y.wire[k][2]] /\ i' = j /\ c' = c
Of(dlv, e) == SelectSeq(dlv, LAMBDA r : r[1] = e)
Prefix(a, b) == Len(a) <= Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k]
\* heartbeats that greet a connection may mix with answers, they come from a goroutine of their own
Count(s, b) == Cardinality({k \in 1..Len(s) : s[k] = b})
Greets == {w[2] : w \in {S!Open(Cfg, Start(tid), c, FALSE).wire[k] : k \in 1..Len(S!Open(Cfg, Start(tid), c, FALSE).wire)}}
Rest(s) == SelectSeq(s, LAMBDA b : b \notin Greets)
Opening == i = 0 /\ Take(S!Open(Cfg, X, c, FALSE), 1)
\* what was read from a connection that had to be closed has no effect
Reading == i > 0 /\ i <= Len(C.reads) /\ Take(IF c \in X.dead THEN S!Quiet(X) ELSE S!Read(Cfg, X, c, C.reads[i]), i + 1)
Ending ==
  /\ i > 0 /\ (i > Len(C.reads))
  /\ IF C.end = "close"  \* what was under way when it was closed may be lost
     THEN /\ \A e \in 1..Len(T.sess) : Prefix(Of(C.dlv, e), Of(D, e))
          /\ Prefix(Rest(C.wire), Rest(W))
     ELSE /\ \A e \in 1..Len(T.sess) : Of(C.dlv, e) = Of(D, e)
          /\ Rest(C.wire) = Rest(W)
          \* a connection may be gone before it is greeted
          /\ \A g \in Greets : IF C.end = "none" /\ c \notin X.dead THEN Count(C.wire, g) = Count(W, g)
                               ELSE Count(C.wire, g) <= Count(W, g)
          /\ C.end = "none" => C.dead = (c \in X.dead)
  /\ T.stray = 0
  /\ c' = c + 1 /\ i' = 0 /\ X' = Start(tid) /\ D' = <<>> /\ W' = <<>>
Next == /\ c <= Len(T.conns) /\ (Opening \/ Reading \/ Ending)
        /\ step' = step + 1 /\ tid' = tid
        /\ TLCSet(tid, step')
Spec == Init /\ [][Next]_vars
Steps(t) == LET Z[k \in 0..Len(Traces[t].conns)] == IF k = 0 THEN 1 ELSE Z[k - 1] + 2 + Len(Traces[t].conns[k].reads)
            IN Z[Len(Traces[t].conns)]
Accepted ==
  LET bad == {t \in 1..N : TLCGet(t) # Steps(t)} IN
  \A t \in bad : PrintT("REJECT " \o ToString(t) \o " " \o ToString(TLCGet(t)))
AllAccepted == Accepted /\ PrintT("VALIDATED " \o ToString(N))
=============================================================================

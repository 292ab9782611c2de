------------------------------ MODULE StatTrace ------------------------------
(***************************************************************************)
(* C15 on a recorded run of one stack with many endpoints and connections  *)
(* at once.  Every answer must lie between what was through when its query *)
(* came and what had begun when the answer left, and must be exact when    *)
(* nothing is under way (event "quiet").  Queries of our own come once per *)
(* interval.                                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
S == INSTANCE Stack
Cf == INSTANCE Conf
Raw == ndJsonDeserialize(IOEnv.TRACES)
Traces == [t \in 1..Len(Raw) |-> Cf!Settled(Raw[t])]
N == Len(Traces)
VARIABLES tid, i, X, st, at, asked, open, put, wired, handed, calm, seen, exp
vars == <<tid, i, X, st, at, asked, open, put, wired, handed, calm, seen, exp>>
\* open: per connection the lower bounds <<tx, rx>> of its unanswered queries
\* calm: nothing was under way at this event and nothing began since: then
\*       answers are exact
\* seen: largest answers so far
T == Traces[tid]
Cfg == T.cfg
Ev == T.ev[i]
Slack == 50
P == CHOOSE p \in 1..Len(Cfg.procs) : Cfg.procs[p].k = "stat"
Interval == T.collect * 1000
Max(a, b) == IF a > b THEN a ELSE b

Init == /\ tid \in 1..N /\ i = 1 /\ TLCSet(tid, 1)
        /\ X = S!Fresh(Traces[tid].cfg, Traces[tid].cfg.conns)
        /\ LET C == 1..Traces[tid].cfg.conns IN
           /\ st = [c \in C |-> "none"] /\ at = [c \in C |-> 0] /\ asked = [c \in C |-> 0]
           /\ open = [c \in C |-> <<>>]
        /\ put = 0 /\ wired = 0 /\ handed = 0 /\ calm = FALSE /\ seen = <<0, 0>> /\ exp = <<>>

\* what a write is for the statistics processor: bytes from its own layer, or
\* <<>> if a layer below made it
RECURSIVE Layer(_, _)
Layer(p, b) ==
  IF p = P THEN b
  ELSE LET k == Cfg.procs[p].k IN
       CASE k = "frame" -> IF Len(b) < 4 \/ S!Num32(b) # Len(b) - 4 THEN <<0 - 1>> ELSE Layer(p - 1, S!Drop(b, 4))
         [] k = "session" -> IF Len(b) < 4 THEN <<0 - 1>> ELSE Layer(p - 1, S!Drop(b, 4))
         [] k = "hb" -> IF b = <<>> THEN <<0 - 1>> ELSE IF b = <<131>> THEN <<>> ELSE Layer(p - 1, S!Drop(b, 1))
         [] OTHER -> Layer(p - 1, b)
\* the counters of an answer, below 2^24 each
Zeros(b, from, to) == \A k \in from..to : b[k] = 0
IsAnswer(b) == Len(b) = 17 + Len(Cfg.name) /\ Zeros(b, 2, 6) /\ Zeros(b, 10, 14)
               /\ SubSeq(b, 18, Len(b)) = Cfg.name
TxOf(b) == b[7] * 65536 + b[8] * 256 + b[9]
RxOf(b) == b[15] * 65536 + b[16] * 256 + b[17]

InTime(t) == Interval > 0 =>
  \A c \in DOMAIN st : st[c] = "open" => (asked[c] + 1) * Interval + at[c] + Slack >= t
RECURSIVE Queries(_, _)
Queries(w, c) == IF w = <<>> THEN 0
                 ELSE (IF w[1][1] = c /\ Layer(Len(Cfg.procs), w[1][2])[1] = 35 THEN 1 ELSE 0) + Queries(Tail(w), c)
Lows == <<Max(wired, seen[1]), Max(handed, seen[2])>>

Same == UNCHANGED <<X, st, at, asked, open, put, wired, handed, calm, seen, exp>>
Step ==
  LET c == Ev.c IN
  CASE Ev.o = "new" ->
         /\ st[c] = "none"
         /\ st' = [st EXCEPT ![c] = IF \E j \in 1..i : T.ev[j].o = "yield" /\ T.ev[j].c = c /\ T.ev[j].ref
                                    THEN "ref" ELSE "open"]
         /\ at' = [at EXCEPT ![c] = Ev.t]
         /\ UNCHANGED <<X, asked, open, put, wired, handed, calm, seen, exp>>
    [] Ev.o = "put" -> /\ put' = put + 1 /\ calm' = FALSE
                       /\ UNCHANGED <<X, st, at, asked, open, wired, handed, seen, exp>>
    [] Ev.o = "rx" ->
         \E Y \in {S!Read(Cfg, X, c, Ev.b)} : \* evaluated once
         \E n \in {Queries(Y.wire, c)} :
         LET more == Y.rx[P] > X.rx[P]
         IN /\ X' = S!Quiet(Y)
            /\ exp' = exp \o Y.dlv
            /\ open' = [open EXCEPT ![c] = @ \o [k \in 1..n |-> IF calm /\ ~more THEN <<put, Y.rx[P]>> ELSE Lows]]
            /\ calm' = (calm /\ ~more)
            /\ UNCHANGED <<st, at, asked, put, wired, handed, seen>>
    [] Ev.o = "dlv" ->
         \E j \in 1..Len(exp) :
           /\ exp[j] = <<Ev.e, c, Ev.m>>
           /\ \A k \in 1..(j - 1) : <<exp[k][1], exp[k][2]>> # <<Ev.e, c>>
           /\ exp' = SubSeq(exp, 1, j - 1) \o SubSeq(exp, j + 1, Len(exp))
           /\ handed' = handed + 1
           /\ UNCHANGED <<X, st, at, asked, open, put, wired, calm, seen>>
    [] Ev.o = "wire" ->
         \E b \in {Layer(Len(Cfg.procs), Ev.b)} :
         IF b = <<>> THEN Same
         ELSE CASE b[1] = 0 -> /\ wired' = wired + 1
                               /\ wired' <= put
                               /\ UNCHANGED <<X, st, at, asked, open, put, handed, calm, seen, exp>>
                [] b[1] = 16 ->
                     /\ Len(b) = 1 /\ Interval > 0 /\ st[c] # "ref"
                     /\ st[c] = "open" => at[c] + asked[c] * Interval <= Ev.t + Slack
                     /\ st[c] = "shut" => Ev.t = at[c]
                     /\ asked' = [asked EXCEPT ![c] = @ + 1]
                     /\ UNCHANGED <<X, st, at, open, put, wired, handed, calm, seen, exp>>
                [] b[1] = 35 ->
                     /\ IsAnswer(b) /\ open[c] # <<>>
                     /\ TxOf(b) >= open[c][1][1] /\ TxOf(b) <= put
                     /\ RxOf(b) >= open[c][1][2] /\ RxOf(b) <= X.rx[P]
                     /\ open' = [open EXCEPT ![c] = Tail(@)]
                     /\ seen' = <<Max(seen[1], TxOf(b)), Max(seen[2], RxOf(b))>>
                     /\ UNCHANGED <<X, st, at, asked, put, wired, handed, calm, exp>>
                [] OTHER -> FALSE
    [] Ev.o = "close" ->
         /\ st' = [st EXCEPT ![c] = "shut"] /\ at' = [at EXCEPT ![c] = Ev.t]
         /\ X' = S!Quiet(S!Closed(X, c))
         /\ UNCHANGED <<asked, open, put, wired, handed, calm, seen, exp>>
    [] Ev.o = "quiet" -> /\ exp = <<>>
                         /\ \A k \in DOMAIN open : open[k] = <<>>
                         /\ calm' = TRUE
                         /\ UNCHANGED <<X, st, at, asked, open, put, wired, handed, seen, exp>>
    [] Ev.o = "add" -> /\ X' = S!Quiet(S!AddEp(X, Ev.e, Ev.s))
                       /\ UNCHANGED <<st, at, asked, open, put, wired, handed, calm, seen, exp>>
    [] OTHER -> Same

Next == /\ i <= Len(T.ev)
        /\ InTime(Ev.t) = TRUE
        /\ Step
        /\ i' = i + 1 /\ tid' = tid
        /\ TLCSet(tid, IF TLCGet(tid) > i' THEN TLCGet(tid) ELSE i')
Spec == Init /\ [][Next]_vars
Accepted ==
  LET bad == {t \in 1..N : TLCGet(t) # Len(Traces[t].ev) + 1} IN
  \A t \in bad : PrintT("REJECT " \o ToString(t) \o " " \o ToString(TLCGet(t)))
AllAccepted == Accepted /\ PrintT("VALIDATED " \o ToString(N))
=============================================================================

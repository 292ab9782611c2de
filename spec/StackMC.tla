------------------------------- MODULE StackMC -------------------------------
(***************************************************************************)
(* Two stacks with the same pipeline and the connections between them.     *)
(* Endpoints of A send, B reads the byte streams in pieces of any size.    *)
(* With Garbage > 0 the peer instead sends that many arbitrary bytes.      *)
(* Every behaviour can be printed as a script for the real stack (Record). *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Which,     \* the pipeline
          MaxSend,   \* messages sent
          MaxChunk,  \* most bytes in one read
          Conns,     \* connections
          MayClose,  \* connections may end in the middle
          Garbage,   \* arbitrary bytes per connection instead of messages
          Record     \* keep the history and print it
S == INSTANCE Stack

P(ks) == [i \in 1..Len(ks) |-> [k |-> ks[i], n |-> 0]]
Make(mtu, cap, ks) == [mtu |-> mtu, cap |-> cap, capop |-> TRUE, name |-> <<120>>, procs |-> P(ks),
                       conns |-> Conns, eps |-> 2, enc |-> <<>>, dec |-> <<>>]
Cfg == CASE Which = "frame"   -> Make(12, 8, <<"raw", "frame">>)
         [] Which = "session" -> Make(24, 16, <<"bytes", "session", "frame">>)
         [] Which = "tags"    -> Make(40, 40, <<"bytes", "stat", "hb", "frame">>)
         [] Which = "all"     -> Make(48, 48, <<"generic", "session", "stat", "hb", "flow", "frame">>)
         [] Which = "rev"     -> Make(48, 48, <<"bytes", "hb", "stat", "session", "frame">>)
         [] Which = "plain"   -> Make(16, 16, <<"bytes", "session">>)
Kinds == {Cfg.procs[i].k : i \in 1..Len(Cfg.procs)}
Sessions == IF "session" \in Kinds THEN <<<<0, 0, 0, 0>>, <<255, 255, 255, 255>>>> ELSE <<<<0, 0, 0, 0>>>>
Eps == 1..Len(Sessions)
Byt(b) == [k |-> "bytes", b |-> b]
Msgs == CASE Which = "frame" -> {Byt(<<>>), Byt(<<0, 0>>), Byt(<<0, 0, 0, 1>>), Byt(<<7, 7, 7, 7, 7>>)} \* the last: too big for B
          [] Which = "plain" -> {Byt(<<131>>), Byt([i \in 1..12 |-> i]), Byt([i \in 1..13 |-> i])}
          [] OTHER -> {Byt(<<131>>), Byt(<<16, 0>>), Byt(<<>>), Byt([i \in 1..45 |-> 9])} \* empty, too big
Alphabet == {0, 1, 4, 255}

VARIABLES A, B, net, sent, got, closed, pos, hist
vars == <<A, B, net, sent, got, closed, pos, hist>>

RECURSIVE Start(_, _)
Start(X, e) == IF e > Len(Sessions) THEN X ELSE Start(S!AddEp(X, e, Sessions[e]), e + 1)
RECURSIVE Flat(_, _)
Flat(w, c) == IF w = <<>> THEN <<>> ELSE (IF w[1][1] = c THEN w[1][2] ELSE <<>>) \o Flat(Tail(w), c)
\* every connection starts with the control messages of a new connection
Opening(c) == Flat(S!Open(Cfg, S!Fresh(Cfg, Conns), c, FALSE).wire, c)
Prefix == [i \in 1..Len(Sessions) |-> [o |-> "addep", e |-> i, s |-> Sessions[i]]]
          \o [c \in 1..Conns |-> [o |-> "open", c |-> c, ref |-> FALSE]]
Log(op) == hist' = IF Record THEN Append(hist, op) ELSE hist
Seqs(n) == UNION {[1..k -> Alphabet] : k \in 0..n}

Init == /\ A = Start(S!Fresh(Cfg, Conns), 1) /\ B = Start(S!Fresh(Cfg, Conns), 1)
        /\ net \in IF Garbage > 0 THEN [1..Conns -> [1..Garbage -> Alphabet]]
                   ELSE {[c \in 1..Conns |-> Opening(c)]}
        /\ sent = <<>> /\ got = <<>> /\ closed = {} /\ pos = [c \in 1..Conns |-> <<>>]
        /\ hist = IF Record THEN Prefix ELSE <<>>

Fits(m) == S!Encode(Cfg.procs[1].k, m, Cfg).ok
\* C04 and C07 promise delivery for what B can reassemble
Small(m) == LET e == S!Encode(Cfg.procs[1].k, m, Cfg) IN e.ok /\ Len(e.b) + S!Overhead(Cfg) <= Cfg.cap
SendMsg == /\ Garbage = 0 /\ Len(sent) < MaxSend
           /\ \E e \in Eps, c \in (1..Conns) \ closed, m \in Msgs :
                /\ Fits(m) => Small(m)
                /\ "frame" \in Kinds \/ net[c] = <<>> \* nobody merges what nobody can separate
                /\ LET X == S!Send(Cfg, A, Sessions[e], c, FALSE, m, <<>>) IN
                   /\ A' = S!Quiet(X)
                   /\ net' = [net EXCEPT ![c] = @ \o Flat(X.wire, c)]
                   /\ sent' = Append(sent, <<e, c, m>>)
                   /\ UNCHANGED <<B, got, closed, pos, hist>>
Receive == \E c \in (1..Conns) \ closed : \E n \in 1..MaxChunk :
             /\ n <= Len(net[c]) /\ n <= Cfg.mtu
             /\ ("frame" \in Kinds \/ n = Len(net[c])) \* without framing the transport keeps boundaries
             /\ LET b == SubSeq(net[c], 1, n)
                    Y == S!Read(Cfg, B, c, b) IN
                /\ B' = S!Quiet(Y)
                /\ got' = got \o Y.dlv
                /\ net' = [net EXCEPT ![c] = SubSeq(@, n + 1, Len(@))]
                /\ closed' = closed \union Y.dead
                /\ pos' = IF Garbage > 0 THEN [pos EXCEPT ![c] = @ \o b] ELSE pos
                /\ Log([o |-> "read", c |-> c, b |-> b])
             /\ UNCHANGED <<A, sent>>
End == /\ MayClose
       /\ \E c \in (1..Conns) \ closed :
            /\ closed' = closed \union {c} /\ net' = [net EXCEPT ![c] = <<>>]
            /\ B' = S!Quiet(S!Closed(B, c)) /\ A' = S!Quiet(S!Closed(A, c))
            /\ Log([o |-> "close", c |-> c])
       /\ UNCHANGED <<sent, got, pos>>
Next == SendMsg \/ Receive \/ End
Spec == Init /\ [][Next]_vars
\* all of the streams first, then the cuts: behaviours worth a script
Eager == Init /\ [][IF Garbage = 0 /\ Len(sent) < MaxSend THEN SendMsg ELSE Receive \/ End]_vars

Between(log, e, c) == SelectSeq(log, LAMBDA r : r[1] = e /\ r[2] = c)
Good(log) == SelectSeq(log, LAMBDA r : Fits(r[3]))
Leads(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
\* C04 C05 C07 C09: exactly once, in order, to the right endpoint, from the right connection
ExactlyOnce ==
  Garbage = 0 => \A e \in Eps, c \in 1..Conns :
    LET s == Between(Good(sent), e, c)
        g == Between(got, e, c)
    IN IF c \in closed THEN Leads(g, s)
       ELSE IF net[c] = <<>> THEN g = s ELSE Leads(g, s)
\* C04: handed up as soon as the last byte is there
Prompt == \A c \in 1..Conns : "frame" \in Kinds =>
  LET k == B.cache[c] IN Len(k) >= 4 => S!Num32(k) + 4 > Len(k)
\* C04: the cache never needs more than its capacity
Bounded == \A c \in 1..Conns : Len(B.cache[c]) <= Cfg.cap
\* C08: nothing above the MTU, nothing from a message that does not fit
WholeOrNothing ==
  Garbage = 0 => \A m \in Msgs, e \in Eps :
    LET w == S!Send(Cfg, A, Sessions[e], 1, FALSE, m, <<>>).wire IN
    (1 \notin closed) => IF Fits(m) THEN Len(w) = 1 /\ Len(w[1][2]) <= Cfg.mtu ELSE w = <<>>
\* C15
Counted == (Which \in {"tags", "all"} \* in rev heartbeats are messages of a layer above
              /\ Garbage = 0) =>
  LET p == CHOOSE i \in 1..Len(Cfg.procs) : Cfg.procs[i].k = "stat" IN
  /\ A.tx[p] = Len(Good(sent)) /\ A.rx[p] = 0 /\ B.tx[p] = 0
  /\ B.rx[p] = Len(got)
\* C04 C06: what arrives depends on the bytes and not on the cuts (as long as
\* no frame beyond the capacity is announced)
RECURSIVE ByOne(_, _, _)
ByOne(X, c, b) == IF b = <<>> THEN <<>>
                  ELSE LET Y == S!Read(Cfg, X, c, <<b[1]>>) IN
                       Y.dlv \o ByOne(S!Quiet(Y), c, Tail(b))
AllFrom(log, c) == SelectSeq(log, LAMBDA r : r[2] = c)
CutsDoNotMatter == Garbage > 0 => \A c \in 1..Conns :
  c \in closed \/ AllFrom(got, c) = ByOne(Start(S!Fresh(Cfg, Conns), 1), c, pos[c])
\* a connection ends by itself only for a frame beyond the capacity
RECURSIVE Announces(_)
Announces(b) == IF Len(b) < 4 THEN FALSE
                ELSE LET n == S!Num32(b) IN
                     IF n + 4 > Cfg.cap THEN TRUE
                     ELSE IF Len(b) < n + 4 THEN FALSE ELSE Announces(S!Drop(b, n + 4))
OnlyOversized == [][\A c \in closed' \ closed :
                     IF Garbage = 0 THEN MayClose ELSE Announces(pos'[c])]_vars

Finished == \A c \in 1..Conns : c \in closed \/ net[c] = <<>>
Done == Finished /\ (Garbage > 0 \/ Len(sent) = MaxSend)
Emit == (Record /\ Done) => PrintT("T " \o ToJson([cfg |-> Cfg, ops |-> hist]))
=============================================================================

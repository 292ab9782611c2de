------------------------------- MODULE Stack --------------------------------
(***************************************************************************)
(* The data path of one stack: endpoints / upper deck (position 0), the    *)
(* processors (positions 1..n from top to bottom) and the lower deck with  *)
(* its connections (position n+1).  A stimulus (an endpoint sends, a       *)
(* connection yields a read) is carried through synchronously: Down and Up *)
(* are the OnUpperData and OnLowerData of every processor.                 *)
(*                                                                         *)
(* cfg:  [mtu, cap, name, procs: sequence of [k: kind, n: predicates],     *)
(*        enc, dec: tables of the codecs that are not modelled here]       *)
(* X:    the state of the stack plus what the current stimulus caused      *)
(*   en     position -> enabled                                            *)
(*   tx,rx  position -> messages counted (statistics processors)           *)
(*   cache  connection -> bytes of an incomplete frame                     *)
(*   eps    active endpoints, sequence of [e: id, s: session as 4 bytes]   *)
(*   reg    endpoints the stack lists                                      *)
(*   wire   writes: <<connection, bytes>>                                  *)
(*   refs   objects handed to reference connections: <<connection, msg>>   *)
(*   dlv    deliveries: <<endpoint id, connection, msg>>                   *)
(*   calls  predicate calls:                                               *)
(*          <<position, predicate, to upper, conn, message, buffer>>       *)
(*   dead   connections the stack gave up                                  *)
(*   hbs    connections on which a heartbeat arrived                       *)
(*   gone   connections that have ended                                    *)
(* A packet is [c: connection (0 none), ref: is it a reference connection, *)
(*   hb: has a buffer, b: its bytes, hm: has a message, m: the message     *)
(*   [k: kind, b: bytes], s: session option (<<>> if unset)]               *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences

Codecs == {"bytes", "string", "raw", "generic", "json", "gob", "ggob"}

OverheadOf(k) == CASE k \in {"session", "frame"} -> 4
                   [] k \in {"stat", "hb", "lb"} -> 1
                   [] OTHER -> 0
RECURSIVE Sum(_, _)
Sum(procs, i) == IF i > Len(procs) THEN 0 ELSE OverheadOf(procs[i].k) + Sum(procs, i + 1)
Overhead(cfg) == Sum(cfg.procs, 1)

\* the session header of a complete message on the wire
SessionOf(cfg, b) ==
  LET p == CHOOSE j \in 1..Len(cfg.procs) : cfg.procs[j].k = "session"
      off == Sum(cfg.procs, p + 1)
  IN SubSeq(b, off + 1, off + 4)

\* ---- numbers on the wire (big endian) -----------------------------------
U32(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
U64(n) == <<0, 0, 0, 0>> \o U32(n)
Huge == 1000000000
Num32(b) == IF b[1] >= 32 THEN Huge
            ELSE b[1] * 16777216 + b[2] * 65536 + b[3] * 256 + b[4]
Drop(b, n) == SubSeq(b, n + 1, Len(b))

\* ---- codecs -------------------------------------------------------------
NoMsg == [k |-> "none", b |-> <<>>]
Invert(b) == [i \in 1..Len(b) |-> 255 - b[i]]
Lookup(table, key) == {i \in 1..Len(table) : table[i].i = key}
\* result [ok, b]; room: bytes available for the encoding
Encode(k, m, cfg) ==
  LET room == cfg.mtu - Overhead(cfg)
      fit(b) == [ok |-> Len(b) <= room, b |-> b]
      no == [ok |-> FALSE, b |-> <<>>]
  IN CASE k = "bytes"   -> IF m.k = "bytes" /\ Len(m.b) > 0 THEN fit(m.b) ELSE no
       [] k = "string"  -> IF m.k = "string" /\ Len(m.b) > 0 THEN fit(m.b) ELSE no
       [] k = "raw"     -> IF m.k = "bytes" THEN fit(m.b) ELSE no
       [] k = "generic" -> IF m.k = "bytes" /\ ~(Len(m.b) > 0 /\ m.b[1] = 255)
                           THEN fit(<<126>> \o Invert(m.b)) ELSE no
       [] OTHER         -> \* table made with the standard library's encoders
            LET e == {i \in Lookup(cfg.enc, m) : cfg.enc[i].ok} IN
            IF e = {} THEN no ELSE fit(cfg.enc[CHOOSE i \in e : TRUE].b)
\* result [ok, m]
Decode(k, b, cfg) ==
  LET no == [ok |-> FALSE, m |-> NoMsg] IN
  CASE k = "bytes"   -> IF b = <<>> THEN no ELSE [ok |-> TRUE, m |-> [k |-> "bytes", b |-> b]]
    [] k = "string"  -> IF b = <<>> THEN no ELSE [ok |-> TRUE, m |-> [k |-> "string", b |-> b]]
    [] k = "raw"     -> [ok |-> TRUE, m |-> [k |-> "bytes", b |-> b]]
    [] k = "generic" -> IF b # <<>> /\ b[1] = 126
                        THEN [ok |-> TRUE, m |-> [k |-> "bytes", b |-> Invert(Drop(b, 1))]] ELSE no
    [] OTHER         ->
         LET d == {i \in Lookup(cfg.dec, b) : cfg.dec[i].ok} IN
         IF d = {} THEN no ELSE [ok |-> TRUE, m |-> cfg.dec[CHOOSE i \in d : TRUE].m]

\* ---- predicates of filters and forwarders -------------------------------
\* outcomes: X.fup / X.fdn, the answers of the predicates for this stimulus
RECURSIVE FirstYes(_, _, _)
FirstYes(ans, n, j) == IF j > n THEN 0 ELSE IF ans[j] THEN j ELSE FirstYes(ans, n, j + 1)
MsgOf(pkt) == IF pkt.hm THEN pkt.m.b ELSE <<>>
\* above the codec the buffer says nothing
CodecAt(cfg) == LET c == {i \in 1..Len(cfg.procs) : cfg.procs[i].k \in Codecs} IN
                IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : j <= i
BufOf(cfg, p, pkt) == IF pkt.hb /\ p > CodecAt(cfg) THEN pkt.b ELSE <<>>
Ask(cfg, p, n, up, pkt, X) ==
  LET ans == IF up THEN X.fup ELSE X.fdn
      y == FirstYes(ans, n, 1)
      asked == IF y = 0 THEN n ELSE y
  IN [yes |-> y # 0,
      X |-> [X EXCEPT !.calls = @ \o [j \in 1..asked |-> <<p, j, up, pkt.c, MsgOf(pkt), BufOf(cfg, p, pkt)>>]]]

\* ---- the pipeline -------------------------------------------------------
RECURSIVE Down(_, _, _, _), Up(_, _, _, _), Frames(_, _, _, _, _, _)

Pre(pkt, bs) == [pkt EXCEPT !.b = bs \o @]
Strip(pkt, n) == [pkt EXCEPT !.b = Drop(@, n)]

Down(cfg, p, pkt, X) ==
  IF p > Len(cfg.procs) THEN \* lower deck
    IF pkt.c = 0 \/ pkt.c \in X.gone THEN X
    ELSE IF pkt.ref THEN IF pkt.hm THEN [X EXCEPT !.refs = Append(@, <<pkt.c, pkt.m>>)] ELSE X
    ELSE IF ~pkt.hb \/ pkt.b = <<>> THEN X
    ELSE [X EXCEPT !.wire = Append(@, <<pkt.c, pkt.b>>)]
  ELSE
  LET k == cfg.procs[p].k
      en == X.en[p]
      go(q, Y) == Down(cfg, p + 1, q, Y)
  IN
  CASE k \in Codecs ->
         IF ~en THEN go(pkt, X)
         ELSE IF ~pkt.hm THEN X
         ELSE LET e == Encode(k, pkt.m, cfg) IN
              IF e.ok THEN go([pkt EXCEPT !.hb = TRUE, !.b = e.b], X) ELSE X
    [] k = "session" ->
         IF ~en THEN go(pkt, X)
         ELSE IF ~pkt.hb THEN X
         ELSE go(Pre(pkt, IF pkt.s = <<>> THEN <<0, 0, 0, 0>> ELSE pkt.s), X)
    [] k = "stat" ->
         IF pkt.ref THEN go(pkt, X) ELSE IF ~pkt.hb THEN X
         ELSE go(Pre(pkt, <<0>>), IF en THEN [X EXCEPT !.tx[p] = @ + 1] ELSE X)
    [] k = "hb" ->
         IF pkt.ref THEN go(pkt, X) ELSE IF ~pkt.hb THEN X ELSE go(Pre(pkt, <<0>>), X)
    [] k = "lb" ->
         IF pkt.ref THEN go(pkt, X) ELSE IF ~pkt.hb THEN X
         ELSE go(Pre(pkt, IF en THEN <<17>> ELSE <<0>>), X)
    [] k = "frame" ->
         IF pkt.ref \/ ~en THEN go(pkt, X) ELSE IF ~pkt.hb THEN X
         ELSE go(Pre(pkt, U32(Len(pkt.b))), X)
    [] k = "loop" -> IF en THEN Up(cfg, p - 1, pkt, X) ELSE go(pkt, X)
    [] k = "filter" ->
         IF ~en THEN go(pkt, X)
         ELSE LET a == Ask(cfg, p, cfg.procs[p].n, FALSE, pkt, X) IN IF a.yes THEN go(pkt, a.X) ELSE a.X
    [] k = "fwd" ->
         IF ~en THEN go(pkt, X)
         ELSE LET a == Ask(cfg, p, cfg.procs[p].n, FALSE, pkt, X) IN IF a.yes THEN a.X ELSE go(pkt, a.X)
    [] OTHER -> go(pkt, X) \* flow, echo, discard

Up(cfg, p, pkt, X) ==
  IF p = 0 THEN \* upper deck
    IF ~pkt.hm THEN X
    ELSE LET s == IF pkt.s = <<>> THEN <<0, 0, 0, 0>> ELSE pkt.s
             who == {i \in 1..Len(X.eps) : X.eps[i].s = s}
         IN IF who = {} THEN X
            ELSE [X EXCEPT !.dlv = Append(@, <<X.eps[CHOOSE i \in who : TRUE].e, pkt.c, pkt.m>>)]
  ELSE
  LET k == cfg.procs[p].k
      en == X.en[p]
      go(q, Y) == Up(cfg, p - 1, q, Y)
      short == ~pkt.hb \/ Len(pkt.b) < 1
  IN
  CASE k \in Codecs ->
         IF ~en THEN go(pkt, X)
         ELSE IF ~pkt.hb THEN X
         ELSE LET d == Decode(k, pkt.b, cfg) IN
              IF d.ok THEN go([pkt EXCEPT !.hm = TRUE, !.m = d.m], X) ELSE X
    [] k = "session" ->
         IF ~en THEN go(pkt, X)
         ELSE IF ~pkt.hb \/ Len(pkt.b) < 4 THEN X
         ELSE go([Strip(pkt, 4) EXCEPT !.s = SubSeq(pkt.b, 1, 4)], X)
    [] k = "stat" ->
         IF pkt.ref THEN go(pkt, X) ELSE IF short THEN X
         ELSE IF ~en THEN go(Strip(pkt, 1), X)
         ELSE IF pkt.b[1] = 16 \* a query: answered on its connection
              THEN Down(cfg, p + 1,
                        [pkt EXCEPT !.b = <<35>> \o U64(X.tx[p]) \o U64(X.rx[p]) \o cfg.name], X)
         ELSE IF pkt.b[1] = 35 THEN X \* an answer
         ELSE go(Strip(pkt, 1), [X EXCEPT !.rx[p] = @ + 1])
    [] k = "hb" ->
         IF pkt.ref THEN go(pkt, X) ELSE IF short THEN X
         ELSE IF pkt.b[1] = 131 THEN [X EXCEPT !.hbs = @ \union {pkt.c}]
         ELSE go(Strip(pkt, 1), X)
    [] k = "lb" ->
         IF pkt.ref THEN go(pkt, X) ELSE IF short THEN X
         ELSE IF en /\ pkt.b[1] # 0 THEN X ELSE go(Strip(pkt, 1), X)
    [] k = "frame" ->
         IF pkt.ref THEN go(pkt, X) ELSE IF ~pkt.hb THEN X
         ELSE IF ~en THEN go(pkt, X)
         ELSE Frames(cfg, p, pkt, X, X.cache[pkt.c] \o pkt.b, X.cache[pkt.c] = <<>>)
    [] k = "echo" -> IF en THEN Down(cfg, p + 1, pkt, X) ELSE go(pkt, X)
    [] k = "discard" -> IF en THEN X ELSE go(pkt, X)
    [] k = "loop" -> IF en THEN X ELSE go(pkt, X)
    [] k = "filter" ->
         IF ~en THEN go(pkt, X)
         ELSE LET a == Ask(cfg, p, cfg.procs[p].n, TRUE, pkt, X) IN IF a.yes THEN go(pkt, a.X) ELSE a.X
    [] k = "fwd" ->
         IF ~en THEN go(pkt, X)
         ELSE LET a == Ask(cfg, p, cfg.procs[p].n, TRUE, pkt, X) IN IF a.yes THEN a.X ELSE go(pkt, a.X)
    [] OTHER -> go(pkt, X) \* flow

\* hand up the complete frames at the front of data. direct: nothing was
\* pending, so frames that are complete in this read need no cache
Frames(cfg, p, pkt, X, data, direct) ==
  IF Len(data) < 4 THEN [X EXCEPT !.cache[pkt.c] = data]
  ELSE LET n == Num32(data) IN
    IF Len(data) >= n + 4 /\ (direct \/ n + 4 <= cfg.cap)
    THEN \* written so that TLC evaluates every frame once
         CHOOSE r \in {Frames(cfg, p, pkt, Y, rest, direct) :
                        rest \in {Drop(data, n + 4)},
                        Y \in {Up(cfg, p - 1, [pkt EXCEPT !.b = SubSeq(data, 5, n + 4), !.hm = FALSE, !.m = NoMsg],
                                   [X EXCEPT !.cache[pkt.c] = <<>>])}} : TRUE
    ELSE IF n + 4 > cfg.cap THEN [X EXCEPT !.cache[pkt.c] = <<>>, !.dead = @ \union {pkt.c}, !.gone = @ \union {pkt.c}]
    ELSE [X EXCEPT !.cache[pkt.c] = data]

\* ---- stimuli ------------------------------------------------------------
Fresh(cfg, conns) ==
  [en |-> [p \in 1..Len(cfg.procs) |-> TRUE],
   tx |-> [p \in 1..Len(cfg.procs) |-> 0], rx |-> [p \in 1..Len(cfg.procs) |-> 0],
   cache |-> [c \in 0..conns |-> <<>>], eps |-> <<>>,
   wire |-> <<>>, refs |-> <<>>, dlv |-> <<>>, calls |-> <<>>, dead |-> {}, hbs |-> {}, gone |-> {}, reg |-> {},
   fup |-> <<>>, fdn |-> <<>>]
Quiet(X) == [X EXCEPT !.wire = <<>>, !.refs = <<>>, !.dlv = <<>>, !.calls = <<>>, !.dead = {}, !.hbs = {}]

\* endpoint with session s sends m on connection c; d explicit destination or <<>>
Send(cfg, X, s, c, ref, m, d) ==
  Down(cfg, 1, [c |-> c, ref |-> ref, hb |-> FALSE, b |-> <<>>, hm |-> m.k # "none", m |-> m,
                s |-> IF d = <<>> THEN s ELSE d], Quiet(X))
Read(cfg, X, c, b) ==
  Up(cfg, Len(cfg.procs), [c |-> c, ref |-> FALSE, hb |-> TRUE, b |-> b, hm |-> FALSE, m |-> NoMsg,
                           s |-> <<>>], Quiet(X))
ReadRef(cfg, X, c, m) ==
  Up(cfg, Len(cfg.procs), [c |-> c, ref |-> TRUE, hb |-> FALSE, b |-> <<>>, hm |-> TRUE, m |-> m,
                           s |-> <<>>], Quiet(X))
\* a control message of the processor at position p
Control(cfg, X, p, c, b) ==
  Down(cfg, p + 1, [c |-> c, ref |-> FALSE, hb |-> TRUE, b |-> b, hm |-> FALSE, m |-> NoMsg,
                    s |-> <<>>], X)
\* what a new connection causes: one heartbeat per heartbeat processor
RECURSIVE Opened(_, _, _, _)
Opened(cfg, X, c, p) ==
  IF p > Len(cfg.procs) THEN X
  ELSE Opened(cfg, IF cfg.procs[p].k = "hb" THEN Control(cfg, X, p, c, <<131>>) ELSE X, c, p + 1)
Open(cfg, X, c, ref) == IF ref THEN Quiet(X) ELSE Opened(cfg, Quiet(X), c, 1)
End(X, c) == [X EXCEPT !.cache[c] = <<>>, !.dead = @ \union {c}, !.gone = @ \union {c}]
\* the last bytes come together with the end of the connection
ReadEnd(cfg, X, c, b) == End(Read(cfg, X, c, b), c)
Closed(X, c) == End(Quiet(X), c)
\* an endpoint becomes active unless its session is in use
AddEp(X, e, s) ==
  IF e \in X.reg THEN Quiet(X)
  ELSE IF \E i \in 1..Len(X.eps) : X.eps[i].s = s THEN [Quiet(X) EXCEPT !.reg = @ \union {e}]
  ELSE [Quiet(X) EXCEPT !.reg = @ \union {e}, !.eps = Append(@, [e |-> e, s |-> s])]
DelEp(X, e) == [Quiet(X) EXCEPT !.reg = @ \ {e}, !.eps = SelectSeq(@, LAMBDA r : r.e # e)]
Enable(X, p, on) == [Quiet(X) EXCEPT !.en[p] = on]
=============================================================================

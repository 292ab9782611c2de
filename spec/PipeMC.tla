------------------------------- MODULE PipeMC --------------------------------
(***************************************************************************)
(* Every pipeline made of a few processors, switched on and off at will,   *)
(* and a few messages in both directions.  What each processor promises is *)
(* stated here by itself, against Stack.tla.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds,    \* processors to choose from
          Above,    \* how many above the codec at most
          Below,    \* how many below it at most
          Codec,    \* the codec
          Framed,   \* a framing processor at the bottom
          MaxOps,   \* stimuli
          Record
S == INSTANCE Stack

Two == {"filter", "fwd"} \* two predicates each
Row(k) == [k |-> k, n |-> IF k \in Two THEN 2 ELSE 0]
UpTo(n) == UNION {[1..m -> Kinds] : m \in 0..n}
Rows(ks) == [i \in 1..Len(ks) |-> Row(ks[i])]
Make(a, b) == [mtu |-> 64, cap |-> 64, capop |-> TRUE, name |-> <<120>>,
               procs |-> Rows(a \o <<Codec>> \o b \o (IF Framed THEN <<"frame">> ELSE <<>>)),
               conns |-> 1, eps |-> 2, enc |-> <<>>, dec |-> <<>>]
Pipes == {Make(a, b) : a \in UpTo(Above), b \in UpTo(Below)}
Has(cfg, k) == \E i \in 1..Len(cfg.procs) : cfg.procs[i].k = k
\* a message between an echo and a loopback would go round for ever; bytes tags
\* below make sense only below the codec
Sane(cfg) == /\ ~(Has(cfg, "echo") /\ Has(cfg, "loop"))
             /\ \A i \in 1..Len(cfg.procs) : cfg.procs[i].k \in {"session", "stat", "hb"} =>
                  \E j \in 1..i : cfg.procs[j].k = Codec

VARIABLES cfg, X, hist
vars == <<cfg, X, hist>>
S0 == <<0, 0, 0, 0>>
S1 == <<0, 0, 0, 1>>
Answers == {<<FALSE, FALSE>>, <<TRUE, FALSE>>, <<FALSE, TRUE>>, <<TRUE, TRUE>>}
Payloads == {<<16, 0>>, <<131>>}
Byt(b) == [k |-> "bytes", b |-> b]
Ans(Y, u, d) == [Y EXCEPT !.fup = u, !.fdn = d]
Asks == \E i \in 1..Len(cfg.procs) : cfg.procs[i].k \in Two /\ X.en[i]
Choices == IF Asks THEN Answers ELSE {<<FALSE, FALSE>>}

\* how a peer with the same pipeline in the same state puts b on the wire
RECURSIVE Wire(_, _, _)
Wire(p, b, s) ==
  IF p > Len(cfg.procs) THEN b
  ELSE LET k == cfg.procs[p].k IN
    Wire(p + 1,
         CASE k = "generic" /\ X.en[p] -> <<126>> \o S!Invert(b)
           [] k = "session" /\ X.en[p] -> s \o b
           [] k \in {"stat", "hb"}     -> <<0>> \o b
           [] k = "frame" /\ X.en[p]   -> S!U32(Len(b)) \o b
           [] OTHER                    -> b, s)

Log(op) == hist' = IF Record THEN Append(hist, op) ELSE Append(hist, 0)
Init == /\ cfg \in {c \in Pipes : Sane(c)}
        /\ X = S!Open(cfg, S!AddEp(S!AddEp(S!Fresh(cfg, 1), 1, S0), 2, S1), 1, FALSE)
        /\ hist = IF Record THEN <<[o |-> "addep", e |-> 1, s |-> S0], [o |-> "addep", e |-> 2, s |-> S1],
                                   [o |-> "open", c |-> 1, ref |-> FALSE]>> ELSE <<0, 0, 0>>
Sess == {S0, S1}
Num(s) == IF s = S0 THEN 1 ELSE 2
SendOne == \E b \in Payloads, s \in Sess, u, d \in Choices :
             /\ X' = S!Send(cfg, Ans(X, u, d), s, 1, FALSE, Byt(b), <<>>)
             /\ Log([o |-> "send", e |-> Num(s), c |-> 1, m |-> Byt(b), d |-> <<>>, fup |-> u, fdn |-> d])
ReadOne == \E b \in Payloads, s \in Sess, u, d \in Choices :
             /\ X' = S!Read(cfg, Ans(X, u, d), 1, Wire(1, b, s))
             /\ Log([o |-> "read", c |-> 1, b |-> Wire(1, b, s), fup |-> u, fdn |-> d])
Switch == \E p \in 1..Len(cfg.procs) :
            /\ cfg.procs[p].k # "frame"
            /\ X' = S!Enable(X, p, ~X.en[p])
            /\ Log([o |-> "enable", p |-> p, on |-> ~X.en[p]])
Next == /\ Len(hist) < MaxOps + 3 /\ 1 \notin X.gone /\ (SendOne \/ ReadOne \/ Switch) /\ UNCHANGED cfg
Spec == Init /\ [][Next]_vars

\* ---- promises -------------------------------------------------------------
\* what a stimulus causes that can be seen outside
Seen(Y) == <<Y.wire, Y.dlv, Y.dead>>
Idle == {"echo", "discard", "loop", "flow", "filter", "fwd", "session", "frame"}
Without(p) == [cfg EXCEPT !.procs = SubSeq(@, 1, p - 1) \o SubSeq(@, p + 1, Len(@))]
Drop1(f, p) == [q \in 1..(Len(f) - 1) |-> IF q < p THEN f[q] ELSE f[q + 1]]
Less(Y, p) == [Y EXCEPT !.en = Drop1(@, p), !.tx = Drop1(@, p), !.rx = Drop1(@, p)]
\* C17: a processor that is switched off could as well not be there
StepsAside ==
  \A p \in 1..Len(cfg.procs) : (~X.en[p] /\ cfg.procs[p].k \in Idle) =>
    \A b \in Payloads, s \in Sess, u, d \in Choices :
      /\ Seen(S!Send(cfg, Ans(X, u, d), s, 1, FALSE, Byt(b), <<>>))
           = Seen(S!Send([Without(p) EXCEPT !.mtu = @ - S!OverheadOf(cfg.procs[p].k)], Less(Ans(X, u, d), p), s, 1, FALSE, Byt(b), <<>>))
      /\ Seen(S!Read(cfg, Ans(X, u, d), 1, Wire(1, b, s)))
           = Seen(S!Read(Without(p), Less(Ans(X, u, d), p), 1, Wire(1, b, s)))

\* C16: predicates are asked in order, up to the first that says yes, and a
\* processor that is switched off asks none
InOrder ==
  \A p \in 1..Len(cfg.procs) : cfg.procs[p].k \in Two =>
    \A b \in Payloads, u, d \in Choices :
      LET Y == S!Send(cfg, Ans(X, u, d), S0, 1, FALSE, Byt(b), <<>>)
          mine == SelectSeq(Y.calls, LAMBDA r : r[1] = p /\ ~r[3])
      IN IF ~X.en[p] THEN mine = <<>>
         ELSE \A k \in 1..Len(mine) :
                /\ mine[k][2] = 1 \/ (k > 1 /\ mine[k - 1][2] = mine[k][2] - 1 /\ ~d[mine[k - 1][2]])
                /\ (mine[k][2] = 1 /\ ~d[1]) => (k < Len(mine) /\ mine[k + 1][2] = 2)
\* C16: with no predicate willing nothing passes a filter, and nothing continues
\* behind a forwarder that takes it
Blocks ==
  \A p \in 1..Len(cfg.procs) :
    (X.en[p] /\ cfg.procs[p].k \in {"filter", "discard"} /\ ~Has(cfg, "loop") /\ ~Has(cfg, "echo")) =>
      \A b \in Payloads, s \in Sess :
        LET Y == S!Read(cfg, Ans(X, <<FALSE, FALSE>>, <<FALSE, FALSE>>), 1, Wire(1, b, s)) IN Y.dlv = <<>>
Swallows ==
  \A p \in 1..Len(cfg.procs) :
    (X.en[p] /\ cfg.procs[p].k = "fwd" /\ ~Has(cfg, "loop") /\ ~Has(cfg, "echo")) =>
      \A b \in Payloads, s \in Sess :
        LET Y == S!Read(cfg, Ans(X, <<TRUE, TRUE>>, <<TRUE, TRUE>>), 1, Wire(1, b, s)) IN Y.dlv = <<>>
\* C17: an echo hands nothing up, a loopback hands nothing down
Reflects ==
  \A p \in 1..Len(cfg.procs) : X.en[p] =>
    \A b \in Payloads, s \in Sess, u, d \in Choices :
      /\ cfg.procs[p].k = "echo" => S!Read(cfg, Ans(X, u, d), 1, Wire(1, b, s)).dlv = <<>>
      /\ cfg.procs[p].k = "loop" => S!Send(cfg, Ans(X, u, d), s, 1, FALSE, Byt(b), <<>>).wire = <<>>
\* C17: an echo right above the wire returns what came
EchoReturns ==
  LET n == Len(cfg.procs) IN
  (cfg.procs[n].k = "echo" /\ X.en[n]) =>
    \A b \in Payloads, s \in Sess : Len(Wire(1, b, s)) > 0 =>
      S!Read(cfg, Ans(X, <<FALSE, FALSE>>, <<FALSE, FALSE>>), 1, Wire(1, b, s)).wire = <<<<1, Wire(1, b, s)>>>>
\* C07: through everything that steps aside a message reaches its endpoint
Through ==
  (\A p \in 1..Len(cfg.procs) : (X.en[p] <=> cfg.procs[p].k \in {Codec, "frame", "session", "stat", "hb", "flow"})) =>
    \A b \in Payloads, s \in Sess :
      LET w == S!Send(cfg, X, s, 1, FALSE, Byt(b), <<>>).wire IN
      /\ Len(w) = 1
      /\ S!Read(cfg, X, 1, w[1][2]).dlv = <<<<IF Has(cfg, "session") THEN Num(s) ELSE 1, 1, Byt(b)>>>>

Emit == (Record /\ Len(hist) = MaxOps + 3) => PrintT("T " \o ToJson([cfg |-> cfg, ops |-> hist]))
=============================================================================

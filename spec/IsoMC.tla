-------------------------------- MODULE IsoMC --------------------------------
(***************************************************************************)
(* Two stacks of Stack.tla side by side: whatever happens in which order,  *)
(* each is where its own stimuli alone would have brought it.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, Mistake, Record
S == INSTANCE Stack
Cfg == [mtu |-> 64, cap |-> 128, name |-> <<120>>, conns |-> 1, eps |-> 2, capop |-> FALSE, enc |-> <<>>, dec |-> <<>>,
        procs |-> <<[k |-> "raw", n |-> 0], [k |-> "stat", n |-> 0], [k |-> "session", n |-> 0], [k |-> "frame", n |-> 0]>>]
Us == {1, 2}
Sess(e) == <<0, 0, 0, e>>
Frame(b) == S!U32(Len(b)) \o b
Msg(u, e) == Frame(Sess(e) \o <<0>> \o <<10 * u + e>>)
Query == Frame(Sess(1) \o <<16>>)
VARIABLES X, hist, n, order
vars == <<X, hist, n, order>>
\* stimuli: [o, e, b]
Stimuli(u) == {[o |-> "addep", e |-> e, b |-> <<>>] : e \in {1, 2}} \union {[o |-> "delep", e |-> 1, b |-> <<>>]}
         \union {[o |-> "send", e |-> 1, b |-> <<u>>], [o |-> "read", e |-> 0, b |-> Query]}
         \union {[o |-> "read", e |-> 0, b |-> SubSeq(Msg(u, 2), 1, 6)], [o |-> "read", e |-> 0, b |-> SubSeq(Msg(u, 2), 7, 10)]}
         \union {[o |-> "off", e |-> 0, b |-> <<>>]}
React(Y, x) ==
  CASE x.o = "addep" -> S!AddEp(Y, x.e, Sess(x.e))
    [] x.o = "delep" -> S!DelEp(Y, x.e)
    [] x.o = "send" -> IF \E j \in 1..Len(Y.eps) : Y.eps[j].e = x.e
                       THEN S!Send(Cfg, Y, Sess(x.e), 1, FALSE, [k |-> "bytes", b |-> x.b], <<>>) ELSE S!Quiet(Y)
    [] x.o = "off" -> S!Enable(Y, 2, FALSE)
    [] OTHER -> S!Read(Cfg, Y, 1, x.b)
RECURSIVE Alone(_)
Alone(h) == IF h = <<>> THEN S!Open(Cfg, S!Fresh(Cfg, 1), 1, FALSE) ELSE React(Alone(SubSeq(h, 1, Len(h) - 1)), h[Len(h)])
Init == X = [u \in Us |-> Alone(<<>>)] /\ hist = [u \in Us |-> <<>>] /\ n = 0 /\ order = <<>>
\* what the other stack would see of it
Leak(Y, Z) ==
  CASE Mistake = "counters" -> [Y EXCEPT !.tx = Z.tx, !.rx = Z.rx]
    [] Mistake = "caches" -> [Y EXCEPT !.cache = Z.cache]
    [] Mistake = "sessions" -> [Y EXCEPT !.eps = Z.eps]
    [] Mistake = "switch" -> [Y EXCEPT !.en = Z.en]
    [] OTHER -> Y
Do(u, x) ==
  /\ n < MaxOps /\ n' = n + 1
  /\ LET Z == React(X[u], x) IN X' = [w \in Us |-> IF w = u THEN Z ELSE Leak(X[w], Z)]
  /\ hist' = [hist EXCEPT ![u] = Append(@, x)]
  /\ order' = IF Record THEN Append(order, u) ELSE order
Next == \E u \in Us : \E x \in Stimuli(u) : Do(u, x)
Spec == Init /\ [][Next]_vars
NoInfluence == \A u \in Us : X[u] = Alone(hist[u])
Emit == IF Record /\ n = MaxOps /\ Len(hist[1]) > 1 /\ Len(hist[2]) > 1
        THEN PrintT("T " \o ToJson([hist |-> hist, order |-> order])) ELSE TRUE
=============================================================================

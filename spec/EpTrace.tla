------------------------------- MODULE EpTrace -------------------------------
(***************************************************************************)
(* C10 on a recorded run: endpoints come and go while messages flow in     *)
(* both directions and writes may be held up (gates).                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
S == INSTANCE Stack
Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)
VARIABLES tid, i, run, ph, ses, q, pend, hands, old, held, fed
vars == <<tid, i, run, ph, ses, q, pend, hands, old, held, fed>>
\* ph: per endpoint "out" "adding" "in" "removing", "idle" (another one had the session); q: what is in its channel
\* or just put, as <<connection, bytes>>; pend: puts that have not returned;
\* old: removed incarnations that may still send their one message;
\* hands: messages an old incarnation must be holding, as later ones were sent;
\* held: per connection the writes that have begun and not ended: <<endpoint, bytes, by the present incarnation>>
\* fed: per connection [s, m, may, drop]
T == Traces[tid]
Cfg == T.cfg
Ev == T.ev[i]
Init == /\ tid \in 1..N /\ i = 1 /\ TLCSet(tid, 1) /\ run = FALSE
        /\ LET E == 1..Traces[tid].cfg.eps C == 1..Traces[tid].cfg.conns IN
           /\ ph = [e \in E |-> "out"] /\ ses = [e \in E |-> <<>>] /\ q = [e \in E |-> <<>>]
           /\ pend = [e \in E |-> 0] /\ hands = [e \in E |-> {}] /\ old = [e \in E |-> 0]
           /\ held = [c \in C |-> <<>>] /\ fed = [c \in C |-> <<>>]
Es == DOMAIN ph
X0 == [S!Fresh(Cfg, Cfg.conns) EXCEPT !.en = [p \in 1..Len(Cfg.procs) |-> Cfg.procs[p].k # "lb"]]
Bytes(e, c, m, d) == S!Send(Cfg, X0, ses[e], c, FALSE, m, d).wire[1][2]
\* session and message of what arrives: let endpoints with the sessions of the run take it
Sessions == {T.ev[k].s : k \in {j \in 1..Len(T.ev) : T.ev[j].o = "add"}}
Arrives(b) ==
  LET s == IF \E p \in 1..Len(Cfg.procs) : Cfg.procs[p].k = "session" THEN S!SessionOf(Cfg, b) ELSE <<0, 0, 0, 0>>
      Y == S!Read(Cfg, [X0 EXCEPT !.eps = <<[e |-> 1, s |-> s]>>], 1, b)
  IN [s |-> s, m |-> Y.dlv[1][3]]
Of(s) == {e \in Es : ph[e] \notin {"out", "idle"} /\ ses[e] = s}
Remove(seq, j) == SubSeq(seq, 1, j - 1) \o SubSeq(seq, j + 1, Len(seq))
\* changes of the endpoints of a session touch what is under way for it
Touch(f, s, F(_)) == [c \in DOMAIN f |-> [k \in 1..Len(f[c]) |-> IF f[c][k].s = s THEN F(f[c][k]) ELSE f[c][k]]]

\* endpoint e begins to send <<c, b>>
Sends(e, c, b, byOld) ==
  \/ /\ byOld /\ <<c, b>> \in hands[e]
     /\ hands' = [hands EXCEPT ![e] = @ \ {<<c, b>>}]
     /\ UNCHANGED <<q, old>>
  \/ \E j \in 1..Len(q[e]) :
       /\ q[e][j] = <<c, b>>
       \* those before it are in the hands of removed incarnations
       /\ ~byOld => ph[e] \notin {"out", "idle"}
       /\ old[e] >= (j - 1) + (IF byOld THEN 1 ELSE 0)
       /\ old' = [old EXCEPT ![e] = @ - (j - 1) - (IF byOld THEN 1 ELSE 0)]
       /\ hands' = [hands EXCEPT ![e] = @ \union {q[e][k] : k \in 1..(j - 1)}]
       /\ q' = [q EXCEPT ![e] = SubSeq(@, j + 1, Len(@))]
Begins(c, b) == /\ run
                /\ \E e \in Es, byOld \in {FALSE, TRUE} :
                     /\ Sends(e, c, b, byOld)
                     /\ held' = IF Ev.o = "wbeg" THEN [held EXCEPT ![c] = Append(@, <<e, b, ~byOld>>)] ELSE held
                /\ UNCHANGED <<run, ph, ses, pend, fed>>

Same == UNCHANGED <<run, ph, ses, q, pend, hands, old, held, fed>>
Step ==
  LET c == Ev.c
      e == Ev.e
  IN
  CASE Ev.o = "run" ->
         /\ run' = TRUE
         /\ UNCHANGED <<ph, ses, q, pend, hands, old, held, fed>>
    [] Ev.o = "ran" ->
         /\ run' = TRUE
         /\ ph' = [x \in Es |-> IF ph[x] = "adding" THEN "in" ELSE ph[x]]
         /\ UNCHANGED <<ses, q, pend, hands, old, held, fed>>
    [] Ev.o = "make" -> /\ ses' = [ses EXCEPT ![e] = Ev.s]
                        /\ UNCHANGED <<run, ph, q, pend, hands, old, held, fed>>
    [] Ev.o = "add" ->
         /\ ph[e] = "out"
         /\ ph' = [ph EXCEPT ![e] = IF Of(Ev.s) = {} THEN "adding" ELSE "idle"] /\ ses' = [ses EXCEPT ![e] = Ev.s]
         /\ fed' = IF Of(Ev.s) # {} THEN fed ELSE Touch(fed, Ev.s, LAMBDA r : [r EXCEPT !.may = @ \union {e}])
         /\ UNCHANGED <<run, q, pend, hands, old, held>>
    [] Ev.o = "added" ->
         /\ ph' = [ph EXCEPT ![e] = IF @ = "idle" THEN "idle" ELSE IF run THEN "in" ELSE "adding"]
         /\ UNCHANGED <<run, ses, q, pend, hands, old, held, fed>>
    [] Ev.o = "del" ->
         /\ ph' = [ph EXCEPT ![e] = IF @ = "idle" THEN "idle" ELSE "removing"]
         /\ fed' = IF ph[e] = "idle" THEN fed ELSE Touch(fed, ses[e], LAMBDA r : [r EXCEPT !.drop = TRUE])
         /\ UNCHANGED <<run, ses, q, pend, hands, old, held>>
    [] Ev.o = "deleted" ->
         /\ ph' = [ph EXCEPT ![e] = "out"]
         \* if it is writing that is its last message
         /\ old' = [old EXCEPT ![e] = IF run /\ ph[e] # "idle" /\ {k \in DOMAIN held : \E n \in 1..Len(held[k]) : held[k][n][1] = e /\ held[k][n][3]} = {}
                                      THEN @ + 1 ELSE @]
         /\ held' = [k \in DOMAIN held |-> [n \in 1..Len(held[k]) |->
                       IF held[k][n][1] = e THEN <<e, held[k][n][2], FALSE>> ELSE held[k][n]]]
         /\ UNCHANGED <<run, ses, q, pend, hands, fed>>
    [] Ev.o = "put" ->
         /\ q' = [q EXCEPT ![e] = Append(@, <<c, Bytes(e, c, Ev.m, Ev.d)>>)]
         /\ pend' = [pend EXCEPT ![e] = @ + 1]
         /\ UNCHANGED <<run, ph, ses, hands, old, held, fed>>
    [] Ev.o = "putd" ->
         /\ pend' = [pend EXCEPT ![e] = @ - 1]
         /\ UNCHANGED <<run, ph, ses, q, hands, old, held, fed>>
    [] Ev.o = "wbeg" -> Begins(c, Ev.b)
    [] Ev.o = "wire" ->
         \/ \E k \in 1..Len(held[c]) :
              /\ held[c][k][2] = Ev.b
              /\ held' = [held EXCEPT ![c] = Remove(@, k)]
              /\ UNCHANGED <<run, ph, ses, q, pend, hands, old, fed>>
         \/ Begins(c, Ev.b)
    [] Ev.o = "rx" ->
         \E a \in {Arrives(Ev.b)} :
           /\ fed' = [fed EXCEPT ![c] = Append(@, [s |-> a.s, m |-> a.m, may |-> Of(a.s),
                        drop |-> {x \in Of(a.s) : ph[x] = "in"} = {}])]
           /\ UNCHANGED <<run, ph, ses, q, pend, hands, old, held>>
    [] Ev.o = "dlv" ->
         \E j \in 1..Len(fed[c]) :
           /\ fed[c][j].m = Ev.m /\ fed[c][j].s = ses[e] /\ e \in fed[c][j].may
           \* nothing that came earlier can still come to it
           /\ LET less(r) == IF r.s = ses[e] THEN [r EXCEPT !.may = @ \ {e}] ELSE r IN
              /\ {k \in 1..(j - 1) : ~less(fed[c][k]).drop /\ less(fed[c][k]).may = {}} = {}
              /\ fed' = [fed EXCEPT ![c] = [k \in 1..(Len(@) - 1) |-> IF k < j THEN less(@[k]) ELSE @[k + 1]]]
           /\ UNCHANGED <<run, ph, ses, q, pend, hands, old, held>>
    [] Ev.o = "quiet" ->
         /\ {x \in Es : hands[x] # {}} = {}
         /\ {x \in Es : /\ ph[x] = "in" /\ q[x] # <<>>
                        /\ {k \in DOMAIN held : \E n \in 1..Len(held[k]) : held[k][n][1] = x} = {}} = {}
         /\ {k \in DOMAIN fed : \E n \in 1..Len(fed[k]) : ~fed[k][n].drop} = {}
         /\ fed' = [k \in DOMAIN fed |-> <<>>]
         \* a removed incarnation that is not writing is gone
         /\ old' = [x \in Es |-> 0]
         /\ UNCHANGED <<run, ph, ses, q, pend, hands, held>>
    [] Ev.o = "left" -> \* so many are in the channel
         /\ Len(q[e]) >= Ev.n /\ Len(q[e]) <= Ev.n + pend[e]
         /\ Same
    [] Ev.o = "ref" -> FALSE
    [] OTHER -> Same

Next == /\ i <= Len(T.ev)
        /\ Step
        /\ i' = i + 1 /\ tid' = tid
        /\ TLCSet(tid, IF TLCGet(tid) > i' THEN TLCGet(tid) ELSE i')
Spec == Init /\ [][Next]_vars
Accepted ==
  LET bad == {t \in 1..N : TLCGet(t) # Len(Traces[t].ev) + 1} IN
  \A t \in bad : PrintT("REJECT " \o ToString(t) \o " " \o ToString(TLCGet(t)))
AllAccepted == Accepted /\ PrintT("VALIDATED " \o ToString(N))
=============================================================================

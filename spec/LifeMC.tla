-------------------------------- MODULE LifeMC -------------------------------
(***************************************************************************)
(* The life of a server transport: every run has a goroutine that listens, *)
(* accepts, saves and hands over connections; Stop may come at any moment; *)
(* callers wait for the next connection.  Runs are numbered.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Runs, Dials, Calls, Cap,
          Mistake, \* "none", "late" (listens although stopped), "leak" (a connection accepted during Stop is kept),
                   \* "stuck" (the hand-over does not end with the run), "hold" (Stop keeps the listener),
                   \* "shared" (one hand-over channel for all runs)
          Record
VARIABLES up, run, lis, done, list, chan, acc, conns, dials, nx, calls, got, clash, hist
vars == <<up, run, lis, done, list, chan, acc, conns, dials, nx, calls, got, clash, hist>>
\* lis: the run whose listener is open; acc: run -> [pc, c]; conns: [run, closed]; nx: a waiting call [on, run]
Init == /\ up = FALSE /\ run = 0 /\ lis = 0 /\ done = {} /\ list = {} /\ chan = [g \in 1..Runs |-> <<>>]
        /\ acc = [g \in 1..Runs |-> [pc |-> "none", c |-> 0]] /\ conns = <<>> /\ dials = 0
        /\ nx = [on |-> FALSE, run |-> 0] /\ calls = 0 /\ got = {} /\ clash = FALSE /\ hist = <<>>
Rec(e) == hist' = IF Record THEN Append(hist, e) ELSE hist
Ch(g) == IF Mistake = "shared" THEN 1 ELSE g
Run == /\ ~up /\ run < Runs
       /\ up' = TRUE /\ run' = run + 1 /\ list' = {}
       /\ acc' = [acc EXCEPT ![run + 1].pc = "listen"] /\ Rec("run")
       /\ UNCHANGED <<lis, done, chan, conns, dials, nx, calls, got, clash>>
Stop == /\ up /\ up' = FALSE /\ done' = done \union {run}
        /\ lis' = IF lis = run /\ Mistake # "hold" THEN 0 ELSE lis
        /\ conns' = [c \in DOMAIN conns |-> IF c \in list THEN [conns[c] EXCEPT !.closed = TRUE] ELSE conns[c]]
        /\ Rec("stop")
        /\ UNCHANGED <<run, list, chan, acc, dials, nx, calls, got, clash>>
Listen(g) == /\ acc[g].pc = "listen"
             /\ IF g \in done /\ Mistake # "late" THEN acc' = [acc EXCEPT ![g].pc = "end"] /\ UNCHANGED <<lis, clash>>
                ELSE /\ clash' = (clash \/ lis # 0) /\ lis' = g
                     /\ acc' = [acc EXCEPT ![g].pc = "accept"]
             /\ UNCHANGED <<up, run, done, list, chan, conns, dials, nx, calls, got, hist>>
Accept(g) == /\ acc[g].pc = "accept"
             /\ IF lis # g THEN acc' = [acc EXCEPT ![g].pc = "end"] /\ UNCHANGED <<conns, dials, hist>>
                ELSE /\ dials < Dials /\ dials' = dials + 1 /\ Rec("dial")
                     /\ conns' = Append(conns, [run |-> g, closed |-> FALSE])
                     /\ acc' = [acc EXCEPT ![g] = [pc |-> "save", c |-> Len(conns) + 1]]
             /\ UNCHANGED <<up, run, lis, done, list, chan, nx, calls, got, clash>>
Save(g) == /\ acc[g].pc = "save"
           /\ IF g \in done /\ Mistake # "leak"
              THEN conns' = [conns EXCEPT ![acc[g].c].closed = TRUE] /\ acc' = [acc EXCEPT ![g].pc = "end"] /\ UNCHANGED list
              ELSE list' = list \union {acc[g].c} /\ acc' = [acc EXCEPT ![g].pc = "offer"] /\ UNCHANGED conns
           /\ UNCHANGED <<up, run, lis, done, chan, dials, nx, calls, got, clash, hist>>
Offer(g) == /\ acc[g].pc = "offer"
            /\ \/ /\ Len(chan[Ch(g)]) < Cap
                  /\ chan' = [chan EXCEPT ![Ch(g)] = Append(@, acc[g].c)] /\ acc' = [acc EXCEPT ![g].pc = "accept"]
               \/ /\ g \in done /\ Mistake # "stuck"
                  /\ acc' = [acc EXCEPT ![g].pc = "end"] /\ UNCHANGED chan
            /\ UNCHANGED <<up, run, lis, done, list, conns, dials, nx, calls, got, clash, hist>>
Call == /\ ~nx.on /\ run > 0 /\ calls < Calls /\ calls' = calls + 1
        /\ nx' = [on |-> TRUE, run |-> run] /\ Rec("next")
        /\ UNCHANGED <<up, run, lis, done, list, chan, acc, conns, dials, got, clash>>
Return == /\ nx.on
          /\ \/ /\ chan[Ch(nx.run)] # <<>>
                /\ chan' = [chan EXCEPT ![Ch(nx.run)] = Tail(@)]
                /\ got' = IF nx.run \in done THEN got ELSE got \union {[c |-> Head(chan[Ch(nx.run)]), for |-> nx.run]}
             \/ nx.run \in done /\ UNCHANGED <<chan, got>>
          /\ nx' = [on |-> FALSE, run |-> 0]
          /\ UNCHANGED <<up, run, lis, done, list, acc, conns, dials, calls, clash, hist>>
Inner == \/ \E g \in 1..Runs : Listen(g) \/ Accept(g) \/ Save(g) \/ Offer(g)
         \/ Return
Next == Run \/ Stop \/ Call \/ Inner
Spec == Init /\ [][Next]_vars /\ WF_vars(Return)
             /\ \A g \in 1..Runs : WF_vars(Listen(g)) /\ WF_vars(Accept(g)) /\ WF_vars(Save(g)) /\ WF_vars(Offer(g))

Rest == {g \in 1..Runs : acc[g].pc \notin {"none", "end"}} = {}
\* stopped and at rest: the address is free and every connection closed
AddressFree == (~up /\ Rest) => lis = 0
AllClosed == (~up /\ Rest) => {c \in DOMAIN conns : ~conns[c].closed} = {}
NoClash == ~clash
\* who waits for a connection gets one of the run that was on when he asked
OfThisRun == \A x \in got : conns[x.c].run = x.for
Once == \A x, y \in got : x.c = y.c => x = y
ComesToRest == []((~up) => <>(up \/ (Rest /\ ~nx.on)))
Emit == (Record /\ run = Runs /\ ~up /\ Rest /\ ~nx.on /\ calls = Calls) => PrintT("T " \o ToJson(hist))
=============================================================================

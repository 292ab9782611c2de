------------------------------- MODULE RetryMC -------------------------------
(***************************************************************************)
(* A client transport: it dials at once and then once per interval until   *)
(* it is connected, stopped, or its budget is used up.  Time is in half    *)
(* intervals; the server comes and goes between the attempts.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Budget, Runs, MaxTime, MaxToggles,
          Mistake, \* "none", "again" (goes on after a success), "keep" (a restart keeps what was used),
                   \* "late" (waits before the first attempt), "over" (one attempt more), "deaf" (stop does not end it)
          Record
VARIABLES now, st, due, made, on, conns, tries, toggles, runs, hist
vars == <<now, st, due, made, on, conns, tries, toggles, runs, hist>>
\* st: idle, try, conn, over; tries: attempts of this run with their times, counted from its start
Init == /\ now = 0 /\ st = "idle" /\ due = 0 /\ made = 0 /\ on = FALSE /\ conns = 0
        /\ tries = <<>> /\ toggles = 0 /\ runs = 0 /\ hist = <<>>
Rec(e) == hist' = IF Record THEN Append(hist, <<now, e>>) ELSE hist
Even == now % 2 = 0
Due == st = "try" /\ due = now
Run == /\ st \in {"idle", "over"} /\ runs < Runs /\ Even
       /\ st' = "try" /\ due' = IF Mistake = "late" THEN now + 2 ELSE now
       /\ made' = IF Mistake = "keep" THEN made ELSE 0
       /\ tries' = <<>> /\ conns' = 0 /\ runs' = runs + 1 /\ Rec("run")
       /\ UNCHANGED <<now, on, toggles>>
Stop == /\ st # "idle" /\ ~Even
        /\ st' = (IF Mistake = "deaf" /\ st = "try" THEN "try" ELSE "idle") /\ Rec("stop")
        /\ UNCHANGED <<now, due, made, on, conns, tries, toggles, runs>>
Toggle == /\ ~Even /\ toggles < MaxToggles
          /\ on' = ~on /\ toggles' = toggles + 1 /\ Rec(IF on THEN "off" ELSE "on")
          /\ UNCHANGED <<now, st, due, made, conns, tries, runs>>
Limit == IF Mistake = "over" THEN Budget + 1 ELSE Budget
Attempt == /\ Due
           /\ IF made >= Limit THEN st' = "over" /\ UNCHANGED <<made, tries, conns, due>>
              ELSE /\ tries' = Append(tries, now) /\ made' = made + 1
                   /\ conns' = IF on THEN conns + 1 ELSE conns
                   /\ st' = IF on /\ Mistake # "again" THEN "conn" ELSE "try"
                   /\ due' = now + 2
           /\ UNCHANGED <<now, on, toggles, runs, hist>>
Tick == ~Due /\ now < MaxTime /\ now' = now + 1 /\ UNCHANGED <<st, due, made, on, conns, tries, toggles, runs, hist>>
Next == Run \/ Stop \/ Toggle \/ Attempt \/ Tick
Spec == Init /\ [][Next]_vars

WithinBudget == Len(tries) <= Budget
Regular == \A k \in 1..(Len(tries) - 1) : tries[k + 1] = tries[k] + 2
AtMostOne == conns <= 1
\* it does not give up before the budget is used, nor wait at the start
FullBudget == st = "over" => Len(tries) = Budget
AtOnce == (st = "try" /\ tries = <<>> /\ Budget > 0) => due = now
NoneAfterStop == [][st = "idle" => UNCHANGED tries \/ tries' = <<>>]_vars
Emit == (Record /\ now = MaxTime /\ ~Due) => PrintT("T " \o ToJson(hist))
=============================================================================

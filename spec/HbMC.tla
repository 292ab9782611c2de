-------------------------------- MODULE HbMC ---------------------------------
(***************************************************************************)
(* The heartbeat monitor: a table of last arrivals, looked at once per     *)
(* second (4 ticks).  One connection; heartbeats, other data and the end   *)
(* of the connection at any tick.  Every behaviour can be printed as a     *)
(* script with times.                                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Timeout,   \* ticks
          Phase,     \* ticks between a look at the table and the new connection
          Closing,   \* close on loss
          Horizon,   \* ticks
          MaxEvents, \* heartbeats, data and ends
          Mistake,   \* "none", "rare" (looks every other second), "early", "again" (stays in
                     \* the table after a report), "dead" (reports closed ones), "data" (all data counts)
          Record
VARIABLES now, open, last, inTable, lost, heard, reports, hist, turn
vars == <<now, open, last, inTable, lost, heard, reports, hist, turn>>
\* inTable: the connection is monitored; heard: last heartbeat (or the start);
\* lost: this lapse was reported; reports: times of all reports
Init == /\ now = 0 /\ open = TRUE /\ last = 0 /\ inTable = TRUE /\ lost = FALSE
        /\ heard = 0 /\ reports = <<>> /\ hist = <<>> /\ turn = "look"
Log(x) == hist' = Append(hist, <<x, now>>)
LookTime == (now + Phase) % (IF Mistake = "rare" THEN 8 ELSE 4) = 0
Expired == now - last >= Timeout - (IF Mistake = "early" THEN 1 ELSE 0)
Look == /\ turn = "look" /\ turn' = "env"
        /\ IF ~LookTime \/ ~inTable THEN UNCHANGED <<open, inTable, lost, reports>>
           ELSE IF ~open /\ Mistake # "dead" THEN inTable' = FALSE /\ UNCHANGED <<open, lost, reports>>
           ELSE IF Expired
                THEN /\ inTable' = (Mistake = "again") /\ lost' = TRUE /\ reports' = Append(reports, now)
                     /\ open' = (open /\ ~Closing)
                ELSE UNCHANGED <<open, inTable, lost, reports>>
        /\ UNCHANGED <<now, last, heard, hist>>
More == Len(hist) < MaxEvents
Beat == /\ turn = "env" /\ open /\ More /\ Log("beat")
        /\ last' = now /\ inTable' = TRUE /\ lost' = FALSE /\ heard' = now
        /\ turn' = "tick" /\ UNCHANGED <<now, open, reports>>
Data == /\ turn = "env" /\ open /\ More /\ Log("data")
        /\ last' = (IF Mistake = "data" THEN now ELSE last)
        /\ turn' = "tick" /\ UNCHANGED <<now, open, inTable, lost, heard, reports>>
End == /\ turn = "env" /\ open /\ More /\ Log("end") /\ open' = FALSE
       /\ turn' = "tick" /\ UNCHANGED <<now, last, inTable, lost, heard, reports>>
Tick == /\ turn \in {"env", "tick"} /\ now < Horizon /\ now' = now + 1 /\ turn' = "look"
        /\ UNCHANGED <<open, last, inTable, lost, heard, reports, hist>>
Next == Look \/ Beat \/ Data \/ End \/ Tick
Spec == Init /\ [][Next]_vars

\* never without a lapse
OnlyReal == [][reports' # reports => (open /\ now - heard >= Timeout)]_vars
\* in time
InTime == (open /\ ~lost) => now - heard <= Timeout + 4
\* once per lapse
Once == \A k \in 1..(Len(reports) - 1) : reports[k + 1] - reports[k] >= Timeout
CloseIff == [][(open /\ ~open') => \/ hist' # hist
                                   \/ (Closing /\ reports' # reports)]_vars
Emit == (Record /\ now = Horizon /\ turn = "env") => PrintT("T " \o ToJson(hist))
=============================================================================

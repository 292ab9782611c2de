-------------------------------- MODULE ConnMC -------------------------------
(***************************************************************************)
(* The life of one connection in the lower deck: the accept loop announces *)
(* it, the reader and the writers of several endpoints find it broken at   *)
(* any time, the application or its transport closes it at any time, also  *)
(* from within the handler of its announcement.                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Writers, MaxEnv,
          Mistake, \* "none", "each" (everybody reports), "early" (known before it is announced),
                   \* "wasopen" (whoever closes it reports it), "never" (writers only close)
          Record
VARIABLES acc, rd, wr, known, isClosed, broken, ended, events, env, hist
vars == <<acc, rd, wr, known, isClosed, broken, ended, events, env, hist>>
\* acc: accept loop; rd: reader; wr: writers; broken: writes fail; ended: reads fail
Init == /\ acc = "have" /\ rd = "none" /\ wr = [w \in Writers |-> "idle"]
        /\ known = (Mistake = "early") /\ isClosed = FALSE /\ broken = FALSE /\ ended = FALSE
        /\ events = <<>> /\ env = 0 /\ hist = <<>>
Log(x) == /\ env < MaxEnv /\ env' = env + 1
          /\ hist' = IF Record THEN Append(hist, <<x, acc>>) ELSE hist
Same == UNCHANGED <<env, hist>>
\* the environment
End == /\ Log("end") /\ ~ended /\ ended' = TRUE /\ UNCHANGED <<acc, rd, wr, known, isClosed, broken, events>>
Break == /\ Log("break") /\ ~broken /\ broken' = TRUE /\ UNCHANGED <<acc, rd, wr, known, isClosed, ended, events>>
AppClose == /\ Log("close") /\ ~isClosed /\ isClosed' = TRUE /\ UNCHANGED <<acc, rd, wr, known, broken, ended, events>>
\* endpoints write as soon as they know of it, which may be in the handler
SendIt(w) == /\ wr[w] = "idle" /\ Log("send") /\ acc # "have"
             /\ wr' = [wr EXCEPT ![w] = "write"] /\ UNCHANGED <<acc, rd, known, isClosed, broken, ended, events>>
\* the accept loop
Announce == /\ acc = "have" /\ acc' = "handlers" \* the first handlers learn of it,
            /\ UNCHANGED <<rd, wr, known, isClosed, broken, ended, events>> /\ Same
Announced == /\ acc = "handlers" /\ acc' = "told" /\ events' = Append(events, "new") \* the last one
            /\ UNCHANGED <<rd, wr, known, isClosed, broken, ended>> /\ Same
Register == /\ acc = "told" /\ acc' = "done" /\ known' = IF Mistake = "early" THEN known ELSE TRUE
            /\ rd' = "read" /\ UNCHANGED <<wr, isClosed, broken, ended, events>> /\ Same
\* whoever finds it broken: close, look and forget, report
Found == IF Mistake = "wasopen" THEN ~isClosed ELSE TRUE
Read == /\ rd = "read" /\ (ended \/ isClosed)
        /\ IF Found THEN rd' = "look" ELSE rd' = "gone"
        /\ isClosed' = TRUE /\ UNCHANGED <<acc, wr, known, broken, ended, events>> /\ Same
ReadLook == /\ rd = "look"
            /\ rd' = IF known \/ Mistake \in {"each", "wasopen"} THEN "report" ELSE "gone"
            /\ known' = FALSE
            /\ UNCHANGED <<acc, wr, isClosed, broken, ended, events>> /\ Same
ReadReport == /\ rd = "report" /\ rd' = "gone" /\ events' = Append(events, "closed")
              /\ UNCHANGED <<acc, wr, known, isClosed, broken, ended>> /\ Same
Write(w) == /\ wr[w] = "write"
            /\ IF broken \/ isClosed
               THEN /\ isClosed' = TRUE
                    /\ wr' = [wr EXCEPT ![w] = IF Found /\ Mistake # "never" THEN "look" ELSE "idle"]
               ELSE wr' = [wr EXCEPT ![w] = "idle"] /\ UNCHANGED isClosed
            /\ UNCHANGED <<acc, rd, known, broken, ended, events>> /\ Same
WriteLook(w) == /\ wr[w] = "look"
                /\ wr' = [wr EXCEPT ![w] = IF known \/ Mistake \in {"each", "wasopen"} THEN "report" ELSE "idle"]
                /\ known' = FALSE
                /\ UNCHANGED <<acc, rd, isClosed, broken, ended, events>> /\ Same
WriteReport(w) == /\ wr[w] = "report" /\ wr' = [wr EXCEPT ![w] = "idle"]
                  /\ events' = Append(events, "closed")
                  /\ UNCHANGED <<acc, rd, known, isClosed, broken, ended>> /\ Same
Steps == \/ Announce \/ Announced \/ Register \/ Read \/ ReadLook \/ ReadReport
         \/ \E w \in Writers : Write(w) \/ WriteLook(w) \/ WriteReport(w)
Next == End \/ Break \/ AppClose \/ (\E w \in Writers : SendIt(w)) \/ Steps
Spec == Init /\ [][Next]_vars /\ WF_vars(Steps)

Count(x) == Cardinality({k \in 1..Len(events) : events[k] = x})
OnceEach == Count("new") <= 1 /\ Count("closed") <= 1
NewFirst == events # <<>> => events[1] = "new"
OnlyWithCause == Count("closed") > 0 => isClosed /\ (ended \/ broken \/ (\E k \in 1..Len(hist) : hist[k][1] = "close") \/ ~Record)
Reported == (ended \/ isClosed) ~> (Count("closed") = 1)
Still == ~ENABLED Steps
Emit == (Record /\ Still /\ env = MaxEnv) => PrintT("T " \o ToJson(hist))
=============================================================================

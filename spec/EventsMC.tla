------------------------------- MODULE EventsMC ------------------------------
(***************************************************************************)
(* Publication of events while the set of endpoints changes: threads add,  *)
(* remove and publish, also from within handlers (nested).  A change is    *)
(* made and the list of recipients is taken in one step, then the          *)
(* recipients are told one after the other.                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Eps, Threads, MaxOps, MaxDepth,
          Mistake, \* "none", "live" (walks the list as it is), "own" (told of its own addition),
                   \* "silent" (not told of its own removal), "always" (publishes without a change)
          Record
VARIABLES reg, stack, ops, count, hist
vars == <<reg, stack, ops, count, hist>>
\* stack: thread -> sequence of running operations (ids), innermost last
\* ops: id -> [k, e, list, at, must, may, got, over]
Init == /\ reg = <<>> /\ stack = [t \in Threads |-> <<>>] /\ ops = <<>> /\ count = 0 /\ hist = <<>>
Has(e) == \E k \in 1..Len(reg) : reg[k] = e
Without(e) == SelectSeq(reg, LAMBDA x : x # e)
Set(s) == {s[k] : k \in 1..Len(s)}
\* somebody is about to leave (x) or has come (y)
Upd(o, leave, come) == [k \in DOMAIN o |-> IF o[k].over THEN o[k]
                          ELSE [o[k] EXCEPT !.must = @ \ leave, !.may = @ \union come]]
InHandler(t) == IF stack[t] = <<>> THEN 0
                ELSE LET o == ops[stack[t][Len(stack[t])]] IN IF o.at = 0 THEN 0 ELSE o.list[o.at]
Begin(t, k, e) ==
  /\ count < MaxOps /\ Len(stack[t]) < MaxDepth
  /\ stack[t] # <<>> => InHandler(t) # 0 \* nested: from the handler that is running
  /\ count' = count + 1
  /\ LET eff == CASE k = "add" -> ~Has(e) [] k = "del" -> Has(e) [] OTHER -> TRUE
         to == CASE k = "add" -> IF Mistake = "own" THEN Append(reg, e) ELSE reg
                 [] k = "del" -> IF Mistake = "silent" THEN Without(e) ELSE reg
                 [] OTHER -> reg
         list == IF eff THEN to ELSE IF Mistake = "always" THEN reg ELSE <<>>
         new == [k |-> k, e |-> e, eff |-> eff, list |-> list, at |-> 0, must |-> IF eff THEN Set(reg) ELSE {},
                 may |-> IF eff THEN Set(reg) ELSE {}, got |-> <<>>, over |-> FALSE]
     IN /\ reg' = IF ~eff THEN reg ELSE CASE k = "add" -> Append(reg, e) [] k = "del" -> Without(e) [] OTHER -> reg
        /\ ops' = Append(Upd(ops, IF k = "del" THEN {e} ELSE {}, IF k = "add" THEN {e} ELSE {}), new)
        /\ stack' = [stack EXCEPT ![t] = Append(@, Len(ops) + 1)]
        /\ hist' = IF Record THEN Append(hist, <<t, Len(stack[t]), k, e, InHandler(t)>>) ELSE hist
Top(t) == stack[t][Len(stack[t])]
List(o) == IF Mistake = "live" THEN reg ELSE o.list
Tell(t) == /\ stack[t] # <<>>
           /\ LET id == Top(t) o == ops[id] IN
              /\ o.eff \/ Mistake = "always"
              /\ o.at < Len(List(o))
              /\ ops' = [ops EXCEPT ![id].at = @ + 1, ![id].got = Append(@, List(o)[o.at + 1]),
                                    ![id].list = IF Mistake = "live" THEN reg ELSE @]
           /\ UNCHANGED <<reg, stack, count, hist>>
Return(t) == /\ stack[t] # <<>>
             /\ LET id == Top(t) o == ops[id] IN
                /\ ~(o.eff \/ Mistake = "always") \/ o.at >= Len(List(o))
                /\ ops' = [ops EXCEPT ![id].over = TRUE]
             /\ stack' = [stack EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
             /\ UNCHANGED <<reg, count, hist>>
Next == \E t \in Threads : \/ \E e \in Eps : Begin(t, "add", e) \/ Begin(t, "del", e)
                           \/ Begin(t, "pub", 0)
                           \/ Tell(t) \/ Return(t)
Spec == Init /\ [][Next]_vars

\* the rules EventsTrace.tla applies to recorded runs
NoneTwice == \A k \in DOMAIN ops : \A i, j \in 1..Len(ops[k].got) : i # j => ops[k].got[i] # ops[k].got[j]
OnlyThose == \A k \in DOMAIN ops : Set(ops[k].got) \subseteq ops[k].may
AllTold == \A k \in DOMAIN ops : ops[k].over => ops[k].must \subseteq Set(ops[k].got)
OwnRemoval == \A k \in DOMAIN ops : (ops[k].over /\ ops[k].k = "del" /\ ops[k].eff) => ops[k].e \in Set(ops[k].got)
OwnAddition == \A k \in DOMAIN ops : ops[k].k = "add" => ops[k].e \notin Set(ops[k].got)
Quiet == \A k \in DOMAIN ops : ~ops[k].eff => ops[k].got = <<>>
NoDoubles == \A i, j \in 1..Len(reg) : i # j => reg[i] # reg[j]
Emit == (Record /\ count = MaxOps /\ \A t \in Threads : stack[t] = <<>>) => PrintT("T " \o ToJson(hist))
=============================================================================

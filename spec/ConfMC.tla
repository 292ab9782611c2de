------------------------------- MODULE ConfMC -------------------------------
(***************************************************************************)
(* Settings of several components, each of which keeps a table of its own  *)
(* and looks its option up when it starts.  log is what was asked for;     *)
(* what the components go by must agree with Conf.tla on it.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Comps, MaxSets, Mistake, Record
C == INSTANCE Conf
Names == {"x", "y"}
Vals == {[t |-> "int", v |-> 1], [t |-> "int", v |-> 2], [t |-> "text", v |-> 1], [t |-> "nil", v |-> 0]}
Default == 9
VARIABLES log, table, eff, hist
vars == <<log, table, eff, hist>>
None == [t |-> "none", v |-> 0]
Init == /\ log = <<>> /\ table = [c \in Comps |-> [n \in Names |-> None]]
        /\ eff = [c \in Comps |-> 0] /\ hist = <<>>
Put(c, n, x) ==
  CASE Mistake = "first" -> IF table[c][n] = None THEN [table EXCEPT ![c][n] = x] ELSE table
    [] Mistake = "sticky" -> IF x.t = "int" \/ table[c][n] = None THEN [table EXCEPT ![c][n] = x] ELSE table
    [] Mistake = "shared" -> [d \in Comps |-> [table[d] EXCEPT ![n] = x]]
    [] Mistake = "anyname" -> [table EXCEPT ![c] = [m \in Names |-> x]]
    [] OTHER -> [table EXCEPT ![c][n] = x]
Set(c, n, x) ==
  /\ Len(log) < MaxSets /\ eff[c] = 0
  /\ log' = Append(log, [c |-> c, n |-> n, t |-> x.t, v |-> x.v])
  /\ table' = Put(c, n, x) /\ UNCHANGED eff
Start(c) ==
  /\ eff[c] = 0
  /\ eff' = [eff EXCEPT ![c] = LET x == table[c]["x"] IN IF x.t = "int" THEN x.v ELSE Default]
  /\ UNCHANGED <<log, table>>
Next == /\ \/ \E c \in Comps, n \in Names, x \in Vals : Set(c, n, x)
           \/ \E c \in Comps : Start(c)
        /\ hist' = IF Record THEN log' ELSE hist
Spec == Init /\ [][Next]_vars
\* what is asked back is what was set last
Kept == \A c \in Comps, n \in Names :
          LET i == C!Last(log, c, n) IN
          table[c][n] = IF i = 0 THEN None ELSE [t |-> log[i].t, v |-> log[i].v]
Obeyed == \A c \in Comps : eff[c] # 0 => eff[c] = C!Value(log, c, "x", "int", Default)
Done == \A c \in Comps : eff[c] # 0
Emit == IF Record /\ Done THEN PrintT("T " \o ToJson([log |-> hist, eff |-> eff])) ELSE TRUE
=============================================================================

----------------------------- MODULE EventsTrace -----------------------------
(***************************************************************************)
(* C12 on a recorded run.  Operations have a beginning and an end; a change*)
(* takes effect at some moment in between (Effect), a publication happens  *)
(* entirely in between.  Whoever is registered during all of it is told    *)
(* once, whoever is registered during none of it is not told.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)
VARIABLES tid, i, eps, tps, ops, stable
vars == <<tid, i, eps, tps, ops, stable>>
\* eps, tps: the registries; ops: running operations [id, k, a, eff, must, may, got, r]
\* stable: components that were added and whose removal has not begun
T == Traces[tid]
Ev == T.ev[i]
Init == /\ tid \in 1..N /\ i = 1 /\ TLCSet(tid, 1)
        /\ eps = <<>> /\ tps = <<>> /\ ops = {} /\ stable = {Traces[tid].fixed[k] : k \in 1..Len(Traces[tid].fixed)}
Set(s) == {s[k] : k \in 1..Len(s)}
Drop(s, x) == SelectSeq(s, LAMBDA y : y # x)
Adding == {"add", "listen"}
\* components being added or removed at this moment
Moving == {o.a : o \in {p \in ops : p.k \in {"add", "del", "listen"}}}

Begin ==
  /\ Ev.o = "beg"
  /\ LET leave == IF Ev.k = "del" THEN {Ev.a} ELSE {}
         come == IF Ev.k \in Adding THEN {Ev.a} ELSE {}
         new == [id |-> Ev.id, k |-> Ev.k, a |-> Ev.a,
                 eff |-> IF Ev.k \in {"pub", "new", "closed", "listen"} THEN "yes" ELSE "open",
                 must |-> stable \ leave, may |-> stable \union Set(eps) \union Moving \union come \union leave, got |-> {}, r |-> <<>>]
     IN /\ ops' = {[o EXCEPT !.must = @ \ leave, !.may = @ \union come] : o \in ops} \union {new}
        /\ stable' = stable \ leave
  /\ UNCHANGED <<eps, tps>>
\* a change or a look at a registry takes effect; only looked for when it matters
Effect ==
  /\ Ev.o \in {"end", "obs"}
  /\ \E o \in ops :
       /\ o.eff = "open"
       /\ LET upd(e, r) == ops' = (ops \ {o}) \union {[o EXCEPT !.eff = e, !.r = r]} IN
          CASE o.k = "add" -> IF o.a \in Set(eps) THEN upd("no", <<>>) /\ UNCHANGED eps
                              ELSE upd("yes", <<>>) /\ eps' = Append(eps, o.a)
            [] o.k = "del" -> IF o.a \in Set(eps) THEN upd("yes", <<>>) /\ eps' = Drop(eps, o.a)
                              ELSE upd("no", <<>>) /\ UNCHANGED eps
            [] o.k = "list" -> upd("yes", eps) /\ UNCHANGED eps
            [] OTHER -> o.k \in {"addtp", "deltp", "listtp"} /\ UNCHANGED eps
                        /\ CASE o.k = "addtp" -> IF o.a \in Set(tps) THEN upd("no", <<>>) ELSE upd("yes", <<>>)
                             [] o.k = "deltp" -> IF o.a \in Set(tps) THEN upd("yes", <<>>) ELSE upd("no", <<>>)
                             [] OTHER -> upd("yes", tps)
       /\ tps' = CASE o.k = "addtp" -> IF o.a \in Set(tps) THEN tps ELSE Append(tps, o.a)
                   [] o.k = "deltp" -> Drop(tps, o.a)
                   [] OTHER -> tps
  /\ UNCHANGED <<i, tid, stable>>
\* component x is told of something that is being published
Obs ==
  /\ Ev.o = "obs"
  /\ \E o \in ops :
       /\ o.k = Ev.k /\ o.a = Ev.a /\ o.eff = "yes"
       /\ Ev.x \in o.may /\ Ev.x \notin o.got
       /\ o.k = "add" => Ev.x # o.a
       /\ ops' = (ops \ {o}) \union {[o EXCEPT !.got = @ \union {Ev.x}]}
  /\ UNCHANGED <<eps, tps, stable>>
Told(o) == IF o.k \in {"list", "listtp", "listen"} \/ o.eff = "no" THEN o.got = {}
           ELSE /\ o.must \ (IF o.k = "add" THEN {o.a} ELSE {}) \subseteq o.got
                /\ o.k = "del" => o.a \in o.got
End ==
  /\ Ev.o = "end"
  /\ \E o \in ops :
       /\ o.id = Ev.id /\ o.eff # "open" /\ Told(o)
       /\ o.k \in {"list", "listtp"} => o.r = Ev.r
       /\ ops' = ops \ {o}
       \* it is there now, unless somebody else is still removing it
       /\ stable' = IF o.k = "listen" THEN stable \union {o.a}
                    ELSE IF o.k \in {"add", "del"} /\ o.a \in Set(eps) /\ {p \in ops \ {o} : p.a = o.a /\ p.eff = "open"} = {}
                    THEN stable \union {o.a} ELSE stable
  /\ UNCHANGED <<eps, tps>>
Quiet == /\ Ev.o = "quiet" \* what the stack itself publishes is over
         /\ {o \in ops : o.k \in {"new", "closed"} /\ ~Told(o)} = {}
         /\ ops' = {o \in ops : o.k \notin {"new", "closed"}}
         /\ UNCHANGED <<eps, tps, stable>>
Step == Begin \/ Obs \/ End \/ Quiet
Next == /\ i <= Len(T.ev)
        /\ \/ Effect
           \/ /\ Step /\ i' = i + 1 /\ tid' = tid
              /\ TLCSet(tid, IF TLCGet(tid) > i' THEN TLCGet(tid) ELSE i')
Spec == Init /\ [][Next]_vars
Accepted ==
  LET bad == {t \in 1..N : TLCGet(t) # Len(Traces[t].ev) + 1} IN
  \A t \in bad : PrintT("REJECT " \o ToString(t) \o " " \o ToString(TLCGet(t)))
AllAccepted == Accepted /\ PrintT("VALIDATED " \o ToString(N))
=============================================================================

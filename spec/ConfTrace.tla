------------------------------ MODULE ConfTrace ------------------------------
(***************************************************************************)
(* C21 on a recorded run: settings, names and parts are put into several   *)
(* stacks and their components and asked back.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
S == INSTANCE Stack
Cf == INSTANCE Conf
Traces == ndJsonDeserialize(IOEnv.TRACES)
N == Len(Traces)
VARIABLES tid, i, sets, st
vars == <<tid, i, sets, st>>
\* st: stack -> [name, mtu and over (once it runs), feats, eps, tps]
T == Traces[tid]
Ev == T.ev[i]
Init == /\ tid \in 1..N /\ i = 1 /\ TLCSet(tid, 1) /\ sets = <<>>
        /\ st = [u \in 1..Len(Traces[tid].procs) |-> [name |-> "UStack", mtu |-> 0, over |-> 0, feats |-> <<>>, eps |-> <<>>, tps |-> <<>>]]
Has(s, k) == \E j \in 1..Len(s) : s[j] = k
Without(s, k) == SelectSeq(s, LAMBDA x : x # k)
Put(f, new) == st' = [st EXCEPT ![Ev.u] = [@ EXCEPT ![f] = new]] /\ UNCHANGED sets
\* the first feature of that name
Named(u, n) == LET j == {j \in 1..Len(st[u].feats) : T.feats[st[u].feats[j]] = n}
               IN IF j = {} THEN 0 ELSE st[u].feats[CHOOSE x \in j : \A y \in j : x <= y]
Same == UNCHANGED <<sets, st>>
Step ==
  LET u == Ev.u k == Ev.k IN
  CASE Ev.o = "set" -> sets' = Append(sets, Ev.set) /\ UNCHANGED st
    [] Ev.o = "get" -> /\ Same
                       /\ LET j == Cf!Last(sets, Ev.set.c, Ev.set.n) IN
                          IF j = 0 THEN Ev.got.t = "nil" ELSE Ev.got = sets[j]
    [] Ev.o = "run" -> /\ UNCHANGED sets
                       /\ st' = [st EXCEPT ![u].mtu = Cf!Value(sets, "stack" \o ToString(u), "MTU", "int", 2048),
                                           ![u].over = S!Overhead([procs |-> [p \in 1..Len(T.procs[u]) |-> [k |-> T.procs[u][p]]]])]
    [] Ev.o = "mtu" -> Ev.r = st[u].mtu /\ Same
    [] Ev.o = "over" -> Ev.r = st[u].over /\ Same
    [] Ev.o = "rename" -> Put("name", Ev.s)
    [] Ev.o = "name" -> Ev.st = st[u].name /\ Same
    [] Ev.o = "addfeat" -> Put("feats", Append(st[u].feats, k))
    [] Ev.o = "feat" -> Ev.r = Named(u, Ev.s) /\ Same
    [] Ev.o = "feats" -> Ev.l = st[u].feats /\ Same
    [] Ev.o = "addep" -> Put("eps", IF Has(st[u].eps, k) THEN st[u].eps ELSE Append(st[u].eps, k))
    [] Ev.o = "delep" -> Put("eps", Without(st[u].eps, k))
    [] Ev.o = "eps" -> Ev.l = st[u].eps /\ Same
    [] Ev.o = "addtp" -> Put("tps", IF Has(st[u].tps, k) THEN st[u].tps ELSE Append(st[u].tps, k))
    [] Ev.o = "deltp" -> Put("tps", Without(st[u].tps, k))
    [] Ev.o = "tps" -> Ev.l = st[u].tps /\ Same
Next == /\ i <= Len(T.ev) /\ Step /\ i' = i + 1 /\ tid' = tid
        /\ TLCSet(tid, IF TLCGet(tid) > i' THEN TLCGet(tid) ELSE i')
Spec == Init /\ [][Next]_vars
Accepted ==
  LET bad == {t \in 1..N : TLCGet(t) # Len(Traces[t].ev) + 1} IN
  \A t \in bad : PrintT("REJECT " \o ToString(t) \o " " \o ToString(TLCGet(t)))
AllAccepted == Accepted /\ PrintT("VALIDATED " \o ToString(N))
=============================================================================

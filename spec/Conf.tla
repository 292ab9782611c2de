-------------------------------- MODULE Conf --------------------------------
(***************************************************************************)
(* What settings mean.  A component is given values under names; it goes   *)
(* by the value last set under an option's name if that has the option's   *)
(* type, and otherwise by the default.                                     *)
(* sets: in order, [c: component, n: name, t: type of the value, v: number *)
(* (1 and 0 for true and false)]                                           *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
Last(sets, c, n) == LET of == {i \in 1..Len(sets) : sets[i].c = c /\ sets[i].n = n}
                    IN IF of = {} THEN 0 ELSE CHOOSE i \in of : \A j \in of : j <= i
Value(sets, c, n, type, default) ==
  LET i == Last(sets, c, n) IN IF i > 0 /\ sets[i].t = type THEN sets[i].v ELSE default
Mtu(sets)        == Value(sets, "stack", "MTU", "int", 2048)
Capacity(sets)   == Value(sets, "frame", "CacheCapacity", "int", 2 * Mtu(sets))
Collect(sets)    == Value(sets, "stat", "Collect.IntervalInSecond", "int", 0)
Hb(sets)         == [interval |-> Value(sets, "hb", "IntervalInSecond", "int", 1),
                     timeout  |-> Value(sets, "hb", "TimeoutInSecond", "int", 30),
                     close    |-> Value(sets, "hb", "CloseOnLost", "bool", 1)]
QueueSize(sets, c)     == Value(sets, c, "MaxQueueSize", "int", 512)
RetryCount(sets, c)    == Value(sets, c, "MaxRetryCount", "int", 180)
RetryInterval(sets, c) == Value(sets, c, "RetryIntervalInSecond", "int", 1)
\* a recorded run of a stack that was given these settings
Settled(t) ==
  IF "sets" \notin DOMAIN t THEN t
  ELSE [f \in DOMAIN t |->
          CASE f = "cfg" -> [t.cfg EXCEPT !.mtu = Mtu(t.sets), !.cap = Capacity(t.sets)]
            [] f = "hb" -> Hb(t.sets)
            [] f = "collect" -> Collect(t.sets)
            [] OTHER -> t[f]]
=============================================================================

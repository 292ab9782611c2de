------------------------------ MODULE UBufCow -------------------------------
(***************************************************************************)
(* Design of the buffer: copy-on-write relatives share bytes until one of  *)
(* them writes (reference count + flag).  Runs in lock step with the ideal *)
(* buffer of UBuf.tla; the invariant Same says they cannot be told apart.  *)
(* Every transition of this module, with the results the ideal buffer      *)
(* gives, is one test of the implementation (see Emit).                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
U == INSTANCE UBuf

CONSTANTS Caps,        \* capacities
          MaxHandles,  \* handles per tree
          Families,    \* sets of snapshot kinds that may be combined
          Widths,      \* integer widths in bytes
          Blocks,      \* block sizes
          OpNames,     \* operations in use
          Emitting     \* print every transition

VARIABLES hs, ss,      \* ideal handles and stores
          hd, dd,      \* design: handles [d, cow] and data [rc, b]
          fam,         \* kinds in use
          cnt,         \* source of fresh byte values
          hist         \* operations with their results

vars == <<hs, ss, hd, dd, fam, cnt, hist>>
\* byte values do not influence anything, so states differ by layout only
Layout == <<[i \in 1..Len(hs) |-> <<hs[i].res, hs[i].r, hs[i].w, Len(ss[hs[i].s]), hs[i].s>>],
            hd, [i \in 1..Len(dd) |-> dd[i].rc], fam>>

Fresh(n) == [i \in 1..n |-> 1 + (((cnt + i) * 7) % 251)]

Op(o, h, k, m, b, x, t) == [o |-> o, h |-> h, k |-> k, m |-> m, b |-> b, x |-> x, t |-> t]

\* ---- design -------------------------------------------------------------
DContent(i) == SubSeq(dd[hd[i].d].b, hs[i].r + 1, hs[i].w)

\* make the data of handle i private before writing, as the code does it
Resolved(i) ==
  IF ~hd[i].cow THEN [hd |-> hd, dd |-> dd]
  ELSE IF dd[hd[i].d].rc = 1 THEN [hd |-> [hd EXCEPT ![i].cow = FALSE], dd |-> dd]
  ELSE LET old == dd[hd[i].d]
           new == [rc |-> 1,
                   b |-> [j \in 1..Len(old.b) |-> IF j > hs[i].r /\ j <= hs[i].w THEN old.b[j] ELSE 0]]
       IN [hd |-> [hd EXCEPT ![i] = [d |-> Len(dd) + 1, cow |-> FALSE]],
           dd |-> Append([dd EXCEPT ![hd[i].d].rc = @ - 1], new)]

DesignStep(o) ==
  IF o.o = "Snap" THEN
    CASE o.t = U!REF -> /\ hd' = Append(hd, hd[o.h]) /\ dd' = dd
      [] o.t = U!COW -> /\ hd' = Append([hd EXCEPT ![o.h].cow = TRUE], [hd[o.h] EXCEPT !.cow = TRUE])
                        /\ dd' = [dd EXCEPT ![hd[o.h].d].rc = @ + 1]
      [] o.t = U!DIR -> /\ hd' = Append(hd, [d |-> Len(dd) + 1, cow |-> FALSE])
                        /\ dd' = Append(dd, [rc |-> 1, b |-> dd[hd[o.h].d].b])
  ELSE
    LET i == o.h
        out0 == U!Apply(o, hs[i], dd[hd[i].d].b)
        touched == /\ o.o \in {"WriteByte", "WriteU", "HeadByte", "HeadBytes", "HeadU", "Write", "ReadFrom"}
                   /\ ~(o.o \in {"WriteByte", "WriteU", "HeadByte", "HeadBytes", "HeadU"} /\ out0.r.e)
                   /\ ~(o.o \in {"Write", "ReadFrom"} /\ U!TailRoom(hs[i], dd[hd[i].d].b) = 0)
        R == IF touched THEN Resolved(i) ELSE [hd |-> hd, dd |-> dd]
        out == U!Apply(o, hs[i], R.dd[R.hd[i].d].b)
    IN /\ hd' = R.hd
       /\ dd' = [R.dd EXCEPT ![R.hd[i].d].b = out.st]

\* ---- behaviours ---------------------------------------------------------
Do(o) ==
  LET R == U!SysApply(o, hs, ss) IN
  /\ hs' = R.hs /\ ss' = R.ss
  /\ DesignStep(o)
  /\ cnt' = (cnt + Len(o.b)) % 251
  /\ fam' = fam
  /\ hist' = Append(hist, [op |-> o, r |-> R.r])

On(n) == n \in OpNames
Init ==
  /\ \E c \in Caps, f \in Families : \E res \in 0..c :
       /\ LET R == U!SysNew(<<>>, <<>>, c, res) IN
          /\ hs = R.hs /\ ss = R.ss
          /\ hist = <<[op |-> Op("New", 1, c, res, <<>>, FALSE, 0), r |-> R.r]>>
       /\ fam = f
       /\ dd = <<[rc |-> 1, b |-> [i \in 1..c |-> 0]]>>
  /\ hd = <<[d |-> 1, cow |-> FALSE]>>
  /\ cnt = 0

Next == \E h \in 1..Len(hs) :
  \/ On("WriteByte") /\ Do(Op("WriteByte", h, 0, 0, Fresh(1), FALSE, 0))
  \/ On("HeadByte")  /\ Do(Op("HeadByte", h, 0, 0, Fresh(1), FALSE, 0))
  \/ On("ReadByte")  /\ Do(Op("ReadByte", h, 0, 0, <<>>, FALSE, 0))
  \/ On("PeekByte")  /\ Do(Op("PeekByte", h, 0, 0, <<>>, FALSE, 0))
  \/ \E k \in Widths, m \in 0..2, n \in {"WriteU", "HeadU"} :
       On(n) /\ Do(Op(n, h, k, m, Fresh(k), FALSE, 0))
  \/ \E k \in Widths, m \in 0..2, n \in {"ReadU", "PeekU"} :
       On(n) /\ Do(Op(n, h, k, m, <<>>, FALSE, 0))
  \/ \E k \in Blocks : On("Write") /\ Do(Op("Write", h, 0, 0, Fresh(k), FALSE, 0))
  \/ \E k \in Blocks \ {0} : On("HeadBytes") /\ Do(Op("HeadBytes", h, 0, 0, Fresh(k), FALSE, 0))
  \/ \E k \in Blocks, n \in {"Read", "Peek", "WriteTo"} :
       On(n) /\ Do(Op(n, h, k, 0, <<>>, FALSE, 0))
  \/ \E k \in Blocks, x \in BOOLEAN : On("ReadFrom") /\ Do(Op("ReadFrom", h, 0, 0, Fresh(k), x, 0))
  \/ On("Reset") /\ Do(Op("Reset", h, 0, 0, <<>>, FALSE, 0))
  \/ \E t \in fam : Len(hs) < MaxHandles /\ Do(Op("Snap", h, 0, 0, <<>>, FALSE, t))

Spec == Init /\ [][Next]_vars

\* ---- properties ---------------------------------------------------------
Same == \A i \in 1..Len(hs) : DContent(i) = U!Content(hs[i], ss[hs[i].s])
Window == \A i \in 1..Len(hs) :
            /\ 0 <= hs[i].r /\ hs[i].r <= hs[i].w /\ hs[i].w <= Len(ss[hs[i].s])
            /\ hs[i].res <= Len(ss[hs[i].s])
RefCount == \A d \in 1..Len(dd) : U!REF \notin fam =>
              LET users == {i \in 1..Len(hd) : hd[i].d = d} IN
              \* the count never promises less sharing than there is
              \A i \in users : ~hd[i].cow => users = {i}
Emit == IF Emitting THEN PrintT("T " \o ToJson([fam |-> fam, ev |-> hist',
                                       lens |-> U!SysLens(hs', ss'), con |-> U!SysContents(hs', ss')])) ELSE TRUE
=============================================================================

-------------------------------- MODULE UBuf --------------------------------
(***************************************************************************)
(* The buffer (ubuf.go) as a user sees it: a window [r, w) of readable     *)
(* bytes inside a store of bytes.  Everything in front of the window is    *)
(* head room, everything behind it is tail room.                           *)
(*                                                                         *)
(* A handle is [s |-> store id, res, r, w]; stores are sequences of bytes. *)
(* Only reference snapshots share a store.  Copy-on-write snapshots are,   *)
(* by definition of what they promise, private copies (UBufCow.tla shows   *)
(* that sharing the bytes lazily cannot be told apart from this).          *)
(*                                                                         *)
(* An operation is a record o:                                             *)
(*   o.o  name, o.h handle, o.k size, o.m byte order (0 none named, 1 big, *)
(*   2 little), o.b bytes (integers are their big endian bytes), o.x does  *)
(*   the stream fail, o.t snapshot kind                                    *)
(* and its result is [n |-> count, e |-> error, b |-> bytes].              *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences

Min(a, b) == IF a < b THEN a ELSE b
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Ordered(s, m) == IF m = 2 THEN Rev(s) ELSE s

REF == 0
COW == 1
DIR == 2

Readable(h) == h.w - h.r
HeadRoom(h) == h.r
TailRoom(h, st) == Len(st) - h.w
Content(h, st) == SubSeq(st, h.r + 1, h.w)
Put(st, at, bs) ==
  [i \in 1..Len(st) |-> IF i > at /\ i <= at + Len(bs) THEN bs[i - at] ELSE st[i]]

Res(n, e, b) == [n |-> n, e |-> e, b |-> b]
Out(h, st, r) == [h |-> h, st |-> st, r |-> r]

Tail_(h, st, bs, r) == Out([h EXCEPT !.w = @ + Len(bs)], Put(st, h.w, bs), r)
Head_(h, st, bs, r) == Out([h EXCEPT !.r = @ - Len(bs)], Put(st, h.r - Len(bs), bs), r)
Drop_(h, st, n, r)  == Out([h EXCEPT !.r = @ + n], st, r)

FixedWrite(h, st, bs) ==
  IF TailRoom(h, st) < Len(bs) THEN Out(h, st, Res(0, TRUE, <<>>))
  ELSE Tail_(h, st, bs, Res(0, FALSE, <<>>))
FixedHead(h, st, bs) ==
  IF HeadRoom(h) < Len(bs) THEN Out(h, st, Res(0, TRUE, <<>>))
  ELSE Head_(h, st, bs, Res(0, FALSE, <<>>))
FixedRead(h, st, k, m, consume) ==
  IF Readable(h) < k THEN Out(h, st, Res(0, TRUE, <<>>))
  ELSE Drop_(h, st, IF consume THEN k ELSE 0,
             Res(0, FALSE, Ordered(SubSeq(st, h.r + 1, h.r + k), m)))

\* effect of an operation on its own handle and store
Apply(o, h, st) ==
  CASE o.o = "WriteByte" -> FixedWrite(h, st, o.b)
    [] o.o = "WriteU"    -> FixedWrite(h, st, Ordered(o.b, o.m))
    [] o.o = "HeadByte"  -> FixedHead(h, st, o.b)
    [] o.o = "HeadBytes" -> FixedHead(h, st, o.b)
    [] o.o = "HeadU"     -> FixedHead(h, st, Ordered(o.b, o.m))
    [] o.o = "ReadByte"  -> FixedRead(h, st, 1, 1, TRUE)
    [] o.o = "ReadU"     -> FixedRead(h, st, o.k, o.m, TRUE)
    [] o.o = "PeekByte"  -> FixedRead(h, st, 1, 1, FALSE)
    [] o.o = "PeekU"     -> FixedRead(h, st, o.k, o.m, FALSE)
    [] o.o = "Write"     ->
         LET n == Min(Len(o.b), TailRoom(h, st)) IN
         Tail_(h, st, SubSeq(o.b, 1, n),
               Res(n, TailRoom(h, st) = 0 \/ n < Len(o.b), <<>>))
    [] o.o = "Read"      ->
         LET n == Min(o.k, Readable(h)) IN
         Drop_(h, st, n, Res(n, Readable(h) > 0 /\ n < o.k, SubSeq(st, h.r + 1, h.r + n)))
    [] o.o = "Peek"      ->
         LET n == Min(o.k, Readable(h)) IN
         Out(h, st, Res(n, Readable(h) = 0 \/ n < o.k, SubSeq(st, h.r + 1, h.r + n)))
    [] o.o = "ReadFrom"  -> \* the stream offers o.b in one read, with an error iff o.x
         LET n == Min(Len(o.b), TailRoom(h, st)) IN
         Tail_(h, st, SubSeq(o.b, 1, n), Res(n, TailRoom(h, st) > 0 /\ o.x, <<>>))
    [] o.o = "WriteTo"   -> \* the stream takes at most o.k bytes, with an error if less than offered
         LET n == Min(o.k, Readable(h)) IN
         Drop_(h, st, n, Res(n, n < Readable(h), SubSeq(st, h.r + 1, h.r + n)))
    [] o.o = "Reset"     -> Out([h EXCEPT !.r = h.res, !.w = h.res], st, Res(0, FALSE, <<>>))

\* does the operation change bytes of the store
Writes(o, h, st) ==
  LET out == Apply(o, h, st) IN
  o.o \in {"WriteByte", "WriteU", "HeadByte", "HeadBytes", "HeadU", "Write", "ReadFrom"}

\* what a user can ask of a handle
Lens(h, st) == <<Readable(h), HeadRoom(h), TailRoom(h, st), Len(st)>>

\* the whole system: hs sequence of handles, ss sequence of stores
SysNew(hs, ss, cap, res) ==
  [hs |-> Append(hs, [s |-> Len(ss) + 1, res |-> res, r |-> res, w |-> res]),
   ss |-> Append(ss, [i \in 1..cap |-> 0]),
   r  |-> Res(0, FALSE, <<>>)]
SysSnap(hs, ss, h, kind) ==
  IF kind = REF
  THEN [hs |-> Append(hs, hs[h]), ss |-> ss, r |-> Res(0, FALSE, <<>>)]
  ELSE [hs |-> Append(hs, [hs[h] EXCEPT !.s = Len(ss) + 1]),
        ss |-> Append(ss, ss[hs[h].s]), r |-> Res(0, FALSE, <<>>)]
SysApply(o, hs, ss) ==
  CASE o.o = "New"  -> SysNew(hs, ss, o.k, o.m)
    [] o.o = "Snap" -> SysSnap(hs, ss, o.h, o.t)
    [] OTHER ->
       LET out == Apply(o, hs[o.h], ss[hs[o.h].s]) IN
       [hs |-> [hs EXCEPT ![o.h] = out.h],
        ss |-> [ss EXCEPT ![hs[o.h].s] = out.st],
        r  |-> out.r]
SysLens(hs, ss) == [i \in 1..Len(hs) |-> Lens(hs[i], ss[hs[i].s])]
SysContents(hs, ss) == [i \in 1..Len(hs) |-> Content(hs[i], ss[hs[i].s])]
=============================================================================

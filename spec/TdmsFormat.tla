----------------------------- MODULE TdmsFormat -----------------------------
(***************************************************************************)
(* The TDMS segment rules: how a sequence of segments defines objects,     *)
(* properties and samples (NI "TDMS File Format Internal Structure").      *)
(*                                                                         *)
(* A segment is a record                                                   *)
(*   [new   |-> new object list flag,   inter |-> interleaved flag,        *)
(*    be    |-> big endian flag,        meta  |-> has metadata,            *)
(*    raw   |-> raw data flag,          objs  |-> object entries,          *)
(*    rawlen|-> bytes of raw data,      src   |-> where the samples are]   *)
(* An object entry is [p |-> path, ix |-> raw data index, props |-> ...],  *)
(* a raw data index is <<"none">>, <<"prev">>, <<"raw", type, n>> or       *)
(* <<"str", type, n, total>>.  props is a sequence of <<name, value>> with *)
(* value = <<type, bytes>> (bytes in little endian order).                 *)
(* Optional nch: the number of chunks, for segments too large for rawlen.  *)
(* Optional pad: unused bytes between the metadata and the raw data.        *)
(* src is <<"tok", b>> - the i-th stored sample carries token b+i - or     *)
(* <<"bytes", bs, at>> - the raw data are the bytes bs[at+1], ...          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, TdmsRuns, TdmsTypes

EmptyFn == [x \in {} |-> 0]

(* objs: path |-> [props: name |-> value, fmt: <<>> or <<type, n>>, data: Seq(piece)]   *)
(* piece: [t: stored type, n: samples, runs, bad: unreadable, s: segment number]        *)
NewObj == [props |-> EmptyFn, fmt |-> <<>>, data |-> <<>>]
FileInit == [objs |-> EmptyFn, active |-> <<>>, err |-> "", nseg |-> 0]

Put(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = v] ELSE f @@ (k :> v)

PutProps(f, kv) == FoldLeft(LAMBDA g, x : Put(g, x[1], <<Reported(x[2][1]), x[2][2]>>), f, kv)

(* one entry of the object list *)
AddObject(F, o) ==
  LET old  == IF o.p \in DOMAIN F.objs THEN F.objs[o.p] ELSE NewObj
      kind == o.ix[1]
      fmt  == CASE kind = "none" -> old.fmt
                [] kind = "prev" -> old.fmt
                [] OTHER -> <<o.ix[2], o.ix[3]>>
      new  == [old EXCEPT !.props = PutProps(@, o.props), !.fmt = fmt]
  IN  IF F.err # "" THEN F
      ELSE IF kind = "prev" /\ old.fmt = <<>> THEN [F EXCEPT !.err = "NoPreviousType"]
      ELSE [F EXCEPT !.objs = Put(@, o.p, new),
                     !.active = IF kind = "none" \/ Contains(@, o.p) THEN @ ELSE Append(@, o.p)]

AddObjects(F, os) == FoldLeft(AddObject, F, os)

(* ---- the raw data of a segment ---- *)
SumTo(f, k) == FoldLeft(LAMBDA a, x : a + x, 0, SubSeq(f, 1, k))

(* the runs of channel c; fmts is the sequence of <<type, n>> of the active channels *)
TokRuns(b, fmts, c, nch, inter) ==
  LET C   == Len(fmts)
      n   == fmts[c][2]
      ns  == [d \in 1..C |-> fmts[d][2]]
      off == SumTo(ns, c - 1)
      tot == SumTo(ns, C)
  IN  IF inter THEN (IF n * nch = 0 THEN <<>> ELSE <<<<b + c - 1, C, n * nch>>>>)
      ELSE IF C = 1 THEN (IF n * nch = 0 THEN <<>> ELSE <<<<b, 1, n * nch>>>>)
      ELSE IF n = 1 THEN (IF nch = 0 THEN <<>> ELSE <<<<b + off, tot, nch>>>>)
      ELSE [k \in 1..nch |-> <<b + (k - 1) * tot + off, 1, n>>]

ByteRuns(bs, at, fmts, c, nch, inter, be) ==
  LET C   == Len(fmts)
      t   == fmts[c][1]
      w   == SizeOf(t)
      n   == fmts[c][2]
      ws  == [d \in 1..C |-> SizeOf(fmts[d][1])]
      cs  == [d \in 1..C |-> SizeOf(fmts[d][1]) * fmts[d][2]]
      off == IF inter THEN SumTo(ws, c - 1) ELSE SumTo(cs, c - 1)
      row == SumTo(ws, C)
      tot == SumTo(cs, C)
      at1(i) == IF inter THEN at + i * row + off
                ELSE at + (i \div n) * tot + off + (i % n) * w
  IN  [i \in 1..(n * nch) |->
         LET a == at1(i - 1)
         IN  <<IF a + w > Len(bs) THEN Lost ELSE BytesTok(t, SubSeq(bs, a + 1, a + w), be), 0, 1>>]

AddRaw(F, seg) ==
  IF F.err # "" THEN F
  ELSE IF F.active = <<>> THEN [F EXCEPT !.err = "NoActiveChannels"]
  ELSE IF seg.rawlen = 0 THEN [F EXCEPT !.err = "ZeroLengthDataBlock"]
  ELSE
  LET C     == Len(F.active)
      fmts  == TLCEval([c \in 1..C |-> F.objs[F.active[c]].fmt])
      str   == \E c \in 1..C : SizeOf(fmts[c][1]) = 0
      cb    == SumTo([c \in 1..C |-> SizeOf(fmts[c][1]) * fmts[c][2]], C)
      nch   == IF str THEN 1 ELSE IF "nch" \in DOMAIN seg THEN seg.nch ELSE IF cb = 0 THEN 0 ELSE seg.rawlen \div cb
      runs(c) == IF str THEN <<>>
                 ELSE IF seg.src[1] = "tok" THEN TokRuns(seg.src[2], fmts, c, nch, seg.inter)
                 ELSE ByteRuns(seg.src[2], seg.src[3], fmts, c, nch, seg.inter, seg.be)
      piece(c) == [t |-> fmts[c][1], n |-> fmts[c][2] * nch, runs |-> runs(c), bad |-> str, s |-> F.nseg]
      idx(p) == CHOOSE c \in 1..C : F.active[c] = p
  IN  [F EXCEPT !.objs = TLCEval([p \in DOMAIN @ |->
         IF Contains(F.active, p) /\ fmts[idx(p)][2] * nch > 0
         THEN [@[p] EXCEPT !.data = Append(@, piece(idx(p)))] ELSE @[p]])]

AddSegment(F, seg) ==
  LET F1 == IF seg.new THEN [F EXCEPT !.active = <<>>] ELSE F
      F2 == IF seg.meta THEN AddObjects(F1, seg.objs) ELSE F1
      F3 == IF seg.raw THEN AddRaw(F2, seg) ELSE F2
  IN  IF F.err # "" THEN F ELSE [F3 EXCEPT !.nseg = @ + 1]

PadOf(seg) == IF "pad" \in DOMAIN seg THEN seg.pad ELSE 0

Fold(segs) == FoldLeft(AddSegment, FileInit, segs)
FoldTo(segs, k) == Fold(SubSeq(segs, 1, k))

(* bytes of one chunk of the active channels after the metadata of seg *)
ChunkBytes(F) ==
  LET C == Len(F.active)
  IN  SumTo([c \in 1..C |-> SizeOf(F.objs[F.active[c]].fmt[1]) * F.objs[F.active[c]].fmt[2]], C)

(* ---- content: what a user can observe ---- *)
DataLen(data) == FoldLeft(LAMBDA a, d : a + d.n, 0, data)
=============================================================================

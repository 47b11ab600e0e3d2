------------------------------ MODULE McReader ------------------------------
(***************************************************************************)
(* The design of reading.  A file is built segment by segment; a read asks *)
(* for channels, an offset and buffer lengths; the plan visits the data    *)
(* blocks in order, skipping per channel, and copies samples by their      *)
(* address in the raw data.  Checked against the ideal slice:              *)
(*   C04/C05  every finished read holds exactly the slices asked for,      *)
(*            whichever channels are read together                         *)
(*   C18      only blocks holding asked-for samples are fetched            *)
(* The layout arithmetic (address of sample i of channel c) is independent *)
(* of TdmsFormat's runs, which serve as the oracle.                        *)
(* With Emit, every file structure is printed with a sweep of reads.       *)
(***************************************************************************)
EXTENDS McCommon

CONSTANTS Lists, Types, Counts, Chunks, MaxSegs, Emit, Sweep, Design, Small, Every,
          Scale,      \* samples per unit of Counts (large: C18)
          Uneven,     \* each channel of a segment is that much longer than the one before; 2: shorter
          Ahead       \* where more samples than 32 bits can count precede the file's own

VARIABLES segs, F, phase, req, at, skips, prog, bufs, fetched
vars == <<segs, F, phase, req, at, skips, prog, bufs, fetched>>

ListOf == [a |-> <<CA>>, b |-> <<CB>>, c |-> <<CC>>, ab |-> <<CA, CB>>, ba |-> <<CB, CA>>,
           abc |-> <<CA, CB, CC>>, cab |-> <<CC, CA, CB>>, acb |-> <<CA, CC, CB>>]

NoReq == [chs |-> <<>>, from |-> 0, lens |-> <<>>]
Init == /\ segs = <<>> /\ F = FileInit /\ phase = "build" /\ req = NoReq
        /\ at = 0 /\ skips = <<>> /\ prog = <<>> /\ bufs = <<>> /\ fetched = {}

(* ------------------------------ structures ------------------------------ *)
Base == 100 * Len(segs) * Scale + 1
SegOf(chs, ty, ns, nch, inter, mode) ==
  [new |-> mode = "new", inter |-> inter, be |-> FALSE, meta |-> mode # "same", raw |-> TRUE,
   objs |-> IF mode = "same" THEN <<>>
            ELSE [i \in DOMAIN chs |-> [p |-> chs[i], ix |-> <<"raw", ty, ns[i]>>, props |-> <<>>]],
   rawlen |-> SumTo(ns, Len(chs)) * SizeOf(ty) * nch, src |-> <<"tok", Base>>]
PropsOnly == [new |-> FALSE, inter |-> FALSE, be |-> FALSE, meta |-> TRUE, raw |-> FALSE,
              objs |-> <<[p |-> Grp, ix |-> <<"none">>, props |-> <<<<x_, U8Val(1)>>>>]>>,
              rawlen |-> 0, src |-> <<"tok", 0>>]
Add(seg) == /\ segs' = Append(segs, seg) /\ F' = AddSegment(F, seg)
            /\ UNCHANGED <<phase, req, at, skips, prog, bufs, fetched>>
Build == /\ phase = "build" /\ Len(segs) < MaxSegs
         /\ \/ \E k \in Lists, ty \in Types, n \in Counts, nch \in Chunks, inter \in {FALSE, TRUE}, u \in Uneven :
                 /\ (inter => Len(ListOf[k]) > 1 /\ n > 1 /\ u = 0)
                 /\ (u # 0 => Len(ListOf[k]) > 1)
                 /\ LET ns == [i \in 1..Len(ListOf[k]) |-> Max2(0, n * Scale + (IF u = 2 THEN -1 ELSE u) * (i - 1))]
                    IN  Add(SegOf(ListOf[k], ty, ns, nch, inter, "new"))
            \/ \E nch \in Chunks, inter \in {FALSE, TRUE} :
                 /\ F.active # <<>> /\ Len(segs) > 0 /\ segs[Len(segs)].raw
                 /\ LET ns == [i \in 1..Len(F.active) |-> F.objs[F.active[i]].fmt[2]]
                    IN  /\ (inter => Len(F.active) > 1 /\ \A i \in DOMAIN ns : ns[i] = ns[1])
                        /\ Add(SegOf(F.active, F.objs[F.active[1]].fmt[1], ns, nch, inter, "same"))
            \/ Small = FALSE /\ Add(PropsOnly)

(* -------------------------------- a read -------------------------------- *)
Locs(p) == IF p \in DOMAIN F.objs THEN F.objs[p].data ELSE <<>>
Total(p) == DataLen(Locs(p))
Orders == { <<CA>>, <<CB>>, <<CA, CB>>, <<CB, CA>> } \cup (IF CC \in DOMAIN F.objs THEN { <<CC>>, <<CA, CB, CC>>, <<CC, CA, CB>>, <<CB, CC>> } ELSE {})
Askable == { o \in Orders : \A i \in DOMAIN o : o[i] \in DOMAIN F.objs }
Longest == FoldLeft(LAMBDA m, p : Max2(m, Total(p)), 0, SetToSeq(DOMAIN F.objs))
Ask == /\ phase = "build" /\ Len(segs) > 0 /\ ~Emit
       /\ \E o \in Askable, from \in 0..(Longest + 1) :
          \E lens \in [1..Len(o) -> IF Every THEN 0..(Longest + 1) ELSE {0, 2, Longest}] :
             /\ req' = [chs |-> o, from |-> from, lens |-> lens]
             /\ skips' = [i \in 1..Len(o) |-> from]
             /\ prog' = [i \in 1..Len(o) |-> 0]
             /\ bufs' = [i \in 1..Len(o) |-> <<>>]
       /\ phase' = "read" /\ at' = 0 /\ fetched' = {} /\ UNCHANGED <<segs, F>>

(* block k (segment number): position of the channel and its samples there *)
HasIn(p, k) == \E i \in DOMAIN Locs(p) : Locs(p)[i].s = k
Piece(p, k) == Locs(p)[CHOOSE i \in DOMAIN Locs(p) : Locs(p)[i].s = k]
(* active channels and formats when segment k was added *)
Then(k) == LET G == FoldTo(segs, k + 1)
           IN  [c \in 1..Len(G.active) |-> [p |-> G.active[c], t |-> G.objs[G.active[c]].fmt[1],
                                           n |-> G.objs[G.active[c]].fmt[2]]]
(* the token stored at sample i (from 0) of channel c of a block: the raw data
   count up in storage order, so the token is the base plus the number of
   samples stored before the address *)
TokenAt(k, c, i) ==
  LET cs  == Then(k)
      C   == Len(cs)
      ns  == [d \in 1..C |-> cs[d].n]
      per == SumTo(ns, C)
      n   == cs[c].n
  IN  segs[k + 1].src[2] +
      IF segs[k + 1].inter THEN i * C + (c - 1)
      ELSE (i \div n) * per + SumTo(ns, c - 1) + (i % n)
Order(k, p) == CHOOSE c \in 1..Len(Then(k)) : Then(k)[c].p = p

Blocks == { k \in 0..(Len(segs) - 1) : \E i \in DOMAIN req.chs : HasIn(req.chs[i], k) /\ k >= at }
Done == \A i \in DOMAIN req.chs : prog[i] >= req.lens[i]
ReadBlock ==
  /\ phase = "read"
  /\ IF Blocks = {} \/ (Done /\ at > 0)
     THEN phase' = "done" /\ UNCHANGED <<segs, F, req, at, skips, prog, bufs, fetched>>
     ELSE LET k    == CHOOSE k \in Blocks : \A j \in Blocks : k <= j
              C    == Len(req.chs)
              have == [i \in 1..C |-> IF HasIn(req.chs[i], k) THEN Piece(req.chs[i], k).n ELSE 0]
              skip == [i \in 1..C |-> IF Design = "sharedskip" THEN skips[1] ELSE skips[i]]
              part == [i \in 1..C |-> have[i] > skip[i]]
              done == IF Design = "sharedprogress" THEN [i \in 1..C |-> prog[1]] ELSE prog
              take == [i \in 1..C |-> IF part[i] THEN Min2(have[i] - skip[i], Max2(0, req.lens[i] - done[i])) ELSE 0]
          IN  /\ bufs' = [i \in 1..C |-> bufs[i] \o
                            [j \in 1..take[i] |-> TokenAt(k, Order(k, req.chs[i]), skip[i] + j - 1)]]
              /\ prog' = [i \in 1..C |-> prog[i] + take[i]]
              /\ skips' = [i \in 1..C |-> Max2(0, skips[i] - have[i])]
              /\ fetched' = IF \E i \in 1..C : take[i] > 0 THEN fetched \cup {k} ELSE fetched
              /\ at' = k + 1
              /\ UNCHANGED <<segs, F, phase, req>>
Emitted == Emit /\ phase = "build" /\ Len(segs) > 0

Next == Build \/ Ask \/ ReadBlock
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
Ideal(i) == LET d == Sel(Locs(req.chs[i]), req.from, req.lens[i])
            IN  FlattenSeq([j \in DOMAIN d |-> Flat(d[j].runs, 0)])
ReadsAreSlices == phase = "done" => \A i \in DOMAIN req.chs : bufs[i] = Ideal(i)
NeverTooMuch   == \A i \in DOMAIN bufs : /\ Len(bufs[i]) = prog[i] /\ prog[i] <= req.lens[i]
                                         /\ IsPfx(bufs[i], Ideal(i))
FetchesNeeded  == phase = "done" =>
                    fetched = UNION { { Sel(Locs(req.chs[i]), req.from, req.lens[i])[j].s :
                                        j \in DOMAIN Sel(Locs(req.chs[i]), req.from, req.lens[i]) } : i \in DOMAIN req.chs }
Valid == F.err = ""

(* ------------------------------ generation ------------------------------ *)
TyOf(p) == Locs(p)[1].t
Req(o) == IF Locs(o[1]) = <<>> THEN "I16" ELSE TyOf(o[1])
Singles == UNION { { Read(<<p>>, Req(<<p>>), from, <<n>>) : from \in 0..(Total(p) + 1), n \in 0..(Total(p) + 1) }
                   : p \in DOMAIN F.objs \ {Grp} }
MultiLens(o) == { l \in [1..Len(o) -> IF Every THEN {0, 1, 2, Longest} ELSE {1, Longest}] : \E i \in DOMAIN o : l[i] > 0 }
Multis == UNION { { Read(o, Req(o), from, l) : from \in 0..Longest, l \in MultiLens(o) }
                  : o \in { q \in Askable : Len(q) > 1 } }
(* one channel into several buffers *)
Agains == UNION { { Read(o, Req(o), from, l) : from \in 0..Longest, l \in MultiLens(o) }
                  : o \in { q \in { <<CA, CA>>, <<CB, CA, CB>> } : \A i \in DOMAIN q : q[i] \in DOMAIN F.objs } }
(* large segments: the edges of segments only *)
Edges(p) == LET cum == [i \in 0..Len(Locs(p)) |-> FoldLeft(LAMBDA s, d : s + d.n, 0, SubSeq(Locs(p), 1, i))]
            IN  UNION { { Max2(0, cum[i] - 1), cum[i], cum[i] + Scale \div 2 } : i \in DOMAIN cum }
Far == UNION { { Read(<<p>>, Req(<<p>>), from, <<n>>) : from \in Edges(p), n \in {1, 3} } : p \in DOMAIN F.objs \ {Grp} }
       \cup UNION { { Read(o, Req(o), from, [i \in DOMAIN o |-> 2]) : from \in Edges(o[1]) }
                    : o \in { q \in Askable : Len(q) > 1 } }
Reads == CASE Sweep = "single" -> Singles [] Sweep = "multi" -> Multis [] Sweep = "again" -> Agains
              [] Sweep = "far" -> Far
(* the samples ahead are hidden from the specification: the harness shifts
   the offsets and lengths of the channels that have them (2147483647 << 1);
   "segments": more segments than 16 bits can count                         *)
Shifted == IF segs[1].meta /\ segs[1].raw THEN { segs[1].objs[i].p : i \in DOMAIN segs[1].objs } ELSE {}
OneChunk(g) == Len(g.objs) * g.objs[1].ix[3] * SizeOf(g.objs[1].ix[2])
Possible(m) == CASE m = "none" -> TRUE
                 [] m = "values" -> /\ segs[1].raw /\ segs[1].rawlen = OneChunk(segs[1])
                                    /\ Len(segs) > 1 => segs[2].meta
                 [] m = "behind" -> Len(segs) = 1 /\ segs[1].raw /\ segs[1].rawlen = OneChunk(segs[1])
                 [] OTHER -> segs[1].raw
(* not over the hidden samples behind those described *)
Before(r) == \A i \in DOMAIN r.chs : r.from + r.lens[i] <= Total(r.chs[i])
Alike(r) == Cardinality({ (r.chs[i] \in Shifted) : i \in DOMAIN r.chs }) = 1
Script(m) ==
  LET o == (IF Sweep = "far" THEN [rd |-> TRUE] ELSE EmptyFn)
           @@ (CASE m = "none" -> EmptyFn
                 [] m = "segments" -> [ahead |-> <<m, 65536, 0>>]
                 [] OTHER -> [ahead |-> <<m, 2147483647, 1>>])
  IN  <<[e |-> "segs", segs |-> segs] @@ (IF o = EmptyFn THEN EmptyFn ELSE [o |-> o])>>
      \o SetToSeq({ [e |-> "len", path |-> p] : p \in DOMAIN F.objs \ {Grp} })
      \o SetToSeq(IF m = "none" THEN Reads ELSE { r \in Reads : Alike(r) /\ (m = "behind" => Before(r)) })
Told == Emit /\ phase = "build" /\ Len(segs) > 0 => \A m \in Ahead : Possible(m) => Gen(Script(m))
=============================================================================

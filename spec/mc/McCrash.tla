------------------------------- MODULE McCrash -------------------------------
(***************************************************************************)
(* A file is written, cut at any byte, opened, continued and closed.       *)
(* disk holds the segments written; file the bytes after the cut and the   *)
(* continuation, produced by the design of recovery:                       *)
(*   - a cut lead-in ends the file (nothing of the segment is known), a    *)
(*     cut in the metadata makes opening fail, a cut in the samples leaves *)
(*     the segment known with its full length;                             *)
(*   - new segments go where the last known one ends by its lead-in.       *)
(* Checked (C14):                                                          *)
(*   Prefix     every complete segment is decoded exactly as written       *)
(*   Verdicts   which cuts may, must and must not open                     *)
(*   Survives   after continuing, every byte stored before the cut in a    *)
(*              known segment is still there, the file is well-formed, and *)
(*              it holds the stored samples and what was appended          *)
(*   Accepted   the abstract session (TediumApi) allows this outcome       *)
(* Emit prints, for every history, a script that cuts at every byte.       *)
(***************************************************************************)
EXTENDS McCommon, Writing

CONSTANTS Use, More, Depth, Emit, Mutant

VARIABLES disk, mem, hist, phase, at, more
vars == <<disk, mem, hist, phase, at, more>>

W1 == Write(<<CA>>, "I16", 0, 2, "C")
W2 == Write(<<CA, CB>>, "F64", 0, 2, "C")
W3 == Write(<<CB, CA>>, "I16", 0, 4, "I")
W4 == Write(<<CB>>, "U8", 0, 3, "C")
P1 == Props(CA, <<<<x_, U8Val(1)>>>>)
P2 == Props(Grp, <<<<x_, StrVal(<<97, 98>>)>>>>)
Ops == << W1, W2, W3, W4, P1, P2 >>
Rebased(ev, k) == IF ev.e = "write" THEN [ev EXCEPT !.base = 20 * k + 1] ELSE ev
SegFor(F, ev) == IF ev.e = "write" THEN WriteSeg(F, ev) ELSE PropSeg(ev)

Init == /\ disk = <<>> /\ mem = FileInit /\ hist = <<>> /\ phase = "write" /\ at = 0 /\ more = 0
WriteOne == /\ phase = "write" /\ Len(hist) < Depth
            /\ \E o \in Use :
                 LET ev == Rebased(Ops[o], Len(hist))  seg == SegFor(mem, ev)
                 IN  /\ disk' = Append(disk, seg) /\ mem' = AddSegment(mem, seg) /\ hist' = Append(hist, ev)
            /\ UNCHANGED <<phase, at, more>>
Bytes == EncFile(disk)
Crash == /\ phase = "write" /\ hist # <<>> /\ ~Emit
         /\ at' \in 0..Len(Bytes) /\ phase' = "cut" /\ UNCHANGED <<disk, mem, hist, more>>
Continue == /\ phase = "cut" /\ phase' = "more" /\ more' \in More /\ UNCHANGED <<disk, mem, hist, at>>
Next == WriteOne \/ Crash \/ Continue
Spec == Init /\ [][Next]_vars

(* --------------------------- after the crash ---------------------------- *)
Ends == [i \in 0..Len(disk) |-> Len(EncFile(SubSeq(disk, 1, i)))]
(* complete segments *)
Whole(ends) == CHOOSE k \in 0..Len(disk) : ends[k] <= at /\ (k = Len(disk) \/ ends[k + 1] > at)
Left == SubSeq(Bytes, 1, at)
MetaLen(k) == IF disk[k].meta THEN Len(EncMeta(disk[k].objs, disk[k].be)) ELSE 0
Where(ends, k) ==
  LET into == at - ends[k]
  IN  IF into = 0 THEN "edge"
      ELSE IF into < LeadIn THEN "lead"
      ELSE IF into < LeadIn + MetaLen(k + 1) THEN "meta"
      ELSE "raw"

(* the index after opening, where it continues, and the bytes then *)
Recovered(ends, k, w) ==
  LET known == IF w = "raw" THEN k + 1 ELSE k
      F     == FoldTo(disk, known)
      pos   == CASE Mutant = "atend" -> at
                 [] Mutant = "base"  -> ends[k]
                 [] OTHER -> ends[known]
      ev    == Rebased(Ops[more], 7)
      new   == EncSeg(F, SegFor(F, ev))
      keep  == [i \in 1..pos |-> IF i <= at THEN Left[i] ELSE 0]
      rest  == IF pos + Len(new) < at THEN SubSeq(Left, pos + Len(new) + 1, at) ELSE <<>>
  IN  [ev |-> ev, pos |-> pos, known |-> known, bytes |-> keep \o new \o rest]

(* ------------------------------ properties ------------------------------ *)
Prefix0 == phase = "cut" =>
  \E d \in {DecFile(Left)} : \E e \in {Ends} :
    LET k == Whole(e)  F == FoldTo(disk, k)
    IN  Len(d.segs) = k /\ SameContent([Session EXCEPT !.objs = ObjsOf(F)], ObjsOf(Fold(SegsOf(d))))
Verdicts == phase = "cut" =>
  \E d \in {DecFile(Left)} : \E e \in {Ends} :
    LET w == Where(e, Whole(e))
    IN  /\ (w = "edge" => Verdict(d) = "ok")
        /\ (w = "lead" => Verdict(d) = "any")
        /\ (w = "meta" => Verdict(d) = "err")
        /\ (w = "raw"  => Verdict(d) = "ok")
Torn0(e, k, w) ==
  IF w # "raw" THEN EmptyFn ELSE TornState(Session, FoldTo(disk, k), disk[k + 1], at - (e[k + 1] - disk[k + 1].rawlen)).torn
Survives == phase = "more" =>
  \E e \in {Ends} : \E k \in {Whole(e)} : \E w \in {Where(e, k)} :
    w # "meta" =>
      \E rec \in {Recovered(e, k, w)} : \E d \in {DecFile(rec.bytes)} : \E G \in {Fold(SegsOf(d))} : \E tn \in {Torn0(e, k, w)} :
        LET F == FoldTo(disk, k)
        IN  /\ IsPfx(SubSeq(Left, 1, IF w = "lead" THEN e[k] ELSE at), rec.bytes)
            /\ d.last.st = "end" /\ G.err = ""
            /\ \A p \in DOMAIN F.objs :
                 /\ p \in DOMAIN G.objs
                 /\ SameData(F.objs[p].data, SubSeq(G.objs[p].data, 1, Len(F.objs[p].data)))
            /\ \A p \in DOMAIN tn :
                 LET old == Len(Obj([objs |-> ObjsOf(F)], p).data)
                 IN  /\ old < Len(G.objs[p].data) /\ G.objs[p].data[old + 1].n = tn[p].n
                     /\ RunsEq(RunsSlice(G.objs[p].data[old + 1].runs, 0, tn[p].k),
                               RunsSlice(tn[p].runs, 0, tn[p].k), Modulus(tn[p].t))
            /\ (rec.ev.e = "write" =>
                 \A c \in DOMAIN rec.ev.chs :
                   LET ds == G.objs[rec.ev.chs[c]].data
                   IN  SameData(<<ds[Len(ds)]>>, <<WritePiece(rec.ev, c)>>))
(* the same as a recorded execution: cut, lengths looked at, appended, closed, all bytes *)
LensSeen(S, F) == FoldLeft(LAMBDA s, p : Apply(s, [e |-> "len", path |-> p, r |-> DataLen(Obj([objs |-> ObjsOf(F)], p).data)]),
                           S, SetToSeq(DOMAIN F.objs))
Accepted == phase = "more" =>
  \E e \in {Ends} : \E k \in {Whole(e)} : \E w \in {Where(e, k)} :
    w # "meta" =>
      \E rec \in {Recovered(e, k, w)} :
        LET F    == FoldTo(disk, rec.known)
            s0   == [Session EXCEPT !.snap = [b |-> Bytes, dec |-> DecFile(Bytes)]]
            s1   == Apply(s0, [e |-> "cut", at |-> at, r |-> "ok"])
            s2   == IF w = "raw" THEN LensSeen(s1, F) ELSE s1
            s3   == Apply(s2, [e |-> "wopen", r |-> "ok"])
            new  == Len(rec.bytes) - rec.pos
            s4   == Apply(s3, Ok(rec.ev) @@ [w |-> <<<<rec.pos, new>>>>])
            s5   == Apply(s4, [e |-> "wdrop"])
        IN  Step(s5, [e |-> "bytes", full |-> TRUE, app |-> TRUE, b |-> rec.bytes]).ok

(* ------------------------------ generation ------------------------------ *)
Looked == <<Explore(<<"I16", "F64", "U8">>)>>
After(k) ==     \* k: position of the cut
  LET o == Ops[1 + (k % 6)]
  IN  Looked \o (IF k % 7 = 3 THEN <<>>
                 ELSE <<Op("wopen"), Rebased(o, 7), Op("wdrop")>> \o
                      (IF k % 2 = 0 THEN Looked ELSE <<>>) \o <<Op("open")>> \o Looked)
Script ==
  <<Fresh0, Op("wopen")>> \o hist \o <<Op("wdrop"), Snap @@ [mark |-> TRUE]>>
  \o FlattenSeq([k \in 1..(Len(Bytes) + 1) |-> <<[e |-> "cut", at |-> k - 1], [e |-> "len", path |-> CA], [e |-> "len", path |-> CB]>> \o After(k - 1)])
Told == Emit /\ phase = "write" /\ hist # <<>> => Gen(Script)
=============================================================================

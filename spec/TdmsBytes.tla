----------------------------- MODULE TdmsBytes ------------------------------
(***************************************************************************)
(* Segments as bytes: an encoder and a strict decoder.                     *)
(* Positions are 0-based file offsets; byte at offset p is b[p+1].         *)
(***************************************************************************)
EXTENDS TdmsFormat

Huge == -1                    \* an unsigned value of 2^30 or more
LeadIn == 28

(* ------------------------------ encoding ------------------------------ *)
RevSeq(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
LE32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256>>
U32(n, be) == IF be THEN RevSeq(LE32(n)) ELSE LE32(n)
U64(n, be) == IF be THEN <<0,0,0,0>> \o RevSeq(LE32(n)) ELSE LE32(n) \o <<0,0,0,0>>
FF32 == <<255,255,255,255>>
FF64 == FF32 \o FF32

EncStr(s, be) == U32(Len(s), be) \o s
EncVal(v, be) ==
  U32(TypeTable[v[1]].code, be) \o
  (IF v[1] = "Str" THEN EncStr(v[2], be) ELSE IF be THEN Swap(v[1], v[2]) ELSE v[2])
EncIx(ix, be) ==
  CASE ix[1] = "none" -> FF32
    [] ix[1] = "prev" -> U32(0, be)
    [] ix[1] = "raw"  -> U32(20, be) \o U32(TypeTable[ix[2]].code, be) \o U32(1, be) \o U64(ix[3], be)
    [] ix[1] = "str"  -> U32(28, be) \o U32(TypeTable[ix[2]].code, be) \o U32(1, be) \o U64(ix[3], be) \o U64(ix[4], be)
EncObj(o, be) ==
  EncStr(o.p, be) \o EncIx(o.ix, be) \o U32(Len(o.props), be)
  \o FlattenSeq([i \in 1..Len(o.props) |-> EncStr(o.props[i][1], be) \o EncVal(o.props[i][2], be)])
EncMeta(os, be) == U32(Len(os), be) \o FlattenSeq([i \in 1..Len(os) |-> EncObj(os[i], be)])

TocOf(seg) == (IF seg.meta THEN 2 ELSE 0) + (IF seg.new THEN 4 ELSE 0) + (IF seg.raw THEN 8 ELSE 0)
              + (IF seg.inter THEN 32 ELSE 0) + (IF seg.be THEN 64 ELSE 0)

(* the raw bytes of a token segment, given the formats of its active channels *)
RawTok(b, fmts, rawlen, inter, be) ==
  LET C   == Len(fmts)
      ns  == [d \in 1..C |-> fmts[d][2]]
      tot == SumTo(ns, C)
      chOf(i) == LET j == (i % tot)
                 IN  IF inter THEN (j % C) + 1
                     ELSE CHOOSE c \in 1..C : SumTo(ns, c - 1) <= j /\ j < SumTo(ns, c)
      cb  == SumTo([d \in 1..C |-> SizeOf(fmts[d][1]) * ns[d]], C)
      nch == IF cb = 0 THEN 0 ELSE rawlen \div cb
      body == FlattenSeq([i \in 1..(tot * nch) |-> TokBytes(fmts[chOf(i - 1)][1], b + i - 1, be)])
  IN  body \o [i \in 1..(rawlen - Len(body)) |-> 170]

EncSeg(F, seg) ==   \* F: format state before the segment
  LET m   == IF seg.meta THEN EncMeta(seg.objs, seg.be) ELSE <<>>
      F2  == AddObjects(IF seg.new THEN [F EXCEPT !.active = <<>>] ELSE F,
                        IF seg.meta THEN seg.objs ELSE <<>>)
      pad == [i \in 1..PadOf(seg) |-> 80]
      raw == IF ~seg.raw THEN <<>>
             ELSE IF seg.src[1] = "bytes" THEN SubSeq(seg.src[2], seg.src[3] + 1, seg.src[3] + seg.rawlen)
             ELSE RawTok(seg.src[2], [c \in 1..Len(F2.active) |-> F2.objs[F2.active[c]].fmt],
                         seg.rawlen, seg.inter, seg.be)
  IN  <<84, 68, 83, 109>> \o LE32(TocOf(seg)) \o U32(4713, seg.be)
      \o U64(Len(m) + Len(pad) + Len(raw), seg.be) \o U64(Len(m) + Len(pad), seg.be) \o m \o pad \o raw

RECURSIVE EncFrom(_, _, _)
EncFrom(F, segs, i) == IF i > Len(segs) THEN <<>>
                       ELSE EncSeg(F, segs[i]) \o EncFrom(AddSegment(F, segs[i]), segs, i + 1)
EncFile(segs) == EncFrom(FileInit, segs, 1)

(* ------------------------------ decoding ------------------------------ *)
At(b, p) == b[p + 1]
Bytes4(b, p, be) == IF be THEN <<At(b, p+3), At(b, p+2), At(b, p+1), At(b, p)>>
                    ELSE <<At(b, p), At(b, p+1), At(b, p+2), At(b, p+3)>>
Val4(q) == IF q[4] >= 64 THEN Huge ELSE q[1] + 256 * q[2] + 65536 * q[3] + 16777216 * q[4]
Get32(b, p, be) == Val4(Bytes4(b, p, be))
Bytes8(b, p, be) == IF be THEN Bytes4(b, p + 4, be) \o Bytes4(b, p, be)
                    ELSE Bytes4(b, p, be) \o Bytes4(b, p + 4, be)
Get64(b, p, be) == LET q == Bytes8(b, p, be)
                   IN  IF q[5] + q[6] + q[7] + q[8] > 0 THEN Huge ELSE Val4(SubSeq(q, 1, 4))
(* 2^64 - 28 or more: adding the lead-in overflows *)
Overflowing(b, p, be) == LET q == Bytes8(b, p, be)
                         IN  q[1] >= 228 /\ \A i \in 2..8 : q[i] = 255

(* bytes of a character still due: 0 none, 1..3 so many; 4..7 as 2, 2, 3, 3   *)
(* with the next one restricted (after 224, 237, 240, 244); -1 malformed      *)
Utf8Step(st, c) ==
  LET in(lo, hi) == c >= lo /\ c <= hi
  IN  CASE st = 0 -> IF c < 128 THEN 0 ELSE IF in(194, 223) THEN 1
                     ELSE IF c = 224 THEN 4 ELSE IF c = 237 THEN 5 ELSE IF in(224, 239) THEN 2
                     ELSE IF c = 240 THEN 6 ELSE IF c = 244 THEN 7 ELSE IF in(240, 244) THEN 3 ELSE -1
        [] st \in 1..3 -> IF in(128, 191) THEN st - 1 ELSE -1
        [] st = 4 -> IF in(160, 191) THEN 1 ELSE -1
        [] st = 5 -> IF in(128, 159) THEN 1 ELSE -1
        [] st = 6 -> IF in(144, 191) THEN 2 ELSE -1
        [] st = 7 -> IF in(128, 143) THEN 2 ELSE -1
        [] OTHER -> -1
Utf8Ok(s) == IF \A i \in DOMAIN s : s[i] < 128 THEN TRUE ELSE FoldLeft(Utf8Step, 0, s) = 0

CodeNames == { t \in TypeNames : TRUE }
TypeOfCode(c) == IF \E t \in CodeNames : TypeTable[t].code = c
                 THEN CHOOSE t \in CodeNames : TypeTable[t].code = c ELSE "?"

(* parse results: st is "ok", "short" (input ends), "err" (malformed), "gray" *)
R(st, p, v) == [st |-> st, p |-> p, v |-> v]

ParseStr(b, p, be) ==
  IF p + 4 > Len(b) THEN R("short", p, <<>>)
  ELSE LET n == Get32(b, p, be)
       IN  IF n = Huge \/ n > Len(b) - p - 4 THEN R("short", p, <<>>)
           ELSE LET s == SubSeq(b, p + 5, p + 4 + n)
                IN  R(IF Utf8Ok(s) THEN "ok" ELSE "err", p + 4 + n, s)

PropTypes == TypeNames \ {"Fixed"}
ParseVal(b, p, be) ==
  IF p + 4 > Len(b) THEN R("short", p, <<>>)
  ELSE LET t == TypeOfCode(Get32(b, p, be))
       IN  IF t \notin PropTypes THEN R("err", p, <<>>)
           ELSE IF t = "Str"
                THEN LET s == ParseStr(b, p + 4, be) IN R(s.st, s.p, <<"Str", s.v>>)
           ELSE LET w == SizeOf(t)
                IN  IF p + 4 + w > Len(b) THEN R("short", p, <<>>)
                    ELSE LET x == SubSeq(b, p + 5, p + 4 + w)
                         IN  R("ok", p + 4 + w, <<Reported(t), IF be THEN Swap(t, x) ELSE x>>)

RECURSIVE ParseProps(_, _, _, _, _)
ParseProps(b, p, be, k, acc) ==
  IF k = 0 THEN R("ok", p, acc)
  ELSE LET nm == ParseStr(b, p, be)
       IN  IF nm.st # "ok" THEN R(nm.st, nm.p, acc)
           ELSE LET v == ParseVal(b, nm.p, be)
                IN  IF v.st # "ok" THEN R(v.st, v.p, acc)
                    ELSE ParseProps(b, v.p, be, k - 1, Append(acc, <<nm.v, v.v>>))

(* raw data index *)
ParseIx(b, p, be) ==
  IF p + 4 > Len(b) THEN R("short", p, <<>>)
  ELSE LET q == Bytes4(b, p, be)
           n == Val4(q)
       IN  IF q = FF32 THEN R("ok", p + 4, <<"none">>)
           ELSE IF n = 0 THEN R("ok", p + 4, <<"prev">>)
           ELSE IF q[4] = 105 /\ q[3] \in {18, 19} THEN R("err", p, <<>>)      \* DAQmx
           ELSE IF p + 8 > Len(b) THEN R("short", p, <<>>)
           ELSE LET tq == Bytes4(b, p + 4, be)
                    t  == TypeOfCode(Val4(tq))
                IN  IF t = "?" /\ tq # FF32 THEN R("err", p, <<>>)
                    ELSE IF p + 20 + (IF t = "Str" THEN 8 ELSE 0) > Len(b) THEN R("short", p, <<>>)
                    ELSE LET dim == Get32(b, p + 8, be)
                             cnt == Get64(b, p + 12, be)
                             tot == IF t = "Str" THEN Get64(b, p + 20, be) ELSE 0
                             odd == \/ t \in {"?", "Void", "Fixed"} \/ dim # 1
                                    \/ cnt = Huge \/ tot = Huge \/ cnt > 100000
                                    \/ n # (IF t = "Str" THEN 28 ELSE 20)
                         IN  IF odd THEN R("gray", p + 20 + (IF t = "Str" THEN 8 ELSE 0), <<"raw", "I8", 0>>)
                             ELSE IF t = "Str" THEN R("ok", p + 28, <<"str", "Str", cnt, tot>>)
                             ELSE R("ok", p + 20, <<"raw", t, cnt>>)

(* v of the object list: [objs, gray] *)
RECURSIVE ParseObjs(_, _, _, _, _, _)
ParseObjs(b, p, be, k, acc, gray) ==
  IF k = 0 THEN R(IF gray THEN "gray" ELSE "ok", p, acc)
  ELSE LET nm == ParseStr(b, p, be)
       IN  IF nm.st # "ok" THEN R(nm.st, nm.p, acc)
           ELSE LET ix == ParseIx(b, nm.p, be)
                IN  IF ix.st \notin {"ok", "gray"} THEN R(ix.st, ix.p, acc)
                    ELSE IF ix.p + 4 > Len(b) THEN R("short", ix.p, acc)
                    ELSE LET np == Get32(b, ix.p, be)
                             ps == IF np = Huge \/ np > Len(b) THEN R("short", ix.p, <<>>)
                                   ELSE ParseProps(b, ix.p + 4, be, np, <<>>)
                         IN  IF ps.st # "ok" THEN R(ps.st, ps.p, acc)
                             ELSE ParseObjs(b, ps.p, be, k - 1,
                                    Append(acc, [p |-> nm.v, ix |-> ix.v, props |-> ps.v]),
                                    gray \/ ix.st = "gray" \/ \E i \in DOMAIN acc : acc[i].p = nm.v)

(* One segment at offset p.  st:                                           *)
(*   "ok"   complete and consistent         "end"  no bytes left           *)
(*   "tag"  fewer than 4 bytes left         "head" the lead-in is cut      *)
(*   "meta" the metadata is cut             "raw"  the raw data is cut     *)
(*   "err"  malformed                       "gray" consistent reading unclear *)
NoSeg == [new |-> FALSE]
D(st, seg, s, r, e) == [st |-> st, seg |-> seg, start |-> s, raw |-> r, end |-> e]
DecSeg(b, p) ==
  LET left == Len(b) - p
  IN IF left = 0 THEN D("end", NoSeg, p, p, p)
     ELSE IF left < 4 THEN D("tag", NoSeg, p, p, p)
     ELSE IF SubSeq(b, p + 1, p + 4) # <<84, 68, 83, 109>> THEN D("err", NoSeg, p, p, p)
     ELSE IF left < LeadIn THEN D("head", NoSeg, p, p, p)
     ELSE
     LET toc   == Bytes4(b, p + 4, FALSE)
         bit(k) == (toc[1] \div k) % 2 = 1
         be    == bit(64)
         next  == Get64(b, p + 12, be)
         raw   == Get64(b, p + 20, be)
         hm    == bit(2)
         cnt   == IF hm /\ left >= LeadIn + 4 THEN Get32(b, p + LeadIn, be) ELSE 0
         os    == IF ~hm THEN R("ok", p + LeadIn, <<>>)
                  ELSE IF left < LeadIn + 4 THEN R("short", p, <<>>)
                  ELSE IF cnt = Huge \/ cnt > Len(b) THEN R("short", p, <<>>)
                  ELSE ParseObjs(b, p + LeadIn + 4, be, cnt, <<>>, FALSE)
         seg   == [new |-> bit(4), inter |-> bit(32), be |-> be, meta |-> hm, raw |-> bit(8),
                   objs |-> os.v, pad |-> IF raw < 0 \/ os.p > p + LeadIn + raw THEN 0 ELSE p + LeadIn + raw - os.p,
                   rawlen |-> IF raw < 0 \/ next < raw THEN 0 ELSE next - raw,
                   src |-> <<"bytes", b, p + LeadIn + raw>>]
     IN IF os.st = "err" THEN D("err", seg, p, p, p)
        ELSE IF os.st = "short" THEN D("meta", seg, p, p, p)
        ELSE IF Overflowing(b, p + 12, be) THEN D("err", seg, p, p, p)
        ELSE IF bit(8) /\ next # Huge /\ (raw = Huge \/ raw > next) THEN D("err", seg, p, p, p)
        ELSE IF os.st = "gray" \/ next = Huge \/ raw = Huge \/ raw > next
                \/ os.p > p + LeadIn + raw \/ (~bit(8) /\ next # raw) \/ bit(128)
             THEN D("gray", seg, p, p, p)
        ELSE D(IF p + LeadIn + next > Len(b) THEN "raw" ELSE "ok", seg,
               p, p + LeadIn + raw, p + LeadIn + next)

RECURSIVE DecFrom(_, _, _)
DecFrom(b, p, acc) ==
  LET d == DecSeg(b, p)
  IN  IF d.st = "ok" THEN DecFrom(b, d.end, Append(acc, d)) ELSE [segs |-> acc, last |-> d]
(* all complete segments, and what follows them *)
DecFile(b) == DecFrom(b, 0, <<>>)
SegsOf(dec) == [i \in 1..Len(dec.segs) |-> dec.segs[i].seg]
=============================================================================

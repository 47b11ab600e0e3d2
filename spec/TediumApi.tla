----------------------------- MODULE TediumApi ------------------------------
(***************************************************************************)
(* The observable behaviour of the library: the abstract state of a file   *)
(* session, and for every API call what it may return and how it changes   *)
(* the state.  Step(S, ev) is used both to validate recorded executions    *)
(* (TediumTrace) and to compute the expected results of generated ones.    *)
(*                                                                         *)
(* An event is a record with field e naming the call, its arguments, and   *)
(* its observed result (r, out, ...).  Optional fields:                    *)
(*   w   byte ranges <<offset, length>> written to the stream by the call  *)
(*   rd  byte ranges read from the stream by the call                      *)
(*   f   TRUE when the stream reported an error during the call            *)
(***************************************************************************)
EXTENDS TdmsBytes, TdmsPaths

(* objs  path |-> [props, data]        torn  path |-> [t, n, runs, k]        *)
(* maybe objects only known to a torn segment    seen  observed lengths      *)
(* alt   path |-> properties including those of a torn segment               *)
(* loose content unknown: nothing more is checked until the next file        *)
(* was   the bytes handed to open, which must stay as they are until a write *)
(* phys  where the next byte must be written (-1: anywhere from min on)      *)
Session == [objs |-> EmptyFn, torn |-> EmptyFn, maybe |-> {}, seen |-> EmptyFn, alt |-> EmptyFn,
            loose |-> FALSE, closed |-> FALSE, wr |-> FALSE, phys |-> 0, min |-> 0, bytes |-> <<>>,
            lay |-> <<>>, failed |-> FALSE, was |-> <<>>,
            snap |-> [b |-> <<>>, dec |-> [segs |-> <<>>]]]

Has(ev, k) == k \in DOMAIN ev
Good(s) == [ok |-> TRUE, s |-> s, why |-> ""]
Fail(s, why) == [ok |-> FALSE, s |-> s, why |-> why]
Check(s, cond, why) == IF cond THEN Good(s) ELSE Fail(s, why)

Strip(o) == [props |-> o.props, data |-> o.data]
ObjsOf(F) == [p \in DOMAIN F.objs |-> Strip(F.objs[p])]
Obj(S, p) == IF p \in DOMAIN S.objs THEN S.objs[p] ELSE [props |-> EmptyFn, data |-> <<>>]

(* ------------------------------ samples ------------------------------- *)
(* the stored samples from .. from+n-1, piece by piece *)
Sel(data, from, n) ==
  LET take(acc, d) ==
        LET lo == Max2(from - acc[1], 0)
            m  == Min2(d.n - lo, n - acc[3])
        IN  IF m <= 0 THEN <<acc[1] + d.n, acc[2], acc[3]>>
            ELSE <<acc[1] + d.n,
                   Append(acc[2], [d EXCEPT !.n = m, !.runs = IF d.bad THEN <<>> ELSE RunsSlice(d.runs, lo, m)]),
                   acc[3] + m>>
  IN  FoldLeft(take, <<0, <<>>, 0>>, data)[2]

Cell(r, k) == <<IF r[1] < 0 THEN r[1] ELSE r[1] + k * r[2], 0, 1>>
Cells(rs) == FlattenSeq([i \in 1..Len(rs) |-> [k \in 1..rs[i][3] |-> Cell(rs[i], k - 1)]])
AsRead(req, pc) == IF req = "Bool" /\ pc.t = "U8"
                   THEN LET x == TLCEval(Cells(pc.runs))
                        IN  [k \in 1..Len(x) |-> <<ReadTok(req, pc.t, x[k][1]), 0, 1>>]
                   ELSE pc.runs
AllRuns(req, sel) == FlattenSeq([i \in 1..Len(sel) |-> AsRead(req, sel[i])])

(* what a buffer of n elements holds after a successful read *)
BufferOf(sel, req, n) ==
  LET got == DataLen(sel)
  IN  AllRuns(req, sel) \o <<<<Untouched, 0, n - got>>>>

(* cells beyond the complete data of a torn channel: untouched or the truth *)
TornOk(tn, req, cells, from) ==
  \E want \in { IF tn.t \in Compatible(req)
                THEN Cells(AsRead(req, [t |-> tn.t, runs |-> RunsSlice(tn.runs, from, Len(cells))]))
                ELSE <<>> } :
     \A i \in 1..Len(cells) :
        \/ cells[i][1] = Untouched
        \/ i <= Len(want) /\ RunEq(cells[i], want[i], 1, Modulus(req))

(* -------------------- becoming definite after a crash ------------------ *)
(* Appending after a torn segment fixes the length that was reported: the    *)
(* samples stored before the cut stay, the lost ones may hold anything.      *)
TornPieces(S, p) ==
  LET tn  == S.torn[p]
      add == Max2(S.seen[p] - DataLen(Obj(S, p).data), 0)
      k   == Min2(tn.k, add)
      pc(m, rs) == [t |-> tn.t, n |-> m, runs |-> rs, bad |-> FALSE, s |-> 0]
  IN  (IF k > 0 THEN <<pc(k, RunsSlice(tn.runs, 0, k))>> ELSE <<>>)
      \o (IF add > k THEN <<pc(add - k, <<<<Wild, 0, add - k>>>>)>> ELSE <<>>)
Resolve(S) ==
  IF DOMAIN S.torn = {} /\ S.maybe = {} THEN S
  ELSE IF ~(DOMAIN S.torn \cup S.maybe) \subseteq DOMAIN S.seen THEN [S EXCEPT !.loose = TRUE]
  ELSE LET shown == { p \in S.maybe : S.seen[p] >= 0 }
           ps    == DOMAIN S.objs \cup shown
       IN  [S EXCEPT
             !.objs  = TLCEval([p \in ps |-> [props |-> Obj(S, p).props,
                          data |-> Obj(S, p).data \o
                                   (IF p \in DOMAIN S.torn THEN TornPieces(S, p) ELSE <<>>)]]),
             !.torn  = EmptyFn, !.maybe = {}, !.seen = EmptyFn]

(* ------------------------------ writing ------------------------------- *)
(* ev: chs, ty, base, n (values in all), lay ("C" or "I") *)
Refused(ev) == \/ ev.chs = <<>> \/ ev.ty = "Str" \/ ev.n % Len(ev.chs) # 0
WriteRuns(ev, c) ==
  LET C == Len(ev.chs)  k == ev.n \div C
  IN  IF k = 0 THEN <<>>
      ELSE IF ev.lay = "I" THEN <<<<ev.base + c - 1, C, k>>>>
      ELSE <<<<ev.base + (c - 1) * k, 1, k>>>>
WritePiece(ev, c) == [t |-> ev.ty, n |-> ev.n \div Len(ev.chs), runs |-> WriteRuns(ev, c), bad |-> FALSE, s |-> 0]
ApplyWrite(objs, ev) ==
  LET chs == { ev.chs[c] : c \in DOMAIN ev.chs }
      idx(p) == CHOOSE c \in DOMAIN ev.chs : ev.chs[c] = p
      old(p) == IF p \in DOMAIN objs THEN objs[p] ELSE [props |-> EmptyFn, data |-> <<>>]
      add(p) == LET pc == WritePiece(ev, idx(p)) IN IF pc.n = 0 THEN <<>> ELSE <<pc>>
  IN  TLCEval([p \in DOMAIN objs \cup chs |->
         IF p \in chs THEN [old(p) EXCEPT !.data = @ \o add(p)] ELSE objs[p]])
ApplyProps(objs, ev) ==
  LET old == IF ev.path \in DOMAIN objs THEN objs[ev.path] ELSE [props |-> EmptyFn, data |-> <<>>]
  IN  Put(objs, ev.path, [old EXCEPT !.props = PutProps(@, ev.kv)])

Faulty(ev) == Has(ev, "f")
StepWrite(S0, ev) ==
  IF Faulty(ev) THEN Check([S0 EXCEPT !.failed = TRUE], ev.r # "ok", "stream error not reported by write")
  ELSE IF Refused(ev) THEN Check(S0, ev.r # "ok", "write must be refused")
  ELSE LET S == Resolve(S0)
       IN  IF ev.r # "ok" THEN Fail(S, "valid write failed: " \o ev.r)
           ELSE Good([S EXCEPT !.objs = ApplyWrite(@, ev)])
StepProps(S0, ev) ==
  IF Faulty(ev) THEN Check([S0 EXCEPT !.failed = TRUE], ev.r # "ok", "stream error not reported by write_properties")
  ELSE LET S == Resolve(S0)
       IN  IF ev.r # "ok" THEN Fail(S, "valid property write failed: " \o ev.r)
           ELSE Good([S EXCEPT !.objs = ApplyProps(@, ev),
                               !.alt = IF ev.path \in DOMAIN @ THEN [@ EXCEPT ![ev.path] = PutProps(@, ev.kv)] ELSE @])
StepSync(S, ev) ==
  IF Faulty(ev) THEN Check([S EXCEPT !.failed = TRUE], ev.r # "ok", "stream error not reported by sync")
  ELSE Check(S, ev.r = "ok", "sync failed: " \o ev.r)

(* ------------------------------ reading ------------------------------- *)
StepRead(S, ev) ==
  LET C      == Len(ev.chs)
      known(p) == p \in DOMAIN S.objs
      missing == \E c \in 1..C : ~known(ev.chs[c]) /\ ev.chs[c] \notin S.maybe
      len(p)  == DataLen(Obj(S, p).data)
      sels    == TLCEval([c \in 1..C |-> Sel(Obj(S, ev.chs[c]).data, ev.from, ev.lens[c])])
      wrong   == \E c \in 1..C : \E i \in DOMAIN sels[c] :
                    ~sels[c][i].bad /\ sels[c][i].t \notin Compatible(ev.ty)
      bad     == \E c \in 1..C : \E i \in DOMAIN sels[c] : sels[c][i].bad
      text(p) == \E i \in DOMAIN Obj(S, p).data : Obj(S, p).data[i].bad
      intorn(c) == /\ ev.chs[c] \in DOMAIN S.torn \cup S.maybe /\ ev.lens[c] > 0
                   /\ ev.from + ev.lens[c] > len(ev.chs[c])
      exact(c) == Min2(Max2(len(ev.chs[c]) - ev.from, 0), ev.lens[c])
      bufOk(c) ==
        IF ~intorn(c)
        THEN RunsEq(BufferOf(sels[c], ev.ty, ev.lens[c]), ev.out[c], Modulus(ev.ty))
        ELSE /\ RunsEq(AllRuns(ev.ty, sels[c]), RunsSlice(ev.out[c], 0, exact(c)), Modulus(ev.ty))
             /\ RunsLen(ev.out[c]) = ev.lens[c]
             /\ LET cs   == SubSeq(Cells(ev.out[c]), exact(c) + 1, ev.lens[c])
                    skip == Max2(ev.from - len(ev.chs[c]), 0)
                    (* success promises every sample of the reported length *)
                    due  == IF ev.chs[c] \in DOMAIN S.seen
                            THEN Min2(Len(cs), S.seen[ev.chs[c]] - len(ev.chs[c]) - skip) ELSE 0
                IN  /\ \A i \in 1..due : cs[i][1] # Untouched
                    /\ IF ev.chs[c] \in DOMAIN S.torn
                       THEN TornOk(S.torn[ev.chs[c]], ev.ty, cs, skip)
                       ELSE \A i \in DOMAIN cs : cs[i][1] = Untouched
  IN  IF Faulty(ev) THEN Check(S, ev.r # "ok", "stream error not reported by read")
      ELSE IF missing THEN Check(S, ev.r = "MissingObject", "read of an unknown channel: " \o ev.r)
      ELSE IF wrong \/ bad
           THEN Check(S, \/ (ev.r = "UnsupportedType" /\ \E c \in 1..C : text(ev.chs[c]))
                         \/ (wrong /\ ev.r = "DataTypeMismatch")
                         \/ (bad /\ ev.r # "ok")
                         \/ (ev.r # "ok" /\ \E c \in 1..C : intorn(c)), "incompatible read: " \o ev.r)
      (* text samples cannot be read, nor can a channel next to them: how far the
         refusal reaches is left open *)
      ELSE IF ev.r = "UnsupportedType" /\ \E c \in 1..C : text(ev.chs[c]) THEN Good(S)
      ELSE IF ev.r # "ok" THEN Check(S, \E c \in 1..C : intorn(c), "read failed: " \o ev.r)
      ELSE IF \A c \in 1..C : bufOk(c) THEN Good(S)
      ELSE LET c == CHOOSE c \in 1..C : ~bufOk(c)
           IN  Fail(S, "wrong samples for channel " \o ToString(c) \o ": expected "
                 \o ToString(BufferOf(sels[c], ev.ty, ev.lens[c]))
                 \o " got " \o ToString(ev.out[c]))

StepLen(S, ev) ==
  LET p == ev.path
      x == DataLen(Obj(S, p).data)
  IN  IF p \in DOMAIN S.torn \cup S.maybe
      THEN LET n == IF p \in DOMAIN S.torn THEN S.torn[p].n ELSE 0
           IN  Check([S EXCEPT !.seen = Put(@, p, ev.r)],
                     (ev.r >= x /\ ev.r <= x + n) \/ (ev.r = -1 /\ p \in S.maybe), "length of a torn channel")
      ELSE LET want == IF p \in DOMAIN S.objs THEN x ELSE -1
           IN  Check(S, ev.r = want, "length: expected " \o ToString(want) \o " got " \o ToString(ev.r))

(* ------------------------------ listings ------------------------------ *)
NoDup(seq) == Cardinality(ToSet(seq)) = Len(seq)
Groups(ps) == UNION { GroupIn(p) : p \in ps }
ChannelsOf(ps, g) == { p \in ps : LET r == Parse(p) IN r.ok /\ Len(r.names) = 2 /\ r.names[1] = g }
Listed(S, out, must, may) ==
  /\ NoDup(out) /\ must \subseteq ToSet(out) /\ ToSet(out) \subseteq (must \cup may)
StepGroups(S, ev) ==
  Check(S, Listed(S, ev.out, Groups(DOMAIN S.objs), Groups(S.maybe)), "groups: expected "
        \o ToString(Groups(DOMAIN S.objs)) \o " got " \o ToString(ev.out))
StepChans(S, ev) ==
  Check(S, Listed(S, ev.out, ChannelsOf(DOMAIN S.objs, ev.g), ChannelsOf(S.maybe, ev.g)), "channels: expected "
        \o ToString(ChannelsOf(DOMAIN S.objs, ev.g)) \o " got " \o ToString(ev.out))

(* ----------------------------- properties ----------------------------- *)
(* r: <<"missing">>, <<"none">> or <<"val", value>> *)
(* the sets of properties an object may have now *)
PropsOf(S, p) == { Obj(S, p).props } \cup (IF p \in DOMAIN S.alt THEN { S.alt[p] } ELSE {})
Exists(S, p)  == p \in DOMAIN S.objs
StepProp(S, ev) ==
  LET val(ps) == IF ev.name \in DOMAIN ps THEN <<"val", ps[ev.name]>> ELSE <<"none">>
      can     == { val(ps) : ps \in PropsOf(S, ev.path) }
      want    == IF Exists(S, ev.path) THEN can
                 ELSE {<<"missing">>} \cup (IF ev.path \in S.maybe THEN can ELSE {})
  IN  Check(S, ev.r \in want, "property: expected " \o ToString(want) \o " got " \o ToString(ev.r))
(* r: "missing" or "ok", with out a sequence of <<name, value>> *)
StepAllProps(S, ev) ==
  LET p    == ev.path
      same(ps) == /\ ev.r = "ok" /\ Len(ev.out) = Cardinality(DOMAIN ps)
                  /\ \A i \in DOMAIN ev.out : ev.out[i][1] \in DOMAIN ps /\ ps[ev.out[i][1]] = ev.out[i][2]
                  /\ Cardinality({ ev.out[i][1] : i \in DOMAIN ev.out }) = Len(ev.out)
      fits == { ps \in PropsOf(S, p) : same(ps) }
      S1   == IF p \in S.maybe /\ p \notin DOMAIN S.torn
              THEN [S EXCEPT !.seen = Put(@, p, IF ev.r = "missing" THEN -1 ELSE 0)] ELSE S
      (* a torn segment's properties either show or do not: remember which *)
      S2   == IF Exists(S, p) /\ Cardinality(fits) = 1 /\ p \in DOMAIN S.alt
              THEN LET ps == CHOOSE ps \in fits : TRUE
                   IN  [S EXCEPT !.objs[p].props = ps, !.alt[p] = ps] ELSE S1
  IN  IF Exists(S, p)
      THEN Check(S2, fits # {}, "properties: expected " \o ToString(PropsOf(S, p)) \o " got " \o ToString(ev.out))
      ELSE Check(S1, ev.r = "missing" \/ (p \in S.maybe /\ fits # {}), "properties of an unknown object")
(* conversion of a property value to a Rust type *)
(* Time stamps: 8 bytes of fractions and 8 of seconds since 1904, little     *)
(* endian.  Calendar dates: seconds since 1970 (8 bytes) and nanoseconds.     *)
(* The type of the dates is the one of a dependency, whose arithmetic is on   *)
(* floating point numbers: nanoseconds are compared up to its precision.       *)
UnixEpoch == <<128, 176, 37, 124, 0, 0, 0, 0>>            \* 2082844800
Add64(a, b) == \* modulo 2^64
  FoldLeft(LAMBDA x, i : LET t == a[i] + b[i] + x[2] IN <<Append(x[1], t % 256), t \div 256>>, <<<<>>, 0>>, [i \in 1..8 |-> i])[1]
FracNanos(f) == \* fractions (8 bytes) in nanoseconds, at most 8 too low
  f[8] * 3906250 + (f[7] * 3906250) \div 256 + (f[6] * 3906250) \div 65536
  + ((f[5] * 3906250) \div 65536) \div 256 + ((f[4] * 3906250) \div 65536) \div 65536
Val32(b) == b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * b[4]
Dist(a, b) == IF a < b THEN b - a ELSE a - b
(* the moments d (since 1970) and t (since 1904) differ by at most slack ns  *)
SameMoment(d, t, slack) ==
  LET ds == TLCEval(Add64(SubSeq(d, 1, 8), UnixEpoch))  ts == SubSeq(t, 9, 16)
      one == <<1, 0, 0, 0, 0, 0, 0, 0>>
      dn == Val32(SubSeq(d, 9, 12))  tn == FracNanos(SubSeq(t, 1, 8))
  IN  \/ ds = ts /\ Dist(dn, tn) <= slack
      \/ ds = Add64(ts, one) /\ dn + (1000000000 - tn) <= slack
      \/ ts = Add64(ds, one) /\ tn + (1000000000 - dn) <= slack
FitsIn(t, k) == \* seconds that fit in the k low bytes
  \/ t[8 + k] < 128  /\ \A i \in (9 + k)..16 : t[i] = 0
  \/ t[8 + k] >= 128 /\ \A i \in (9 + k)..16 : t[i] = 255
ToDate(ev) ==
  LET t == ev.v[2]
  IN  CASE ~FitsIn(t, 6) -> ev.r = "ChronoDateTimeConversionFailed"
        [] ev.r = "ok"  -> SameMoment(ev.got, t, 16)
        [] OTHER        -> \* years past the calendar; fractions the floating point takes for a full second
                           /\ ev.r = "ChronoDateTimeConversionFailed"
                           /\ ~FitsIn(t, 5) \/ FracNanos(t) >= 999999980
StepConv(S, ev) ==
  Check(S, CASE ev.v[1] = "Chrono" -> ev.r = "ok" /\ SameMoment(ev.v[2], ev.got, 4000)
             [] ev.want = "Chrono" /\ ev.v[1] = "Time" -> ToDate(ev)
             [] ev.want = ev.v[1] -> ev.r = "ok" /\ ev.got = ev.v[2]
             [] OTHER -> ev.r = "DataTypeMismatch",
        "conversion of " \o ToString(ev.v) \o " to " \o ev.want \o ": " \o ev.r)

(* ----------------------------- whole files ---------------------------- *)
RECURSIVE Merge(_, _, _)
(* adjacent pieces of one type joined: sequence of <<type, readable, runs>> *)
Merge(data, i, acc) ==
  IF i > Len(data) THEN acc
  ELSE LET d == data[i]  k == Len(acc)
       IN  IF k > 0 /\ acc[k][1] = d.t /\ acc[k][2] = d.bad
           THEN Merge(data, i + 1, [acc EXCEPT ![k] = <<d.t, d.bad, acc[k][3] \o d.runs>>])
           ELSE Merge(data, i + 1, Append(acc, <<d.t, d.bad, d.runs>>))
SameData(a, b) ==
  LET x == TLCEval(Merge(a, 1, <<>>))  y == TLCEval(Merge(b, 1, <<>>))
  IN  /\ Len(x) = Len(y)
      /\ \A i \in DOMAIN x : x[i][1] = y[i][1] /\ x[i][2] = y[i][2] /\ RunsEq(x[i][3], y[i][3], Modulus(x[i][1]))
SameContent(S, b) ==
  /\ DOMAIN S.objs = DOMAIN b
  /\ \A p \in DOMAIN b : b[p].props \in PropsOf(S, p) /\ SameData(S.objs[p].data, b[p].data)

(* metadata and samples adjoin, in the segments the library itself wrote *)
Tight(S, d) == d.seg.pad = 0 \/ (d.start < S.min /\ S.min > 0)
VersionOk(b, d) == LET v == Get32(b, d.start + 8, d.seg.be) IN v \in {4712, 4713}
IsPfx(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]

(* A snapshot of the stream.  full: everything acknowledged must be there;  *)
(* app: nothing but additions since the previous snapshot.                   *)
StepBytes(S, ev) ==
  LET dec == DecFile(ev.b)
      F   == Fold(SegsOf(dec))
      S1  == [S EXCEPT !.bytes = ev.b, !.phys = IF @ = -1 THEN @ ELSE Len(ev.b)]
      S2  == IF Has(ev, "mark") THEN [S1 EXCEPT !.snap = [b |-> ev.b, dec |-> dec]] ELSE S1
  IN  IF ev.app /\ ~IsPfx(S.bytes, ev.b) THEN Fail(S, "stored bytes changed")
      ELSE IF ~ev.full THEN Good([S EXCEPT !.bytes = IF ev.app THEN ev.b ELSE @])
      ELSE IF dec.last.st # "end" THEN Fail(S, "malformed file: " \o dec.last.st \o " at " \o ToString(dec.last.start))
      ELSE IF F.err # "" THEN Fail(S, "malformed file: " \o F.err)
      ELSE IF \E i \in DOMAIN dec.segs : ~VersionOk(ev.b, dec.segs[i]) THEN Fail(S, "version field")
      ELSE IF \E i \in DOMAIN dec.segs : ~Tight(S, dec.segs[i]) THEN Fail(S, "unused bytes in a segment")
      ELSE Check(S2, SameContent(S, ObjsOf(F)), "stored content differs: session "
                 \o ToString(S.objs) \o " file " \o ToString(ObjsOf(F)))

(* Opening (successfully or not) and reading leave every byte as it was.      *)
StepStill(S, ev) == Check(S, ev.b = S.was, "opening or reading changed the file")

(* what a decoded file must look like when opened: "ok", "err" or "any" *)
Verdict(dec) ==
  LET F == Fold(SegsOf(dec))
      T == AddSegment(F, dec.last.seg)
  IN  IF F.err # "" \/ dec.last.st \in {"err", "meta"} THEN "err"
      ELSE IF dec.last.st = "end" THEN "ok"
      ELSE IF dec.last.st = "raw" THEN (IF T.err # "" THEN "err" ELSE IF dec.last.seg.raw THEN "ok" ELSE "any")
      ELSE "any"

(* number of samples of channel c whose bytes lie within the first `got` raw bytes *)
StoredCount(fmts, c, nch, inter, got) ==
  LET C   == Len(fmts)
      w   == SizeOf(fmts[c][1])
      n   == fmts[c][2]
      ws  == [d \in 1..C |-> SizeOf(fmts[d][1])]
      cs  == [d \in 1..C |-> SizeOf(fmts[d][1]) * fmts[d][2]]
      off == IF inter THEN SumTo(ws, c - 1) ELSE SumTo(cs, c - 1)
      endOf(i) == w + (IF inter THEN i * SumTo(ws, C) + off
                       ELSE (i \div n) * SumTo(cs, C) + off + (i % n) * w)
  IN  Cardinality({ i \in 0..(n * nch - 1) : endOf(i) <= got })

(* the state after opening a file whose last segment has only `got` raw bytes *)
TornState(S, F, seg, got) ==
  LET T    == AddSegment(F, seg)
      C    == Len(T.active)
      fmts == [c \in 1..C |-> T.objs[T.active[c]].fmt]
      cb   == ChunkBytes(T)
      nch  == IF cb = 0 THEN 0 ELSE seg.rawlen \div cb
      hit  == { p \in ToSet(T.active) : T.objs[p].data # <<>> /\ T.objs[p].data[Len(T.objs[p].data)].s = F.nseg }
      last(p) == T.objs[p].data[Len(T.objs[p].data)]
      idx(p)  == CHOOSE c \in 1..C : T.active[c] = p
  IN  [S EXCEPT
        !.objs  = ObjsOf(F),
        !.torn  = [p \in hit |-> [t |-> last(p).t, n |-> last(p).n, runs |-> last(p).runs,
                                  k |-> StoredCount(fmts, idx(p), nch, seg.inter, got)]],
        !.maybe = DOMAIN T.objs \ DOMAIN F.objs,
        !.alt   = [p \in { q \in DOMAIN T.objs : \E i \in DOMAIN seg.objs : seg.objs[i].p = q /\ seg.objs[i].props # <<>> }
                      |-> T.objs[p].props],
        !.seen  = EmptyFn, !.wr = FALSE, !.phys = -1]

(* opening bytes nobody else vouches for *)
StepForeign(S0, ev) ==
  LET dec == DecFile(ev.b)
      v   == Verdict(dec)
      F   == Fold(SegsOf(dec))
      S   == [Session EXCEPT !.bytes = ev.b, !.was = ev.b, !.phys = Len(ev.b), !.min = dec.last.start]
      ok  == ev.r = "ok"
  IN  IF v = "err" THEN Check([S EXCEPT !.closed = TRUE], ~ok, "malformed file was opened (" \o dec.last.st \o F.err \o ")")
      ELSE IF v = "ok" /\ ~ok THEN Fail(S, "well-formed file refused: " \o ev.r)
      ELSE IF ~ok THEN Good([S EXCEPT !.closed = TRUE])
      ELSE CASE dec.last.st = "end" -> Good([S EXCEPT !.objs = ObjsOf(F)])
             [] dec.last.st \in {"tag", "head"} -> Good([S EXCEPT !.objs = ObjsOf(F), !.phys = -1])
             [] dec.last.st = "raw" /\ v = "ok" ->
                  IF \E p \in DOMAIN AddSegment(F, dec.last.seg).objs :
                           SizeOf((AddSegment(F, dec.last.seg).objs[p].fmt \o <<"U8">>)[1]) = 0
                  THEN Good([S EXCEPT !.loose = TRUE])
                  ELSE Good(TornState(S, F, dec.last.seg, Max2(0, Len(ev.b) - dec.last.raw)))
             [] OTHER -> Good([S EXCEPT !.loose = TRUE])

(* opening segments described structurally; len is the size of the encoding *)
Layout(segs) ==
  LET add(acc, g) ==
        LET m   == IF g.meta THEN Len(EncMeta(g.objs, g.be)) ELSE 0
            raw == acc[2] + LeadIn + m + PadOf(g)
            end == raw + (IF g.raw THEN g.rawlen ELSE 0)
        IN  <<Append(acc[1], [start |-> acc[2], raw |-> raw, end |-> end]), end>>
  IN  FoldLeft(add, <<<<>>, 0>>, segs)[1]
StepSegs(S0, ev) ==
  LET F   == Fold(ev.segs)
      lay == IF Has(ev, "len") THEN Layout(ev.segs) ELSE <<>>
      S   == [Session EXCEPT !.objs = ObjsOf(F), !.lay = lay, !.phys = -1,
                             !.min = IF lay = <<>> THEN 0 ELSE lay[Len(lay)].end,
                             !.closed = (F.err # "")]
  IN  IF lay # <<>> /\ lay[Len(lay)].end # ev.len THEN Fail(S, "harness: encoded size")
      ELSE IF F.err # "" THEN Check(S, ev.r # "ok", "malformed segments opened: " \o F.err)
      ELSE Check(S, ev.r = "ok", "well-formed segments refused: " \o ev.r)

(* the bytes of the marked snapshot, cut at `at`, opened as a new file *)
StepCut(S, ev) ==
  LET ds   == S.snap.dec.segs
      k    == Cardinality({ i \in DOMAIN ds : ds[i].end <= ev.at })
      F    == FoldTo(SegsOf(S.snap.dec), k)
      base == IF k = 0 THEN 0 ELSE ds[k].end
      B    == [Session EXCEPT !.objs = ObjsOf(F), !.bytes = SubSeq(S.snap.b, 1, base), !.min = base,
                              !.phys = IF base = ev.at THEN base ELSE -1, !.snap = S.snap,
                              !.was = SubSeq(S.snap.b, 1, ev.at)]
      ok   == ev.r = "ok"
      told == k < Len(ds) /\ ev.at >= ds[k + 1].raw - ds[k + 1].seg.pad
  IN  IF base = ev.at THEN Check(B, ok, "cut at a segment boundary refused: " \o ev.r)
      ELSE IF told THEN
           IF ok THEN Good(TornState(B, F, ds[k + 1].seg, Max2(0, ev.at - ds[k + 1].raw)))
           ELSE Check([B EXCEPT !.closed = TRUE], ev.at <= ds[k + 1].raw \/ ~ds[k + 1].seg.raw, "cut within samples refused: " \o ev.r)
      ELSE Good([B EXCEPT !.closed = ~ok])

(* ----------------------------- stream use ----------------------------- *)
RECURSIVE WritesOk(_, _, _, _)
WritesOk(w, i, phys, min) ==      \* the new end, or -2 when a write is out of place
  IF i > Len(w) THEN phys
  ELSE IF phys = -1 THEN (IF w[i][1] >= min THEN WritesOk(w, i + 1, w[i][1] + w[i][2], min) ELSE -2)
  ELSE IF w[i][1] = phys THEN WritesOk(w, i + 1, phys + w[i][2], min) ELSE -2

Writers == {"write", "props", "sync", "wdrop", "create"}
Overlap(r, a, b) == Max2(0, Min2(r[1] + r[2], b) - Max2(r[1], a))
Fetched(rd, a, b) == SumTo([i \in 1..Len(rd) |-> Overlap(rd[i], a, b)], Len(rd))
(* read-ahead allowed into the samples of a segment that is not needed *)
Slack == 131072
NeededSegs(S, ev) ==
  UNION { LET sel == TLCEval(Sel(Obj(S, ev.chs[c]).data, ev.from, ev.lens[c]))
          IN  { sel[i].s + 1 : i \in DOMAIN sel } : c \in DOMAIN ev.chs }
ReadsOk(S, ev) ==
  LET need == TLCEval(IF ev.e = "read" THEN NeededSegs(S, ev) ELSE {})
  IN  \A i \in DOMAIN S.lay : i \in need \/ Fetched(ev.rd, S.lay[i].raw, S.lay[i].end) <= Slack

WithStream(S, ev, res) ==
  IF ~res.ok THEN res
  ELSE IF Has(ev, "w") /\ ev.e \notin Writers THEN Fail(S, "the stream was modified by " \o ev.e)
  ELSE IF Has(ev, "w") /\ ~res.s.failed /\ WritesOk(ev.w, 1, S.phys, S.min) = -2
       THEN Fail(S, "written out of place: " \o ToString(ev.w) \o " expected at " \o ToString(<<S.phys, S.min>>))
  ELSE IF Has(ev, "rd") /\ ~ReadsOk(res.s, ev) THEN Fail(S, "fetched samples that are not needed: " \o ToString(ev.rd))
  ELSE IF Has(ev, "w") /\ ev.e # "create"
       THEN Good([res.s EXCEPT !.phys = IF res.s.failed THEN -1 ELSE WritesOk(ev.w, 1, S.phys, S.min)])
  ELSE res

(* ------------------------------- paths -------------------------------- *)
(* a path built from names: ev.g (and ev.c) are the names                   *)
NoQuote(s) == \A i \in DOMAIN s : s[i] # Quote
StepMkPath(S, ev) ==
  LET want == CASE ev.kind = "file" -> FilePath
                [] ev.kind = "group" -> GroupPath(ev.g)
                [] OTHER -> ChannelPathOf(ev.g, ev.c)
      names == CASE ev.kind = "file" -> <<>>
                 [] ev.kind = "group" -> <<Escape(ev.g)>>
                 [] OTHER -> <<Escape(ev.g), Escape(ev.c)>>
  IN  Check(S, /\ (NoQuote(ev.g) /\ NoQuote(ev.c) => ev.text = want)
               /\ (NoQuote(ev.g) /\ NoQuote(ev.c) => ev.names = names)
               /\ ev.back /\ Parse(ev.text).ok /\ Parse(ev.text).names = ev.names,
            "path built from names: " \o ToString(ev))
(* any text parsed as a path: prop / chan are "ok" or an error name          *)
StepParse(S, ev) ==
  LET ps == Parse(ev.s)
      ch == ps.ok /\ Len(ps.names) = 2
      ident == ev.text = ev.s
  IN  Check(S,
        /\ (ps.ok => ev.prop = "ok")
        /\ (ev.prop = "ok" => ident)
        /\ (~ps.ok /\ ~Lenient(ev.s) => ev.prop # "ok")
        /\ (ev.chan = "ok" => ev.prop = "ok" /\ ev.ctext = ev.s)
        /\ (ch => ev.chan = "ok")
        /\ (ps.ok /\ ~ch => ev.chan # "ok")
        /\ (ps.ok => ev.names = ps.names)
        /\ (ch => ev.cnames = ps.names),
        "parsing a path: " \o ToString(ev))

(* ------------------------- single values, bytes ------------------------ *)
(* a value stored in a file: file bytes, byte order and the value's bytes    *)
StepBits(S, ev) ==
  LET img(x) == IF ev.be THEN Swap(ev.ty, x) ELSE x
  IN  Check(S, /\ ev.r = "ok" /\ Len(ev.file) = Len(ev.val)
               /\ ev.val = ev.vals
               /\ \A i \in DOMAIN ev.val : /\ Len(ev.val[i]) = SizeOf(ev.ty)
                                           /\ ev.file[i] = img(ev.val[i]),
            "stored bits of " \o ev.ty \o ": " \o ToString(ev))

(* nothing may go wrong whatever the input: panic, hang or memory blow-up    *)
StepFuzz(S, ev) ==
  Check(S, ev.r \in {"ok", "err"} /\ ev.kb <= 65536, "not robust: " \o ev.r \o " " \o ToString(ev))

(* two executions of which the second had its I/O split                      *)
StepSame(S, ev) == Check(S, ev.same, "differs under split I/O")

(* ------------------------------- dispatch ------------------------------ *)
Calls == {"new","create","open","wopen","wdrop","write","props","sync","len","read","groups","chans",
          "prop","allprops","conv","bytes","foreign","segs","cut","mk","parse","bits","fuzz","same","fopen","still"}
Call(S, ev) ==
  CASE ev.e = "new"     -> Check(Session, ev.r = "ok", "new file: " \o ev.r)
    [] ev.e = "create"  -> Check(Session, ev.r = "ok" /\ ev.size = 0, "create: " \o ToString(ev))
    [] ev.e = "foreign" -> StepForeign(S, ev)
    [] ev.e = "segs"    -> StepSegs(S, ev)
    [] ev.e = "mk"      -> StepMkPath(S, ev)
    [] ev.e = "parse"   -> StepParse(S, ev)
    [] ev.e = "bits"    -> StepBits(S, ev)
    [] ev.e = "conv"    -> StepConv(S, ev)
    [] ev.e = "fuzz"    -> StepFuzz(S, ev)
    [] ev.e = "same"    -> StepSame(S, ev)
    [] ev.e = "cut"     -> StepCut(S, ev)
    [] ev.e = "fopen"   -> IF S.closed THEN Check(S, ev.r # "ok", "malformed file was opened")
                           ELSE Check(S, Faulty(ev) <=> ev.r # "ok", "opening with stream errors: " \o ev.r)
    [] ev.e = "still"   -> StepStill(S, ev)
    [] S.closed /\ ev.e = "open"  -> Check(S, ev.r # "ok", "opened when tried again")
    [] S.closed /\ ev.e = "bytes" -> Good(S)
    [] S.closed         -> Fail(S, "harness: call on a file that did not open")
    [] ev.e = "open"    -> IF Has(ev, "f") THEN Check(S, ev.r # "ok", "stream error not reported by open")
                           ELSE Check([S EXCEPT !.wr = FALSE], ev.r = "ok", "reopen failed: " \o ev.r)
    [] ev.e = "wopen"   -> IF Faulty(ev) THEN Check(S, ev.r # "ok", "stream error not reported by writer")
                           ELSE Check([S EXCEPT !.wr = TRUE, !.failed = FALSE], ev.r = "ok", "writer: " \o ev.r)
    [] ev.e = "wdrop"   -> Good([S EXCEPT !.wr = FALSE, !.loose = @ \/ S.failed \/ Has(ev, "f")])
    [] ev.e = "write"   -> StepWrite(S, ev)
    [] ev.e = "props"   -> StepProps(S, ev)
    [] ev.e = "sync"    -> StepSync(S, ev)
    [] ev.e = "len"     -> StepLen(S, ev)
    [] ev.e = "read"    -> StepRead(S, ev)
    [] ev.e = "groups"  -> StepGroups(S, ev)
    [] ev.e = "chans"   -> StepChans(S, ev)
    [] ev.e = "prop"    -> StepProp(S, ev)
    [] ev.e = "allprops"-> StepAllProps(S, ev)
    [] ev.e = "bytes"   -> StepBytes(S, ev)

Fresh(ev) == ev.e \in {"cut", "new", "create", "foreign", "segs", "mk", "parse", "bits", "conv", "fuzz", "same"}
(* a call that panicked or hung is never allowed, whatever the call was *)
Crashed(ev) == Has(ev, "panic")
Step(S, ev) ==
  IF Crashed(ev) THEN Fail(S, "panic: " \o ev.panic)
  ELSE IF S.loose /\ ~Fresh(ev)
       THEN IF ev.e = "still" THEN StepStill(S, ev)
            ELSE IF ev.e = "bytes" /\ ~ev.full THEN StepBytes(S, ev)
            ELSE IF ev.e = "read" /\ Faulty(ev) THEN StepRead(S, ev) ELSE Good(S)
  ELSE WithStream(S, ev, Call(S, ev))
=============================================================================

------------------------------- MODULE McFaults -------------------------------
(***************************************************************************)
(* Where a stream may fail: every transfer of opening and reading, and of  *)
(* writing, as scripts for the harness.  The state is the choice of what   *)
(* is done and where it fails; TediumApi judges the recorded outcome       *)
(* (C17), McStream explains why the design survives it.                    *)
(*   WriteSide  a session that stored something, then a call that fails at *)
(*              transfer k, then the medium recovers before or after the   *)
(*              writer is closed, and the file is looked at                *)
(*   ReadSide   opening with a failure at each transfer, and every read    *)
(*              with a failure at each transfer, repeated afterwards       *)
(*   EdgeSide   one failing transfer, and the medium is well again: a      *)
(*              block written first decides which byte of the next call    *)
(*              meets the failure, and every byte of its encoding does     *)
(***************************************************************************)
EXTENDS McCommon

CONSTANTS Side, Afters, Opens

VARIABLES c, done
vars == <<c, done>>

Fault(op, k, n, kind) == [e |-> "x", do |-> "fault", op |-> op, after |-> k, count |-> n, kind |-> kind]
Cap(n) == [e |-> "x", do |-> "cap", n |-> n]
Heal == [e |-> "x", do |-> "heal"]

(* ------------------------------- writing -------------------------------- *)
Small == Write(<<CA, CB>>, "I16", 500, 6, "C")
Large == Write(<<CA>>, "F64", 600, 1030, "C")
LargeI == Write(<<CA, CB>>, "C128", 5000, 520, "I")
Text(n) == [i \in 1..n |-> 97 + (i % 23)]
LongText == Props(Grp, << <<x_, StrVal(Text(8200))>>, <<a_, U8Val(3)>> >>)
Menu == [small |-> Small, large |-> Large, largei |-> LargeI, text |-> LongText]
Pres == [none |-> <<>>, write |-> <<Write(<<CA>>, "I16", 100, 3, "C")>>,
         sync |-> <<Props(CA, <<<<x_, U8Val(9)>>>>), Op("sync"), [Snap EXCEPT !.app = TRUE]>>]
WriteCases == { [pre |-> p, call |-> k, after |-> a, kind |-> f, end |-> e, split |-> s] :
                p \in DOMAIN Pres, k \in DOMAIN Menu, a \in Afters, f \in {"other", "zero", "cap", "full"},
                e \in {"sync", "heal", "drop"}, s \in {FALSE} }
              \cup { [pre |-> p, call |-> k, after |-> a, kind |-> "denied", end |-> "sync", split |-> TRUE] :
                p \in DOMAIN Pres, k \in DOMAIN Menu, a \in {0, 3, 40} }
Breaks == CASE c.kind = "cap"  -> Cap(13 * c.after)
            [] c.kind = "full" -> Cap(8100 + 90 * c.after)
            [] OTHER -> Fault("write", c.after, 1000000, c.kind)
WriteScript ==
  <<Fresh0 @@ (IF c.split THEN [o |-> [split |-> 3 + c.after]] ELSE EmptyFn),
    Op("wopen"), Write(<<CA, CB>>, "I16", 1, 4, "I"), Props(CB, <<<<b_, StrVal(<<104>>)>>>>), Op("wdrop"), Snap,
    Op("wopen")>>
  \o Pres[c.pre] \o <<Breaks, Menu[c.call]>>
  \o CASE c.end = "sync" -> <<Op("sync")>> [] c.end = "heal" -> <<Heal>> [] OTHER -> <<>>
  \o <<Op("wdrop"), Heal, [Snap EXCEPT !.full = FALSE], [e |-> "foreign", o |-> [back |-> TRUE]],
       [e |-> "len", path |-> CA], [e |-> "len", path |-> CB], Explore(<<"I16", "F64">>)>>

(* ------------------------------- reading -------------------------------- *)
E(p, ix, kv) == [p |-> p, ix |-> ix, props |-> kv]
Raw(t, n) == <<"raw", t, n>>
Sg(new, inter, be, meta, os, n, base) ==
  [new |-> new, inter |-> inter, be |-> be, meta |-> meta, raw |-> n > 0, objs |-> os, rawlen |-> n, src |-> <<"tok", base>>]
Kv3 == << <<x_, U8Val(7)>>, <<b_, StrVal(Text(40))>> >>
Files ==
  << << Sg(TRUE, FALSE, FALSE, TRUE, <<E(CA, Raw("I16", 3), <<>>)>>, 12, 1),
        Sg(FALSE, FALSE, FALSE, FALSE, <<>>, 6, 20),
        Sg(FALSE, FALSE, FALSE, TRUE, <<E(Grp, <<"none">>, Kv3)>>, 0, 1) >>,
     << Sg(TRUE, TRUE, FALSE, TRUE, <<E(CA, Raw("I32", 3), Kv3), E(CB, Raw("F64", 3), <<>>)>>, 72, 1),
        Sg(FALSE, FALSE, TRUE, TRUE, <<E(CB, Raw("I16", 2), <<>>), E(CA, Raw("I32", 2), <<>>)>>, 24, 50) >>,
     << Sg(TRUE, FALSE, TRUE, TRUE, <<E(FilePath, <<"none">>, Kv3), E(CA, Raw("C128", 2), Kv3), E(CB, Raw("U8", 2), <<>>)>>, 68, 1),
        Sg(TRUE, FALSE, FALSE, TRUE, <<E(CB, Raw("U8", 5), <<>>)>>, 10, 60),
        Sg(FALSE, TRUE, FALSE, TRUE, <<E(CA, <<"prev">>, <<>>)>>, 0, 1) >>,
     << Sg(TRUE, TRUE, TRUE, TRUE, <<E(CA, Raw("Time", 2), <<>>), E(CB, Raw("Ext", 2), Kv3)>>, 104, 1),
        Sg(FALSE, TRUE, TRUE, FALSE, <<>>, 52, 40) >>,
     << Sg(TRUE, FALSE, FALSE, TRUE, <<E(CA, Raw("Bool", 4), <<>>), E(CB, Raw("F32", 4), <<>>)>>, 60, 1),
        Sg(TRUE, FALSE, FALSE, TRUE, <<E(CA, Raw("Bool", 1), <<>>)>>, 1, 90) >> >>
TyIn(F, p) == F.objs[p].data[1].t
ReadsOf(F) ==
  LET rd(ps, from, ns) == Read(ps, TyIn(F, ps[1]), from, ns)
  IN  << rd(<<CA>>, 0, <<2>>), rd(<<CA>>, 0, <<9>>), rd(<<CA>>, 2, <<5>>), rd(<<CA>>, 1, <<1>>) >>
      \o (IF CB \in DOMAIN F.objs
          THEN << rd(<<CB>>, 0, <<9>>), rd(<<CB>>, 3, <<2>>), rd(<<CA, CB>>, 0, <<4, 3>>), rd(<<CB, CA>>, 1, <<2, 6>>) >>
          ELSE <<>>)
ReadCases == { [file |-> f, kind |-> k, n |-> n, split |-> s, op |-> o] :
               f \in DOMAIN Files, k \in {"other", "block", "timeout"}, n \in {1, 1000000}, s \in BOOLEAN,
               o \in {"read", "seek"} }
ReadScript ==
  LET segs == Files[c.file]
      F    == Fold(segs)
      rs   == ReadsOf(F)
      opens == FlattenSeq([a \in 1..Opens |-> <<Fault(c.op, a - 1, c.n, c.kind), Op("tryopen"), Heal>>])
      writer == IF c.op = "seek" THEN <<Fault("seek", 0, c.n, c.kind), Op("wopen"), Heal, Op("wdrop")>> ELSE <<>>
      reads == FlattenSeq([a \in 1..(8 * Len(rs)) |->
                  LET r == rs[1 + ((a - 1) % Len(rs))]
                  IN  <<Fault(c.op, (a - 1) \div Len(rs), c.n, c.kind), r, Heal, r>>])
  IN  <<[e |-> "segs", segs |-> segs] @@ (IF c.split THEN [o |-> [split |-> 5 + c.file]] ELSE EmptyFn)>>
      \o opens \o <<Op("open")>> \o writer \o reads \o <<Op("open"), Explore(<<"I16", "F64">>)>>

(* ------------------------------ every byte ------------------------------ *)
(* transfers of a buffered writer are of this size *)
Buffer == 8192
Filler(n) == Write(<<CB>>, "U8", 7, n, "C")
AllKv == << <<x_, U8Val(7)>>, <<b_, StrVal(Text(5))>>, <<a_, <<"F64", <<1, 2, 3, 4, 5, 6, 7, 64>>>>>>,
            <<c_, <<"Bool", <<1>>>>>>, <<<<112>>, <<"Time", [i \in 1..16 |-> i]>>>>,
            <<<<113>>, <<"U64", <<8, 7, 6, 5, 4, 3, 2, 1>>>>>>, <<<<114>>, <<"I16", <<1, 2>>>>>>,
            <<<<115>>, <<"F32", <<1, 2, 3, 66>>>>>>, <<<<116>>, StrVal(<<>>)>>, <<<<117>>, I32Val(3)>> >>
EdgeMenu == [props |-> Props(Grp, AllKv), chan |-> Props(CC, <<<<x_, U8Val(1)>>>>),
             two |-> Write(<<CA, CC>>, "I32", 40, 4, "I")]
            @@ [t \in WriteTypes |-> Write(<<CA>>, t, 60, 3, "C")]
(* the part of the first block that is not data, and the longest call *)
Header == 28 + 4 + (4 + Len(CB)) + 20 + 4
Reach == 300
Step3(k) == IF k \in {"props", "chan", "two"} THEN 1 ELSE 3
EdgeCases == { [call |-> k, at |-> a, kind |-> f] : k \in DOMAIN EdgeMenu, a \in 0..12, f \in {"denied", "zero"} }
EdgeScript ==
  FlattenSeq([i \in 1..24 |->
    LET off == Step3(c.call) * (24 * c.at + i - 1)
    IN  IF off > Reach THEN <<>>
        ELSE << Fresh0, Op("wopen"), Filler(Buffer - Header - off), Fault("write", 0, 1, c.kind),
                EdgeMenu[c.call], Op("sync"), Heal, Op("wdrop") >>])

Init == /\ c \in CASE Side = "write" -> WriteCases [] Side = "read" -> ReadCases [] OTHER -> EdgeCases
        /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ c' = c
        /\ CASE Side = "write" -> Gen(WriteScript) [] Side = "read" -> Gen(ReadScript)
             [] OTHER -> EdgeScript # <<>> => Gen(EdgeScript)
Spec == Init /\ [][Next]_vars
(* the files are well-formed *)
Sound == Side = "read" => Fold(Files[c.file]).err = ""
=============================================================================

------------------------------- MODULE McLarge -------------------------------
(***************************************************************************)
(* Sizes at which a count or length needs another byte.  The state is the  *)
(* choice of the quantity that is large and of its size; each behaviour    *)
(* brings one file to that size, by the library or as a file of another    *)
(* producer, and looks at it on both sides of the limit.                   *)
(*   samples   samples of a channel in one write     text   bytes of a     *)
(*   writes    writes, and segments, of a file              text value     *)
(*   chans     channels of one write                 name   bytes of names *)
(*   props     properties of one object              groups groups         *)
(*   chunks    chunks of a segment                   rows   rows of one    *)
(*   values    samples per chunk                     segs   segments       *)
(*   list      objects in a segment's list           kv     properties of  *)
(*                                                          one entry      *)
(***************************************************************************)
EXTENDS McCommon

CONSTANTS Whats, Bytes, Full

VARIABLES c, done
vars == <<c, done>>

Narrow == {255, 256, 257}
Wide   == {65535, 65536, 65537}
Sizes(w) == CASE w \in {"chans", "props", "groups", "list", "kv", "writes"} -> Narrow \cup (IF w = "props" THEN {700} ELSE {})
              [] w = "segs" -> {256, 257, 65537}
              [] OTHER -> Narrow \cup Wide
Types(w) == CASE w \in {"samples", "values", "chunks", "rows"} -> {"U8", "F64"}
              [] OTHER -> {"I16"}

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
Name(n) == <<110>> \o Digits(n)
Text(n) == [i \in 1..n |-> 97 + (i % 23)]
Chs(n) == [i \in 1..n |-> Ch(Name(i))]
Kv(n) == [i \in 1..n |-> <<Name(i), I32Val(i % 250)>>]

Snapshot == IF Bytes THEN <<Snap>> ELSE <<>>
(* positions next to the limits *)
Near(n) == { k \in {0, 1, 253, 254, 255, 256, 257, 65534, 65535, 65536, 65537, n - 2, n - 1, n, n + 1} : k <= n + 1 }
Looks(ps, ty, n) ==
  FlattenSeq(SetToSeq({ <<Read(<<p>>, ty, k, <<3>>)>> : p \in ToSet(ps), k \in Near(n) }))
  \o (IF Len(ps) = 1 THEN <<>>
      ELSE FlattenSeq(SetToSeq({ <<Read(Reverse(ps), ty, k, [i \in 1..Len(ps) |-> 1 + (i % 3)])>> : k \in Near(n) })))
  \o (IF c.what = "segs" /\ n > 1000 THEN <<>> ELSE <<Read(ps, ty, 0, [i \in 1..Len(ps) |-> n + 1])>>)
Lens(ps) == [i \in 1..Len(ps) |-> [e |-> "len", path |-> ps[i]]]
List == <<Op("groups"), [e |-> "chans", g |-> g_]>>
Two(look) == <<Op("wdrop")>> \o look \o Snapshot \o <<Op("open")>> \o look
Begin == <<Fresh0, Op("wopen")>>
Closing(n, ty) == <<Write(<<CA>>, ty, n, 2, "C"), Write(<<CA>>, ty, n + 2, 1, "C")>>

Entry(p, ix, kv) == [p |-> p, ix |-> ix, props |-> kv]
Raw(t, n) == <<"raw", t, n>>
Seg(new, inter, be, meta, os, n, base) ==
  [new |-> new, inter |-> inter, be |-> be, meta |-> meta, raw |-> n > 0, objs |-> os, rawlen |-> n, src |-> <<"tok", base>>]
Width(t) == SizeOf(t)
Foreigner(segs) == <<[e |-> "segs", segs |-> segs]>>
AB == <<CA, CB>>

Samples(ty, n) ==
  IF c.flag THEN Begin \o <<Write(AB, ty, 1, 2 * n, "I")>> \o Closing(n, ty) \o Two(Lens(AB) \o Looks(AB, ty, n))
  ELSE Begin \o <<Write(<<CA>>, ty, 1, n, "C")>> \o Closing(n, ty) \o Two(Lens(<<CA>>) \o Looks(<<CA>>, ty, n))
Writes(ty, n) ==
  Begin \o FlattenSeq([i \in 1..n |-> IF c.flag /\ i % 2 = 0 THEN <<Write(<<CB>>, ty, i, 1, "C"), Write(<<CA>>, ty, i, 1, "C")>>
                                      ELSE <<Write(<<CA>>, ty, i, 1, "C")>>])
  \o Two(Lens(AB) \o Looks(IF c.flag THEN AB ELSE <<CA>>, ty, n))
Chans(ty, n) ==
  LET look == Lens(<<Ch(Name(1)), Ch(Name(255)), Ch(Name(n - 1)), Ch(Name(n))>>) \o List
              \o <<Read(Chs(n), ty, 0, [i \in 1..n |-> 3]), Read(<<Ch(Name(n))>>, ty, 1, <<2>>),
                   Read(<<Ch(Name(255))>>, ty, 0, <<2>>), Read(<<Ch(Name(n)), Ch(Name(1))>>, ty, 0, <<1, 2>>)>>
  IN  Begin \o <<Write(Chs(n), ty, 1, 2 * n, IF c.flag THEN "I" ELSE "C"), Write(Chs(n), ty, 900, n, "C")>> \o Two(look)
PropsOf1(p, n) ==
  <<[e |-> "allprops", path |-> p], [e |-> "prop", path |-> p, name |-> Name(1)],
    [e |-> "prop", path |-> p, name |-> Name(n)], [e |-> "prop", path |-> p, name |-> Name(n + 1)]>>
ManyProps(n) ==
  Begin \o (IF c.flag THEN [i \in 1..n |-> Props(CA, <<Kv(n)[i]>>)] ELSE <<Props(Grp, Kv(n)), Props(CA, Kv(n))>>)
  \o <<Write(<<CA>>, "I16", 1, 2, "C")>>
  \o Two(PropsOf1(CA, n) \o PropsOf1(Grp, n))
LongText(n) ==
  LET kv == IF c.flag THEN <<<<Text(n), U8Val(5)>>, <<x_, U8Val(6)>>>> ELSE <<<<x_, StrVal(Text(n))>>, <<a_, U8Val(7)>>>>
  IN  Begin \o <<Props(Grp, kv), Write(<<CA>>, "I16", 1, 2, "C")>>
      \o Two(<<[e |-> "allprops", path |-> Grp], [e |-> "len", path |-> CA]>>)
LongName(n) ==
  LET p == IF c.flag THEN ChannelPathOf(Text(n), a_) ELSE ChannelPathOf(g_, Text(n))
  IN  Begin \o <<Write(<<p>>, "I16", 1, 2, "C")>>
      \o Two(<<Op("groups"), [e |-> "chans", g |-> IF c.flag THEN Text(n) ELSE g_], [e |-> "len", path |-> p],
               Read(<<p>>, "I16", 0, <<3>>)>>)
ManyGroups(n) ==
  LET p(i) == ChannelPathOf(Name(i), a_)
  IN  Begin \o (IF c.flag THEN [i \in 1..n |-> Props(GroupPath(Name(i)), <<<<x_, U8Val(i % 200)>>>>)]
                ELSE <<Write([i \in 1..n |-> p(i)], "I16", 1, n, "C")>>)
      \o Two(<<Op("groups"), [e |-> "chans", g |-> Name(n)], [e |-> "len", path |-> p(n)], [e |-> "len", path |-> p(n + 1)]>>)

(* files of other producers; flag: big endian *)
Chunks(ty, n) ==
  Foreigner(<<Seg(TRUE, FALSE, c.flag, TRUE, <<Entry(CA, Raw(ty, 1), <<>>), Entry(CB, Raw("U8", 1), <<>>)>>, n * (Width(ty) + 1), 1),
              Seg(FALSE, FALSE, c.flag, FALSE, <<>>, 2 * (Width(ty) + 1), 900000)>>)
  \o Lens(AB) \o Looks(<<CA>>, ty, n) \o Looks(<<CB>>, "U8", n)
Rows(ty, n) ==
  Foreigner(<<Seg(TRUE, TRUE, c.flag, TRUE, <<Entry(CA, Raw(ty, 1), <<>>), Entry(CB, Raw("U8", 1), <<>>)>>, n * (Width(ty) + 1), 1),
              Seg(FALSE, TRUE, c.flag, FALSE, <<>>, 2 * (Width(ty) + 1), 900000)>>)
  \o Lens(AB) \o Looks(<<CA>>, ty, n) \o Looks(<<CB>>, "U8", n)
Values(ty, n) ==
  Foreigner(<<Seg(TRUE, FALSE, c.flag, TRUE, <<Entry(CA, Raw(ty, n), <<>>), Entry(CB, Raw(ty, n), <<>>)>>, 3 * n * 2 * Width(ty), 1),
              Seg(FALSE, TRUE, c.flag, FALSE, <<>>, 2 * n * Width(ty), 900000)>>)
  \o Lens(AB) \o Looks(AB, ty, n) \o Looks(<<CB>>, ty, 2 * n) \o Looks(<<CB>>, ty, 4 * n)
Segs(ty, n) ==
  Foreigner([i \in 1..n |->
    IF i = 1 THEN Seg(TRUE, FALSE, c.flag, TRUE, <<Entry(CA, Raw(ty, 1), <<>>), Entry(CB, Raw(ty, 1), <<>>)>>, 2 * Width(ty), 1)
    ELSE Seg(FALSE, FALSE, c.flag, FALSE, <<>>, 2 * Width(ty), 2 * i - 1)])
  \o Lens(AB) \o Looks(AB, ty, n)
Listed1(n) ==
  Foreigner(<<Seg(TRUE, FALSE, c.flag, TRUE, [i \in 1..n |-> Entry(Ch(Name(i)), IF i % 2 = 0 THEN <<"none">> ELSE Raw("I16", 1), <<>>)],
                  2 * ((n + 1) \div 2), 1),
              Seg(FALSE, FALSE, c.flag, TRUE, <<Entry(Ch(Name(n)), Raw("I16", 2), <<<<x_, U8Val(1)>>>>)>>, 2 * (((n + 1) \div 2) + 1), 900)>>)
  \o Lens(Chs(n)) \o List \o <<Read(<<Ch(Name(n))>>, "I16", 0, <<4>>), Read(<<Ch(Name(255))>>, "I16", 0, <<4>>)>>
Kvs(n) ==
  Foreigner(<<Seg(TRUE, FALSE, c.flag, TRUE, <<Entry(Grp, <<"none">>, Kv(n)), Entry(CA, Raw("I16", 1), Kv(3))>>, 2, 1)>>)
  \o PropsOf1(Grp, n) \o PropsOf1(CA, 3) \o Lens(<<CA>>)

Script ==
  LET n == c.n  ty == c.ty
  IN  CASE c.what = "samples" -> Samples(ty, n) [] c.what = "writes" -> Writes(ty, n) [] c.what = "chans" -> Chans(ty, n)
        [] c.what = "props" -> ManyProps(n)     [] c.what = "text" -> LongText(n)     [] c.what = "name" -> LongName(n)
        [] c.what = "groups" -> ManyGroups(n)   [] c.what = "chunks" -> Chunks(ty, n) [] c.what = "rows" -> Rows(ty, n)
        [] c.what = "values" -> Values(ty, n)   [] c.what = "segs" -> Segs(ty, n)     [] c.what = "list" -> Listed1(n)
        [] c.what = "kv" -> Kvs(n)

Picks == UNION { { [what |-> w, n |-> n, ty |-> t, flag |-> f] : n \in Sizes(w), t \in Types(w), f \in BOOLEAN } : w \in Whats }
(* not every combination in every run *)
Few(x) == Full \/ x.n < 1000 \/ x.n = 65536 \/ (x.n = 65537 /\ x.what = "segs" /\ ~x.flag)
Init == c \in { x \in Picks : Few(x) } /\ done = FALSE
Next == ~done /\ done' = TRUE /\ c' = c /\ Gen(Script)
Spec == Init /\ [][Next]_vars
=============================================================================

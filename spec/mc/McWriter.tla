------------------------------ MODULE McWriter ------------------------------
(***************************************************************************)
(* The design of writing: which segment a write appends, given what the    *)
(* index remembers, and how the index follows.  Checked against the        *)
(* abstract session (TediumApi) after every history of writes:             *)
(*   C01/C07  the index shows exactly what was written                     *)
(*   C02      reading the segments back gives the same index               *)
(*   C03      their encoding decodes, by the format alone, to the same     *)
(*   C15      segments are only ever appended                              *)
(*   C16      a refused write changes nothing                              *)
(* With Emit, every transition of the abstract design state (active list,  *)
(* remembered formats, properties, how the last call was followed) is      *)
(* printed as a script that the harness runs against the library.          *)
(***************************************************************************)
EXTENDS McCommon, Writing

CONSTANTS Lists, Types, Counts, PropOps, Refusals, Seps, Depth, Emit, Encode, Final, Starts

VARIABLES S, disk, mem, hist, sep
vars == <<S, disk, mem, hist, sep>>

SetA == Props(CA, <<<<x_, U8Val(1)>>>>)
SetA2 == Props(CA, <<<<x_, I32Val(2)>>, <<a_, StrVal(<<195, 169, 10>>)>>>>)
SetNone == Props(CA, <<>>)
SetG == Props(Grp, <<<<x_, U8Val(3)>>>>)
SetF == Props(FilePath, <<<<x_, U8Val(4)>>>>)
SetB == Props(CB, <<<<x_, U8Val(5)>>>>)
PropEvents == [A |-> SetA, A2 |-> SetA2, N |-> SetNone, G |-> SetG, F |-> SetF, B |-> SetB]
ListOf == [a |-> <<CA>>, b |-> <<CB>>, c |-> <<CC>>, ab |-> <<CA, CB>>, ba |-> <<CB, CA>>,
           bc |-> <<CB, CC>>, abc |-> <<CA, CB, CC>>, cab |-> <<CC, CA, CB>>]
(* refused writes: no channels, a value too many, text samples *)
RefOf == [none |-> <<<<>>, "I16", 2>>, zero |-> <<<<>>, "I16", 0>>, odd |-> <<<<CA, CB>>, "I16", 3>>,
          odd3 |-> <<<<CB, CC, CA>>, "F64", 4>>, str |-> <<<<CA>>, "Str", 2>>, strab |-> <<<<CB, CA>>, "Str", 0>>]

(* ------------------------------ behaviours ------------------------------ *)
Base == 10 * Len(hist) + 1
Opened == IF sep = "w" THEN <<>> ELSE <<Op("wopen")>>
Told(h) == Emit => Gen(h \o <<Op("wdrop")>> \o Final)

(* files of other producers that writing continues: formats that differ between the active channels,  *)
(* an emptied list, channels without samples, several chunks and a remainder, other orders and types  *)
Ent(p, ix) == [p |-> p, ix |-> ix, props |-> <<>>]
R16(n) == <<"raw", "I16", n>>
For(new, meta, be, inter, os, n) ==
  [new |-> new, inter |-> inter, be |-> be, meta |-> meta, raw |-> n > 0, objs |-> os, rawlen |-> n, src |-> <<"tok", 60 + n>>]
StartOf ==
  [mixed   |-> <<For(TRUE, TRUE, FALSE, FALSE, <<Ent(CA, R16(1)), Ent(CB, <<"raw", "F64", 1>>)>>, 10)>>,
   mixed2  |-> <<For(TRUE, TRUE, FALSE, FALSE, <<Ent(CB, <<"raw", "F64", 2>>), Ent(CA, R16(2))>>, 40)>>,
   big     |-> <<For(TRUE, TRUE, TRUE, TRUE, <<Ent(CA, R16(1)), Ent(CB, R16(1))>>, 8)>>,
   empty   |-> <<For(TRUE, TRUE, FALSE, FALSE, <<Ent(CA, R16(1)), Ent(CB, R16(1))>>, 5),
                 For(TRUE, TRUE, FALSE, FALSE, <<>>, 0)>>,
   none    |-> <<For(TRUE, TRUE, FALSE, FALSE, <<Ent(CA, <<"none">>), Ent(CB, R16(1))>>, 4)>>,
   idle    |-> <<For(TRUE, TRUE, FALSE, FALSE, <<Ent(CA, R16(2)), Ent(CB, R16(2))>>, 0)>>,
   grown   |-> <<For(TRUE, TRUE, FALSE, FALSE, <<Ent(CA, R16(1))>>, 2),
                 For(FALSE, TRUE, FALSE, TRUE, <<Ent(CB, R16(1))>>, 4), For(FALSE, FALSE, TRUE, FALSE, <<>>, 4)>>,
   changed |-> <<For(TRUE, TRUE, FALSE, FALSE, <<Ent(CA, R16(1)), Ent(CB, R16(1))>>, 4),
                 For(FALSE, TRUE, TRUE, FALSE, <<Ent(CB, <<"raw", "F64", 1>>)>>, 20)>>,
   third   |-> <<For(TRUE, TRUE, FALSE, FALSE, <<Ent(CA, R16(1)), Ent(CC, R16(1)), Ent(CB, R16(1))>>, 6)>>,
   unit    |-> <<For(TRUE, TRUE, FALSE, FALSE, <<Ent(CA, <<"raw", "F32U", 1>>), Ent(CB, <<"raw", "F64", 1>>)>>, 12)>>]
Started(k) == IF k = "new" THEN Fresh0 ELSE [e |-> "segs", segs |-> StartOf[k]]
Init == \E k \in Starts :
          /\ S = Apply(Session, Ok(Started(k))) /\ hist = <<Started(k)>> /\ sep = "new"
          /\ disk = (IF k = "new" THEN <<>> ELSE StartOf[k]) /\ mem = Fold(disk)
Count == Cardinality({ i \in DOMAIN hist : hist[i].e \in {"write", "props"} })
Do(ev, seg) ==
  LET h == hist \o Opened \o <<ev>>
  IN  /\ S' = Apply(S, Ok(ev)) /\ disk' = Append(disk, seg) /\ mem' = AddSegment(mem, seg)
      /\ hist' = h /\ sep' = "w" /\ Told(h)
WriteCh == \E k \in Lists, ty \in Types, per \in Counts, lay \in {"C", "I"} :
             /\ (lay = "I" => per > 1 /\ Len(ListOf[k]) > 1)
             /\ LET ev == Write(ListOf[k], ty, Base, per * Len(ListOf[k]), lay)
                IN  Do(ev, WriteSeg(mem, ev))
WriteProps == \E k \in PropOps : Do(PropEvents[k], PropSeg(PropEvents[k]))
Refuse == \E k \in Refusals :
            LET ev == Write(RefOf[k][1], RefOf[k][2], Base, RefOf[k][3], "C")
                h  == hist \o Opened \o <<ev>>
            IN  /\ S' = Apply(S, ev @@ [r |-> "refused"]) /\ UNCHANGED <<disk, mem>>
                /\ hist' = h /\ sep' = "w" /\ Told(h)
Separate == /\ sep = "w"
            /\ \E k \in Seps :
                 /\ hist' = hist \o CASE k = "drop"   -> <<Op("wdrop")>>
                                      [] k = "look"   -> <<Op("wdrop")>> \o <<Final[1]>>
                                      [] k = "reopen" -> <<Op("wdrop"), Op("open")>>
                                      [] k = "sync"   -> <<Op("sync"), Snap, Op("wdrop")>>
                 /\ sep' = k
                 /\ mem' = IF k = "reopen" THEN Fold(disk) ELSE mem
                 /\ UNCHANGED <<S, disk>>
Next == Count < Depth /\ (WriteCh \/ WriteProps \/ Refuse \/ Separate)
Spec == Init /\ [][Next]_vars

(* the state of the design; how often it was used does not matter *)
Abstract == <<mem.active, [p \in DOMAIN mem.objs |-> <<mem.objs[p].fmt, mem.objs[p].props,
                            DataLen(mem.objs[p].data) > 0>>], sep,
              \E i \in DOMAIN hist : hist[i].e = "write" /\ Refused(hist[i])>>

(* ------------------------------ properties ------------------------------ *)
IndexShowsAll == mem.err = "" /\ SameContent(S, ObjsOf(mem))
ReopenAgrees  == Fold(disk) = mem
BytesDecode   ==
  Encode => LET b == TLCEval(EncFile(disk))
                d == DecFile(b)
                F == Fold(SegsOf(d))
            IN  /\ d.last.st = "end" /\ F.err = "" /\ Len(d.segs) = Len(disk)
                /\ SameContent(S, ObjsOf(F))
OnlyAppends   == [][ PrefixOf(disk, disk') ]_vars
(* samples never touch properties, and an object keeps what was not rewritten *)
PropsKept     == [][ \A p \in DOMAIN S.objs : /\ p \in DOMAIN S'.objs
                        /\ DOMAIN S.objs[p].props \subseteq DOMAIN S'.objs[p].props
                        /\ (hist'[Len(hist')].e # "props" => S.objs[p].props = S'.objs[p].props) ]_vars
RefusedIsNothing == [][ (hist'[Len(hist')].e = "write" /\ Refused(hist'[Len(hist')]))
                           => /\ S'.objs = S.objs /\ disk' = disk /\ mem' = mem ]_vars
(* every object of the active list has a format, and exists *)
ActiveHasFormat == \A i \in DOMAIN mem.active : mem.active[i] \in DOMAIN mem.objs
                                               /\ mem.objs[mem.active[i]].fmt # <<>>
NoDuplicates == Cardinality(ToSet(mem.active)) = Len(mem.active)

FinalOps == <<Explore(<<"I16", "F64">>), Snap, Op("open"), Explore(<<"I16", "F64">>)>>
FinalBytes == <<Snap, Op("open"), Snap, Explore(<<"I16">>)>>
FinalOne == <<Explore(<<"I16">>), Snap, Op("open"), Explore(<<"I16">>)>>
=============================================================================

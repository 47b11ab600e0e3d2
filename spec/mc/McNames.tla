------------------------------ MODULE McNames -------------------------------
(***************************************************************************)
(* Which groups and channels a set of objects shows (C08).  The design     *)
(* keeps objects under their textual path and finds the channels of a      *)
(* group among the paths that start with the group's path; checked against *)
(* the definition by names:                                                *)
(*   the listing is exactly the channels of exactly that group             *)
(*   groups are those of all paths, whichever objects exist                *)
(*   every channel is listed in one group, and a listed path names it      *)
(* Pool: groups whose names are prefixes of one another as texts, contain  *)
(* quotes, slashes, several bytes per character or nothing; objects that   *)
(* are no path at all; channels with and without samples, groups with and  *)
(* without an object of their own.                                         *)
(* Emit prints every set of up to Most objects as a file made of segments, *)
(* and, for those that can be written, as calls of a writer.               *)
(***************************************************************************)
EXTENDS McCommon

CONSTANTS Most, Emit, Design

VARIABLES objs
(* names as they stand in a path *)
uml == <<195, 164>>  gq == <<103, 39, 39>>  gqa == <<103, 39, 39, 97>>  sl == <<47>>  ga == <<103, 97>>
gsl == <<103, 39, 39, 47, 39, 39, 97>>       \* g''/''a : looks like two levels
G1(n) == <<Slash, Quote>> \o n \o <<Quote>>
C2(n, m) == G1(n) \o G1(m)
GroupNames == << g_, ga, <<>>, gq, gqa, gsl, uml, sl >>
Paths == << FilePath, G1(g_), G1(gq), G1(<<>>),
            C2(g_, a_), C2(g_, b_), C2(ga, a_), C2(<<>>, <<>>), C2(gq, a_), C2(gqa, a_), C2(gsl, a_),
            C2(uml, uml), C2(sl, a_), C2(a_, g_),
            G1(g_) \o G1(a_) \o G1(b_), <<103>>, <<>> >>
Pool == 1..Len(Paths)

Init == objs = {}
Next == Cardinality(objs) < Most /\ \E i \in Pool \ objs : objs' = objs \cup {i}
Spec == Init /\ [][Next]_objs

Shown == { Paths[i] : i \in objs }
(* ------------------------------ the design ------------------------------ *)
StartsWith(p, q) == Len(q) <= Len(p) /\ SubSeq(p, 1, Len(q)) = q
ListDesign(g) ==
  { p \in Shown : /\ StartsWith(p, G1(g))
                  /\ (Design = "prefix" \/ GroupIn(p) = {g})
                  /\ IsChannel(p) }
GroupsDesign == IF Design = "own" THEN UNION { GroupIn(p) : p \in { q \in Shown : ~IsChannel(q) } }
                ELSE UNION { GroupIn(p) : p \in Shown }
(* ------------------------------ properties ------------------------------ *)
AllGroups == ToSet(GroupNames) \cup {a_, x_}
ListingIsByName == \A g \in AllGroups : ListDesign(g) = ChannelsOf(Shown, g)
GroupsAreAll == GroupsDesign = Groups(Shown)
InOneGroup == \A p \in Shown : IsChannel(p) => Cardinality({ g \in AllGroups : p \in ChannelsOf(Shown, g) }) = 1
NothingElse == UNION { ChannelsOf(Shown, g) : g \in GroupsDesign } = { p \in Shown : IsChannel(p) }
PathsNameThem == \A p \in Shown : IsChannel(p) => p = C2(Parse(p).names[1], Parse(p).names[2])

(* ------------------------------- scripts -------------------------------- *)
Order == SetToSortSeq(objs, <)
HasData(i) == (i + Cardinality(objs)) % 3 # 0
Ent(i) == [p |-> Paths[i], ix |-> IF HasData(i) THEN <<"raw", "I16", 2>> ELSE <<"none">>,
           props |-> IF i % 2 = 0 THEN <<<<x_, U8Val(i)>>>> ELSE <<>>]
Raws(os) == Cardinality({ i \in DOMAIN os : os[i].ix[1] = "raw" })
SegOf(os, new) == [new |-> new, inter |-> FALSE, be |-> FALSE, meta |-> TRUE, raw |-> Raws(os) > 0, objs |-> os,
                   rawlen |-> 4 * Raws(os), src |-> <<"tok", 1 + 20 * Len(os)>>]
Ents == [k \in 1..Len(Order) |-> Ent(Order[k])]
(* one segment, or one for each object *)
SegsFor(many) == IF many THEN [k \in 1..Len(Ents) |-> SegOf(<<Ents[k]>>, TRUE)] ELSE <<SegOf(Ents, TRUE)>>
Queries ==
  <<Op("groups")>>
  \o [k \in 1..Len(GroupNames) |-> [e |-> "chans", g |-> GroupNames[k]]]
  \o FlattenSeq([i \in 1..Len(Paths) |->
       IF ~Parse(Paths[i]).ok THEN <<>>
       ELSE <<[e |-> "allprops", path |-> Paths[i]], [e |-> "prop", path |-> Paths[i], name |-> x_]>>
            \o (IF IsChannel(Paths[i]) THEN <<[e |-> "len", path |-> Paths[i]]>> ELSE <<>>)])
  \o <<Explore(<<"I16">>)>>
FromFile(many) == <<[e |-> "segs", segs |-> SegsFor(many)]>> \o Queries
(* the same objects by calls of a writer; only what a path can be built for *)
CallFor(i) == IF IsChannel(Paths[i]) /\ HasData(i) THEN Write(<<Paths[i]>>, "I16", 1 + 10 * i, 2, "C")
           ELSE Props(Paths[i], IF i % 2 = 0 THEN <<<<x_, U8Val(i)>>>> ELSE <<>>)
FromWriter == <<Fresh0, Op("wopen")>> \o [k \in 1..Len(Order) |-> CallFor(Order[k])]
              \o <<Op("wdrop")>> \o Queries \o <<Op("open"), Op("groups")>>
              \o [k \in 1..Len(GroupNames) |-> [e |-> "chans", g |-> GroupNames[k]]] \o <<Explore(<<"I16">>)>>
Writable == \A i \in objs : Parse(Paths[i]).ok
Told == (Emit /\ objs # {}) =>
          /\ Gen(FromFile(FALSE))
          /\ (Cardinality(objs) > 1 => Gen(FromFile(TRUE)))
          /\ (Writable => Gen(FromWriter))
=============================================================================

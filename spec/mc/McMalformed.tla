----------------------------- MODULE McMalformed -----------------------------
(***************************************************************************)
(* A well-formed prefix, then a segment with one defect, then possibly a   *)
(* well-formed one.                                                        *)
(*   C13  whatever precedes or follows, a segment with a defect makes the  *)
(*        file one that must be refused                                    *)
(*   C13  whether a repeated format, inherited channel list or empty raw   *)
(*        data is a defect depends on the prefix exactly as the segment    *)
(*        rules say                                                        *)
(* Emit prints one file for each combination.                              *)
(***************************************************************************)
EXTENDS McCommon

CONSTANTS Emit

VARIABLES pre, be, suf, d, done
vars == <<pre, be, suf, d, done>>

Kv2 == << <<x_, U8Val(7)>>, <<b_, StrVal(<<97, 98>>)>> >>
E(p, ix, kv) == [p |-> p, ix |-> ix, props |-> kv]
Raw(n) == <<"raw", "I16", n>>
S0(new, meta, raw, os, n, base) ==
  [new |-> new, inter |-> FALSE, be |-> FALSE, meta |-> meta, raw |-> raw, objs |-> os, rawlen |-> n,
   src |-> <<"tok", base>>]
Before ==
  << <<>>,
     << S0(TRUE, TRUE, TRUE, <<E(CA, Raw(2), <<>>)>>, 4, 1) >>,
     << S0(TRUE, TRUE, TRUE, <<E(CA, Raw(2), Kv2), E(CB, Raw(2), <<>>)>>, 8, 1) >>,
     << S0(TRUE, TRUE, FALSE, <<E(CB, <<"none">>, Kv2)>>, 0, 1) >>,
     << [S0(TRUE, TRUE, TRUE, <<E(CB, Raw(1), <<>>)>>, 4, 1) EXCEPT !.be = TRUE],
        S0(FALSE, FALSE, TRUE, <<>>, 2, 9) >>,
     << S0(TRUE, TRUE, TRUE, <<E(CB, Raw(1), <<>>)>>, 2, 1),
        S0(TRUE, TRUE, TRUE, <<E(CA, Raw(1), <<>>)>>, 2, 9) >> >>

(* the segment the defects are planted into: a new list with one channel, two properties *)
Good0 == [S0(TRUE, TRUE, TRUE, <<E(CA, Raw(2), Kv2)>>, 4, 30) EXCEPT !.be = be]
(* where its fields are *)
Path == 36  IxAt == 44  TyAt == 48  NProps == 64  Name1 == 68  PTy1 == 73  Name2 == 78  PTy2 == 83  Str2 == 87  MetaEnd == 93

Patch(b, at, x) == [i \in 1..Len(b) |-> IF i > at /\ i <= at + Len(x) THEN x[i - at] ELSE b[i]]
N32(n) == U32(n, be)
Or(x) == IF be THEN RevSeq(x) ELSE x      \* bytes given in little endian order

(* name |-> how the bytes of the segment change *)
BadUtf == << <<255, 97>>, <<97, 128>>, <<195, 40>>, <<224, 128>>, <<192, 128>> >>
Tags == { <<"tag", i, v>> : i \in 0..3, v \in {0, 83, 84, 109, 255} }
Codes == { 12, 13, 14, 24, 28, 34, 67, 524301, 1048588 }      \* codes of no type
Marks == { <<79, 0, 0, 0>>, <<255, 255, 255, 255>> }
ByteDefects ==
  { x \in Tags : <<84, 68, 83, 109>>[x[2] + 1] # x[3] }
  \cup { <<"rawoff", k>> : k \in {1, 2, 3} }
  \cup { <<"next", v>> : v \in {228, 229, 254, 255} }
  \cup { <<"daq", v, w>> : v \in {18, 19}, w \in {0, 1, 255} }
  \cup { <<"type", c>> : c \in Codes }
  \cup { <<"ptype", k, c>> : k \in {1, 2}, c \in Codes }
  \cup { <<"pmark", k, m>> : k \in {1, 2}, m \in Marks }
  \cup { <<"utf", w, i>> : w \in {"path", "name", "value"}, i \in DOMAIN BadUtf }
  \cup { <<"long", w, k>> : w \in {"path", "name1", "name2", "value", "objs", "props"}, k \in {1, 2, 3} }
  \cup { <<"stop", at>> : at \in 28..92 }
Long(k) == IF k = 1 THEN <<0, 0, 0, 64>> ELSE IF k = 2 THEN <<255, 255, 255, 255>> ELSE <<0, 1, 0, 0>>
Planted ==
  LET b == EncFile(<<Good0>>)
  IN CASE d[1] = "tag"   -> Patch(b, d[2], <<d[3]>>)
       [] d[1] = "rawoff" -> Patch(b, 20, CASE d[2] = 1 -> U64(MetaEnd - 28 + 5, be)
                                            [] d[2] = 2 -> U64(100000, be)
                                            [] OTHER -> FF64)
       [] d[1] = "next"  -> Patch(b, 12, Or(<<d[2]>> \o <<255, 255, 255, 255, 255, 255, 255>>))
       [] d[1] = "daq"   -> Patch(b, IxAt, Or(<<d[3], 0, d[2], 105>>))
       [] d[1] = "type"  -> Patch(b, TyAt, N32(d[2]))
       [] d[1] = "ptype" -> Patch(b, IF d[2] = 1 THEN PTy1 ELSE PTy2, N32(d[3]))
       [] d[1] = "pmark" -> Patch(b, IF d[2] = 1 THEN PTy1 ELSE PTy2, Or(d[3]))
       [] d[1] = "utf"   -> Patch(b, CASE d[2] = "path" -> Path + 2 [] d[2] = "name" -> Name1 + 4 [] OTHER -> Str2 + 4,
                                  IF d[2] = "name" THEN <<BadUtf[d[3]][1] + (IF BadUtf[d[3]][1] < 128 THEN 128 ELSE 0)>>
                                  ELSE BadUtf[d[3]])
       [] d[1] = "long"  -> Patch(b, CASE d[2] = "path" -> 32 [] d[2] = "name1" -> Name1 [] d[2] = "name2" -> Name2
                                       [] d[2] = "value" -> Str2 [] d[2] = "objs" -> 28 [] OTHER -> NProps, Or(Long(d[3])))
       [] OTHER          -> SubSeq(b, 1, d[2])

(* defects by the rules, some of them only after some prefixes *)
RuleDefects == { <<"rule", r>> : r \in {"prevA", "prevB", "prevnew", "keep", "drop", "none", "zero", "zerokeep", "empty", "nometa"} }
RuleSeg ==
  LET r == d[2]
      s(new, meta, os, n) == [S0(new, meta, TRUE, os, n, 30) EXCEPT !.be = be]
  IN CASE r = "prevA"   -> s(FALSE, TRUE, <<E(CA, <<"prev">>, Kv2)>>, 4)
       [] r = "prevB"   -> s(TRUE, TRUE, <<E(CB, <<"prev">>, <<>>)>>, 4)
       [] r = "prevnew" -> s(TRUE, TRUE, <<E(CC, Raw(1), <<>>), E(CA, <<"prev">>, <<>>)>>, 4)
       [] r = "keep"    -> s(FALSE, TRUE, <<E(CA, <<"none">>, <<>>)>>, 4)
       [] r = "drop"    -> s(TRUE, TRUE, <<E(CA, <<"none">>, Kv2), E(CB, <<"none">>, <<>>)>>, 4)
       [] r = "none"    -> s(TRUE, TRUE, <<>>, 4)
       [] r = "zero"    -> s(TRUE, TRUE, <<E(CA, Raw(2), <<>>)>>, 0)
       [] r = "zerokeep" -> s(FALSE, TRUE, <<E(CA, Raw(2), <<>>)>>, 0)
       [] r = "empty"   -> s(TRUE, FALSE, <<>>, 4)
       [] OTHER         -> s(FALSE, FALSE, <<>>, 4)

Rule == d[1] = "rule"
Cuts == d[1] = "stop"
After == [S0(FALSE, TRUE, TRUE, <<E(CA, Raw(1), <<>>)>>, 6, 50) EXCEPT !.be = ~be]
Segs == Before[pre] \o (IF Rule THEN <<RuleSeg>> ELSE <<>>)
File ==
  LET head == EncFile(Before[pre])
      bad  == IF Rule THEN EncSeg(Fold(Before[pre]), RuleSeg) ELSE Planted
      tl   == IF suf THEN EncFile(<<After>>) ELSE <<>>
  IN  head \o bad \o tl

Init == /\ pre \in DOMAIN Before /\ be \in BOOLEAN /\ suf \in BOOLEAN
        /\ d \in ByteDefects \cup RuleDefects /\ done = FALSE
        /\ (d[1] = "stop" => ~suf)
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<pre, be, suf, d>>
        /\ (Emit => Gen(<<[e |-> "foreign", b |-> File], [e |-> "open"], Explore(<<"I16">>)>>))
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
(* a longer text or list may swallow what follows and then be anything but well-formed *)
Swallows == d[1] = "long" /\ d[3] = 3
Refused0 == ~done => \E v \in {Verdict(DecFile(File))} :
              IF Rule THEN (v = "err") = (Fold(Segs).err # "") \/ (suf /\ v = "err")
              ELSE IF Swallows THEN v # "ok" ELSE v = "err"
(* the prefix itself is well-formed, and so is the segment without its defect *)
Sound == ~done => /\ Verdict(DecFile(EncFile(Before[pre]))) = "ok"
                  /\ Verdict(DecFile(EncFile(Before[pre] \o <<Good0>>))) = "ok"
=============================================================================

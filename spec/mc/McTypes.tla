------------------------------ MODULE McTypes -------------------------------
(***************************************************************************)
(* Sample types, pair by pair (C10, C11).                                  *)
(*   Kind = "mixed"   two types side by side in one segment, both byte     *)
(*                    orders and layouts, and a further segment            *)
(*   Kind = "write"   the library writes the two types in every layout     *)
(*   Kind = "bits"    every single bit of every type, both byte orders     *)
(*   Kind = "change"  a channel whose type changes, read as every type     *)
(*   Kind = "both"    two channels of two types read together as every type*)
(***************************************************************************)
EXTENDS McCommon

CONSTANTS Kind, First, Second, Emit

VARIABLES t, u, be, inter, chosen
vars == <<t, u, be, inter, chosen>>
Init == /\ t \in First /\ u \in Second /\ be \in BOOLEAN /\ inter \in BOOLEAN /\ chosen = FALSE
Next == ~chosen /\ chosen' = TRUE /\ UNCHANGED <<t, u, be, inter>>
Spec == Init /\ [][Next]_vars

Seg(new, objs, lens, i, b, bytes) ==
  [new |-> new, inter |-> i, be |-> b, meta |-> TRUE, raw |-> TRUE, objs |-> objs, rawlen |-> bytes,
   src |-> <<"tok", lens>>]
E_(p, ty, n) == [p |-> p, ix |-> <<"raw", ty, n>>, props |-> <<>>]
Native(x) == CASE x = "F32U" -> "F32" [] x = "F64U" -> "F64" [] x = "ExtU" -> "Ext" [] OTHER -> x
Mixed ==
  << Seg(TRUE, <<E_(CA, t, 2), E_(CB, u, 2)>>, 1, inter, be, 4 * SizeOf(t) + 4 * SizeOf(u)),
     Seg(TRUE, <<E_(CB, u, 3), E_(CA, t, 3)>>, 101, ~inter, ~be, 3 * SizeOf(t) + 3 * SizeOf(u)),
     Seg(TRUE, <<E_(CA, t, 1)>>, 201, FALSE, be, SizeOf(t)) >>
Change ==
  << Seg(TRUE, <<E_(CA, t, 2)>>, 1, FALSE, be, 2 * SizeOf(t)),
     Seg(TRUE, <<E_(CA, u, 2)>>, 101, FALSE, inter, 2 * SizeOf(u)) >>
Both ==
  << Seg(TRUE, <<E_(CA, t, 2), E_(CB, u, 2)>>, 1, inter, be, 2 * SizeOf(t) + 2 * SizeOf(u)) >>
OneType == {"I16"}
Walk(ty) == LET w == SizeOf(ty)
                one(k) == [i \in 1..w |-> IF (k \div 8) + 1 = i THEN 2 ^ (k % 8) ELSE 0]
                all(x) == [i \in 1..w |-> x]
                not(k) == [i \in 1..w |-> 255 - one(k)[i]]
            IN  IF ty = "Bool" THEN <<<<0>>, <<1>>>>
                ELSE <<all(0), all(255), [i \in 1..w |-> i]>> \o [k \in 1..(8 * w) |-> one(k - 1)]
                     \o [k \in 1..(8 * w) |-> not(k - 1)]
ReadAll(p, ty, n) == Read(<<p>>, ty, 0, <<n>>)
SegEv(ss) == [e |-> "segs", segs |-> ss]
Len2 == <<[e |-> "len", path |-> CA], [e |-> "len", path |-> CB]>>
Script ==
  CASE Kind = "mixed" -> <<SegEv(Mixed)>> \o Len2 \o
         <<ReadAll(CA, Native(t), 9), ReadAll(CB, Native(u), 9), Read(<<CA>>, Native(t), 3, <<5>>),
           Read(<<CB>>, Native(u), 1, <<4>>), Read(<<CB>>, Native(u), 3, <<4>>)>>
    [] Kind = "change" -> <<SegEv(Change)>> \o
         FlattenSeq([i \in 1..Len(SetToSeq(WriteTypes)) |->
           LET r == SetToSeq(WriteTypes)[i]
           IN  <<Read(<<CA>>, r, 0, <<2>>), Read(<<CA>>, r, 1, <<2>>), Read(<<CA>>, r, 2, <<3>>), Read(<<CA>>, r, 0, <<4>>)>>])
    [] Kind = "both" -> <<SegEv(Both)>> \o
         FlattenSeq([i \in 1..Len(SetToSeq(WriteTypes)) |->
           LET r == SetToSeq(WriteTypes)[i]
           IN  <<Read(<<CA, CB>>, r, 0, <<2, 2>>), Read(<<CB, CA>>, r, 1, <<1, 2>>), Read(<<CB, CA>>, r, 0, <<2, 0>>),
                 Read(<<CA>>, r, 0, <<2>>)>>])
    [] Kind = "write" ->
         LET lay == IF inter THEN "I" ELSE "C"
             ww(ev) == IF be THEN <<Op("wopen"), ev, Op("wdrop")>> ELSE <<ev>>
             body == <<Write(<<CA>>, t, 1, 2, "C"), Write(<<CB>>, u, 11, 3, "C"),
                       Write(<<CA, CB>>, t, 21, 4, lay), Write(<<CB, CA>>, u, 31, 2, lay)>>
             steps == IF be THEN FlattenSeq([i \in 1..4 |-> ww(body[i])]) ELSE <<Op("wopen")>> \o body \o <<Op("wdrop")>>
             look == Len2 \o <<Read(<<CA>>, t, 0, <<2>>), Read(<<CB>>, u, 0, <<3>>),
                               Read(<<CA>>, t, 2, <<2>>), Read(<<CB>>, t, 3, <<2>>),
                               Read(<<CA>>, u, 4, <<2>>), Read(<<CB>>, u, 5, <<2>>)>>
         IN  <<Fresh0>> \o steps \o look \o <<Snap, Op("open")>> \o look
    [] Kind = "bits" -> <<[e |-> "bits", ty |-> t, be |-> be, vals |-> Walk(t)]>>
(* only one of the two byte orders and layouts matters for some kinds *)
Wanted == CASE Kind = "bits" -> ~inter [] Kind \in {"change", "both"} -> TRUE [] OTHER -> TRUE
Told == Emit /\ chosen /\ Wanted => Gen(Script)

(* ------------------------------ properties ------------------------------ *)
Segments == CASE Kind = "mixed" -> Mixed [] Kind = "change" -> Change [] Kind = "both" -> Both [] OTHER -> <<>>
Self ==   \* the bytes of the segments are what the tokens say
  ~chosen \/
  LET d == DecFile(EncFile(Segments))
      A == ObjsOf(Fold(Segments))
      B == ObjsOf(Fold(SegsOf(d)))
  IN  d.last.st = "end" /\ DOMAIN A = DOMAIN B /\ \A p \in DOMAIN A : SameData(A[p].data, B[p].data)
SwapTwice == (be \/ inter \/ ~chosen) \/ \A v \in ToSet(Walk(t)) : Swap(t, Swap(t, v)) = v
TokensDecode == (be \/ inter \/ ~chosen) \/ \A k \in {0, 1, 2, 255, 256, 65535, 65536, 1000000} \cup (Special..(Special + Specials)) :
                  \A o \in BOOLEAN : TokEq(BytesTok(t, TokBytes(t, k, o), o), k, Modulus(t))
SameWidth == \A r \in WriteTypes : \A s \in Compatible(r) : SizeOf(s) = SizeOf(r)
=============================================================================

------------------------------ MODULE McFields ------------------------------
(***************************************************************************)
(* Small valid files in which every four and every eight consecutive bytes *)
(* are replaced by an extreme number, and every pair of the numbers that   *)
(* the arithmetic combines (C12).  The windows slide over every byte, so   *)
(* no field is missed whatever the layout is; what each file means is not  *)
(* asked here (see McMalformed), only that it is opened and used, or       *)
(* refused, without harm.                                                  *)
(***************************************************************************)
EXTENDS McCommon

CONSTANTS Emit

VARIABLES f, at, mode
E(p, ix, kv) == [p |-> p, ix |-> ix, props |-> kv]
S0(new, meta, be, inter, os, n) ==
  [new |-> new, inter |-> inter, be |-> be, meta |-> meta, raw |-> n > 0, objs |-> os, rawlen |-> n,
   src |-> <<"tok", 1 + n>>]
Kv == << <<x_, U8Val(7)>>, <<b_, StrVal(<<97>>)>> >>
Bases ==
  << << S0(TRUE, TRUE, FALSE, FALSE, <<E(CA, <<"raw", "I16", 2>>, Kv), E(CB, <<"raw", "I16", 2>>, <<>>)>>, 16),
        S0(FALSE, FALSE, FALSE, FALSE, <<>>, 8),
        S0(TRUE, TRUE, FALSE, TRUE, <<E(CB, <<"prev">>, <<>>), E(CA, <<"raw", "I16", 2>>, <<>>)>>, 8) >>,
     << S0(TRUE, TRUE, TRUE, TRUE, <<E(Grp, <<"none">>, Kv), E(CA, <<"raw", "F64", 1>>, <<>>)>>, 24),
        S0(FALSE, TRUE, FALSE, FALSE, <<E(CB, <<"raw", "U8", 1>>, <<>>)>>, 18) >> >>
(* strings in the raw data, and samples of no size: written as bytes here *)
Lead28(next, off) == <<84, 68, 83, 109, 14, 0, 0, 0, 105, 18, 0, 0>> \o U64(next, FALSE) \o U64(off, FALSE)
Obj8(p, ix) == U32(Len(p), FALSE) \o p \o ix \o U32(0, FALSE)
StrIx == U32(28, FALSE) \o U32(32, FALSE) \o U32(1, FALSE) \o U64(1, FALSE) \o U64(5, FALSE)
VoidIx == U32(20, FALSE) \o U32(0, FALSE) \o U32(1, FALSE) \o U64(3, FALSE)
U8Ix == U32(20, FALSE) \o U32(5, FALSE) \o U32(1, FALSE) \o U64(1, FALSE)
ByHand(ix, raw) == LET m == U32(2, FALSE) \o Obj8(CA, ix) \o Obj8(CB, U8Ix)
                   IN  Lead28(Len(m) + Len(raw), Len(m)) \o m \o raw
Files == << EncFile(Bases[1]), EncFile(Bases[2]), ByHand(StrIx, <<1, 0, 0, 0, 65, 9>>), ByHand(VoidIx, <<7, 8>>) >>
(* where the numbers are that the arithmetic combines *)
Numbers == << <<12, 20, 56>>, <<12, 20>>, <<12, 20, 56, 64, 100>>, <<12, 20, 56, 92>> >>

Patch(b, a, x) == [i \in 1..Len(b) |-> IF i > a /\ i <= a + Len(x) THEN x[i - a] ELSE b[i]]
FF(n) == [i \in 1..n |-> 255]
Top(n, t) == [i \in 1..n |-> IF i = n THEN t ELSE IF t = 128 THEN 0 ELSE 255]      \* 2^(8n-1), 2^(8n-1)-1
One(n, k) == [i \in 1..n |-> IF i = 1 THEN k ELSE 0]
Near(n, k) == [i \in 1..n |-> IF i = 1 THEN 256 - k ELSE 255]
Bit(n, i, v) == [j \in 1..n |-> IF j = i THEN v ELSE 0]
Extremes(n) == { FF(n), Top(n, 128), Top(n, 127), One(n, 0), One(n, 1), One(n, 255), Near(n, 28), Near(n, 29), Near(n, 30),
                 Bit(n, n, 64), Bit(n, n, 32), Bit(n, n - 1, 1), Bit(n, (n \div 2) + 1, 1) }
Ends(x) == { x, [i \in 1..Len(x) |-> x[Len(x) + 1 - i]] }
Fuzz(bs) == [i \in 1..Len(bs) |-> [e |-> "fuzz", b |-> bs[i]]]
Window(b, a, n) ==
  SetToSeq({ Patch(b, a, y) : y \in UNION { Ends(x) : x \in Extremes(n) } })
PairOf(b, a1, a2) ==
  SetToSeq({ Patch(Patch(b, a1, x), a2, y) : x \in Extremes(8), y \in Extremes(8) })

Init == f \in 1..Len(Files) /\ at = 0 /\ mode = "w4"
Step4 == mode = "w4" /\ at < Len(Files[f]) - 4 /\ at' = at + 1 /\ UNCHANGED <<f, mode>>
Turn8 == mode = "w4" /\ at = Len(Files[f]) - 4 /\ at' = 0 /\ mode' = "w8" /\ UNCHANGED f
Step8 == mode = "w8" /\ at < Len(Files[f]) - 8 /\ at' = at + 1 /\ UNCHANGED <<f, mode>>
TurnP == mode = "w8" /\ at = Len(Files[f]) - 8 /\ at' = 0 /\ mode' = "pair" /\ UNCHANGED f
Np == Len(Numbers[f])
StepP == mode = "pair" /\ at < Np * Np - 1 /\ at' = at + 1 /\ UNCHANGED <<f, mode>>
Next == Step4 \/ Turn8 \/ Step8 \/ TurnP \/ StepP
Spec == Init /\ [][Next]_<<f, at, mode>>

(* the files are legal, so that every deviation is due to the numbers *)
Legal == at = 0 /\ mode = "w4" => LET v == Verdict(DecFile(Files[f])) IN v # "err"
Told == Emit =>
  CASE mode = "w4" -> Gen(Fuzz(Window(Files[f], at, 4)))
    [] mode = "w8" -> Gen(Fuzz(Window(Files[f], at, 8)))
    [] mode = "pair" -> LET a1 == Numbers[f][(at \div Np) + 1]
                            a2 == Numbers[f][(at % Np) + 1]
                        IN  a1 >= a2 \/ Gen(Fuzz(PairOf(Files[f], a1, a2)))
=============================================================================

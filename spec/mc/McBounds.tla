------------------------------ MODULE McBounds ------------------------------
(***************************************************************************)
(* The arithmetic of opening a file whose numbers may be anything (C12),   *)
(* in a machine word of Max+1 values of which positions may use 0..SMax    *)
(* (half, as for 64-bit words and signed positions).  A segment starts     *)
(* with a lead-in of Lead bytes holding two words, the distance to the     *)
(* next segment and to the raw data; one or two channels claim n samples   *)
(* of w bytes (w = 0 for samples without content).  Every number is        *)
(* arbitrary.  The machine computes with the operations that Design        *)
(* selects; ghost values are exact.                                        *)
(*   positions, chunk counts and lengths equal the exact ones, or the file *)
(*   is refused; no division by zero; every accepted sample lies inside    *)
(*   its segment; positions strictly advance, so the walk ends             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Max, SMax, Lead, Stream, Words, Counts, Widths, Depth, Design

VARIABLES pos, st, tot, n, bad
vars == <<pos, st, tot, n, bad>>

Err == -1
Min(a, b) == IF a < b THEN a ELSE b
Fits(x) == IF Design = "wrap" THEN x % (Max + 1) ELSE IF x > Max THEN Err ELSE x
Add(a, b) == IF a = Err \/ b = Err THEN Err ELSE Fits(a + b)
MulWrap(x) == IF Design \in {"wrap", "mulwrap"} THEN x % (Max + 1) ELSE IF x > Max THEN Err ELSE x
Mul(a, b) == IF a = Err \/ b = Err THEN Err ELSE MulWrap(a * b)
Sat(a, b) == Min(a + b, Max)

(* a block of raw data: where, how long, how many chunks; Err when refused *)
NoBlock == [start |-> 0, len |-> 0, chunks |-> 0, cb |-> 0, used |-> FALSE]
Block(p, next, off, cs) ==
  LET len   == IF off > next THEN (IF Design = "wrap" THEN (next - off) % (Max + 1) ELSE Err) ELSE next - off
      start == Add(Add(p, Lead), off)
      end   == Add(start, len)
      cb    == IF Len(cs) = 1 THEN Mul(cs[1][1], cs[1][2])
               ELSE Add(Mul(cs[1][1], cs[1][2]), Mul(cs[2][1], cs[2][2]))
  IN  IF len = Err \/ (len = 0 /\ Design # "empty") \/ start = Err \/ end = Err \/ cb = Err
         \/ (end > SMax /\ Design # "unsigned") THEN [NoBlock EXCEPT !.start = Err]
      ELSE IF cb = 0 /\ Design = "divide" THEN [NoBlock EXCEPT !.start = start, !.used = TRUE, !.chunks = Err]
      ELSE [start |-> start, len |-> len, chunks |-> IF cb = 0 THEN 0 ELSE len \div cb, cb |-> cb, used |-> TRUE]

Lists == { <<c>> : c \in Counts \X Widths } \cup { <<c, d>> : c \in Counts \X Widths, d \in Counts \X Widths }

(* ------------------------- what has to be true -------------------------- *)
Bytes(cs) == IF Len(cs) = 1 THEN cs[1][1] * cs[1][2] ELSE cs[1][1] * cs[1][2] + cs[2][1] * cs[2][2]
(* the exact place of the raw data, inside the segment and within positions *)
Inside(p, next, off, cs, b) ==
  /\ b.start = p + Lead + off /\ b.len = next - off /\ b.len > 0
  /\ b.start + b.len <= SMax
  /\ b.cb = Bytes(cs)
  /\ (b.cb > 0 => b.chunks = b.len \div b.cb)
(* every step a reader takes inside the block stays inside *)
ReadsInside(cs, b) == b.chunks * Bytes(cs) <= b.len
(* lengths are exact unless they are beyond any file, then they stay at the top *)
Longer(t, cs, i, b) == IF Len(cs) < i THEN t ELSE Min(t + cs[i][1] * b.chunks, Max)

(* ------------------------------ behaviours ------------------------------ *)
Init == pos = 0 /\ st = "open" /\ tot = <<0, 0>> /\ n = 0 /\ bad = ""
Stop(s) == st' = s /\ UNCHANGED <<pos, tot, n, bad>>
Next ==
  /\ st = "open" /\ n < Depth /\ bad = ""
  /\ IF pos > Stream - Lead THEN Stop("end")
     ELSE \E next, off \in Words :
       LET to == Add(Add(next, Lead), pos) IN
       \/ /\ IF to = Err THEN Stop("refused")
             ELSE pos' = to /\ n' = n + 1 /\ UNCHANGED <<st, tot, bad>>
       \/ \E cs \in Lists :
            LET b  == Block(pos, next, off, cs)
                k1 == Mul(cs[1][1], b.chunks)
                k2 == IF Len(cs) = 2 THEN Mul(cs[2][1], b.chunks) ELSE 0
                t2 == <<Sat(tot[1], k1), Sat(tot[2], k2)>>
            IN  IF b.start = Err \/ to = Err \/ (b.chunks # Err /\ (k1 = Err \/ k2 = Err)) THEN Stop("refused")
                ELSE /\ pos' = to /\ n' = n + 1 /\ UNCHANGED st /\ tot' = t2
                     /\ bad' = IF b.chunks = Err THEN "division by zero"
                               ELSE IF ~Inside(pos, next, off, cs, b) THEN "place"
                               ELSE IF ~ReadsInside(cs, b) THEN "outside"
                               ELSE IF t2 # <<Longer(tot[1], cs, 1, b), Longer(tot[2], cs, 2, b)>> THEN "length"
                               ELSE ""
Spec == Init /\ [][Next]_vars
View == <<pos, st, tot, bad>>

Sound == bad = ""
Advances == [][ st' = "open" => pos' >= pos + Lead ]_vars
WalkEnds == n * Lead <= pos
=============================================================================

------------------------------ MODULE TdmsRuns ------------------------------
(***************************************************************************)
(* Sample sequences as arithmetic runs.                                    *)
(*                                                                         *)
(* Every sample the harness writes carries a token (a natural number); a   *)
(* sample type of w bytes stores the token modulo its value space.  A run  *)
(* is a tuple <<b, s, n>>: the n tokens b, b+s, b+2s, ...  Negative b are  *)
(* markers with s = 0.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
LOCAL INSTANCE SequencesExt

Untouched == -1     \* the buffer element was not written by the read
Foreign   == -2     \* a value that no token of the type denotes
Lost      == -9     \* specification only: a sample that is not in the file
Wild      == -3     \* specification only: any value is acceptable

RunsLen(rs) == FoldLeft(LAMBDA a, r : a + r[3], 0, rs)

(* run r without its first k elements, limited to m elements *)
SubRun(r, k, m) == <<IF r[1] < 0 THEN r[1] ELSE r[1] + k * r[2], r[2], m>>

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

(* the tokens at positions from .. from+n-1 (fewer when rs is shorter) *)
RunsSlice(rs, from, n) ==
  LET take(acc, r) ==
        LET lo == Max2(from - acc[1], 0)
            m  == Min2(r[3] - lo, n - acc[3])
        IN  IF m <= 0 THEN <<acc[1] + r[3], acc[2], acc[3]>>
            ELSE <<acc[1] + r[3], Append(acc[2], SubRun(r, lo, m)), acc[3] + m>>
  IN  FoldLeft(take, <<0, <<>>, 0>>, rs)[2]

TokEq(a, b, M) == IF M = 0 THEN a = b ELSE (a - b) % M = 0

(* do the first m elements of two runs agree, for value spaces of M values (0: all) *)
RunEq(r1, r2, m, M) ==
  \/ r1[1] = Wild \/ r2[1] = Wild
  \/ /\ r1[1] >= 0 /\ r2[1] >= 0
     /\ TokEq(r1[1], r2[1], M)
     /\ m = 1 \/ TokEq(r1[2], r2[2], M)
  \/ r1[1] < 0 /\ r1[1] = r2[1]

(* walk both: st = <<run and element of rs1, run and element of rs2, agreed so far>> *)
RunsEqual(rs1, rs2, M) ==
  LET step(st, k) ==
        IF ~st[5] \/ st[1] > Len(rs1) THEN st
        ELSE IF st[3] > Len(rs2) THEN <<st[1], st[2], st[3], st[4], FALSE>>
        ELSE LET a == rs1[st[1]]
                 b == rs2[st[3]]
                 m == Min2(a[3] - st[2], b[3] - st[4])
             IN  <<IF st[2] + m = a[3] THEN st[1] + 1 ELSE st[1],
                   IF st[2] + m = a[3] THEN 0 ELSE st[2] + m,
                   IF st[4] + m = b[3] THEN st[3] + 1 ELSE st[3],
                   IF st[4] + m = b[3] THEN 0 ELSE st[4] + m,
                   RunEq(SubRun(a, st[2], m), SubRun(b, st[4], m), m, M)>>
      end == FoldLeft(step, <<1, 0, 1, 0, TRUE>>, [k \in 1..(Len(rs1) + Len(rs2)) |-> k])
  IN  end[5] /\ end[1] = Len(rs1) + 1 /\ end[3] = Len(rs2) + 1

NoEmpty(rs) == SelectSeq(rs, LAMBDA r : r[3] > 0)

(* single tokens, reduced to the value space *)
Flat(rs, M) ==
  LET red(x) == IF M = 0 \/ x < 0 THEN x ELSE x % M
  IN  FlattenSeq([i \in 1..Len(rs) |->
        LET b == rs[i][1]  s == rs[i][2]
        IN  [k \in 1..rs[i][3] |-> IF b < 0 THEN b ELSE red(b + (k - 1) * s)]])
HasWild(rs) == \E i \in DOMAIN rs : rs[i][1] = Wild

RunsEq(rs1, rs2, M) ==
  \/ rs1 = rs2
  \/ LET n == RunsLen(rs1)
     IN  IF n # RunsLen(rs2) THEN FALSE
         ELSE IF n > 2000 \/ n > 3 * (Len(rs1) + Len(rs2)) \/ HasWild(rs1) \/ HasWild(rs2)
         THEN \E x \in {NoEmpty(rs1)} : \E y \in {NoEmpty(rs2)} : RunsEqual(x, y, M)
         ELSE Flat(rs1, M) = Flat(rs2, M)
=============================================================================

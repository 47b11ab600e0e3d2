------------------------------- MODULE McConv -------------------------------
(***************************************************************************)
(* Conversions of property values (C07): every type of value to every type *)
(* of the host language, at the corners of each type; time stamps to dates *)
(* and dates to time stamps around the epochs and at the ends of the        *)
(* calendar.  The specification (StepConv) says what each must give.         *)
(***************************************************************************)
EXTENDS McCommon

CONSTANTS Emit

Wants == {"I8", "I16", "I32", "I64", "U8", "U16", "U32", "U64", "F32", "F64", "Bool", "Time", "C64",
          "C128", "Str", "Chrono"}
Kinds == (Wants \ {"Chrono"}) \cup {"Void", "Ext"}
Fill(n, k) == [i \in 1..n |-> k]
Vals(t) ==
  CASE t = "Void" -> {<<>>}
    [] t = "Str"  -> {<<>>, <<120>>, <<195, 169>>, <<0>>, <<55>>}
    [] t = "Bool" -> {<<0>>, <<1>>}
    [] OTHER -> LET w == SizeOf(t)
                IN  {Fill(w, 0), Fill(w, 255), [i \in 1..w |-> i], [Fill(w, 0) EXCEPT ![w] = 128],
                     [Fill(w, 255) EXCEPT ![w] = 127], [Fill(w, 0) EXCEPT ![1] = 1]}

(* seconds *)
Pos(b) == b \o Fill(8 - Len(b), 0)
Neg(b) == b \o Fill(8 - Len(b), 255)
Secs == { Pos(<<>>), Pos(<<1>>), Pos(<<59>>), Pos(<<0, 0, 0, 128>>), Pos(<<255, 255, 255, 127>>), Pos(<<255, 255, 255, 255>>),
          Pos(<<0, 0, 0, 0, 1>>), Pos(<<128, 176, 37, 124>>), Pos(<<127, 176, 37, 124>>), Pos(<<129, 176, 37, 124>>),
          Pos(<<0, 0, 0, 0, 127>>), Neg(<<>>), Neg(<<1>>), Neg(<<128, 79, 218, 131>>), Neg(<<0, 0, 0, 0, 128>>),
          Pos(<<0, 0, 0, 0, 0, 128>>), Neg(<<0, 0, 0, 0, 0, 127>>), Pos(<<0, 0, 0, 0, 0, 0, 0, 64>>), Neg(<<0, 0, 0, 0, 0, 0, 0, 192>>),
          Pos(<<86, 52, 18, 200>>), Pos(<<1, 2, 3, 4, 5>>) }
Fracs == { Fill(8, 0), Fill(8, 255), Pos(<<1>>), Fill(7, 0) \o <<128>>, Fill(7, 255) \o <<127>>, Fill(7, 0) \o <<1>>,
           <<0, 0, 0, 0, 1, 0, 0, 0>>, <<255, 255, 255, 255, 0, 0, 0, 0>>, <<18, 52, 86, 120, 154, 188, 222, 240>> }
(* dates: seconds since 1970, nanoseconds *)
DateSecs == { Pos(<<>>), Pos(<<1>>), Neg(<<255>>), Neg(<<128, 79, 218, 131>>), Neg(<<129, 79, 218, 131>>), Pos(<<255, 255, 255, 127>>),
              Pos(<<0, 0, 0, 128>>), Pos(<<0, 16, 94, 95>>), Pos(<<7, 6, 5, 100>>), Pos(<<127, 79, 218, 131>>), Pos(<<128, 79, 218, 131>>) }
Nanos == { <<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<255, 201, 154, 59>>, <<0, 101, 205, 29>>, <<232, 3, 0, 0>>, <<64, 66, 15, 0>>, <<21, 205, 91, 7>> }

Conv(v, w) == Gen(<<[e |-> "conv", v |-> v, want |-> w]>>)

VARIABLE kind
Init == kind \in Kinds \cup {"date", "stamp"}
Next == UNCHANGED kind
Spec == Init /\ [][Next]_kind
Told == Emit =>
  CASE kind = "date"  -> \A s \in DateSecs, n \in Nanos : Conv(<<"Chrono", s \o n>>, "Time")
    [] kind = "stamp" -> \A s \in Secs, f \in Fracs : Conv(<<"Time", f \o s>>, "Chrono") /\ Conv(<<"Time", f \o s>>, "Time")
    [] OTHER -> \A v \in Vals(kind), w \in Wants :
                  ~(kind = "Time" /\ w = "Chrono") => Conv(<<kind, v>>, w)

(* the arithmetic of the specification itself *)
Seconds(s) == Add64(s, UnixEpoch)
ASSUME Wraps == /\ Add64(Neg(<<255>>), Pos(<<1>>)) = Pos(<<>>)
                /\ Add64(Pos(<<255, 255>>), Pos(<<1>>)) = Pos(<<0, 0, 1>>)
                /\ Seconds(Neg(<<128, 79, 218, 131>>)) = Pos(<<>>)
ASSUME Fractions == /\ FracNanos(Fill(8, 0)) = 0
                    /\ FracNanos(Fill(7, 0) \o <<128>>) = 500000000
                    /\ FracNanos(Fill(8, 255)) \in 999999980..999999999
ASSUME Moments ==
  \A s \in DateSecs, n \in Nanos, k \in Fracs :
    LET t == k \o Seconds(s) IN SameMoment(s \o n, t, 0) => Dist(Val32(n), FracNanos(k)) = 0
ASSUME Carries == \* a nanosecond before a second and the second itself are close
  SameMoment(Pos(<<4>>) \o <<255, 201, 154, 59>>, Fill(8, 0) \o Seconds(Pos(<<5>>)), 1)
=============================================================================

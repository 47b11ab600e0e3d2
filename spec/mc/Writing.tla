------------------------------- MODULE Writing -------------------------------
(***************************************************************************)
(* The design of writing: which segment a call appends, given what the     *)
(* index remembers (F).  Design selects the real one or a broken variant.  *)
(***************************************************************************)
EXTENDS TediumApi

CONSTANT Design

PrefixOf(s, t) == Len(s) <= Len(t) /\ \A i \in DOMAIN s : s[i] = t[i]
Entry(F, p, ty, per) ==
  LET has == p \in DOMAIN F.objs /\ F.objs[p].fmt # <<>>
      prev == /\ has
              /\ CASE Design = "lenonly" -> F.objs[p].fmt[2] = per
                   [] OTHER -> F.objs[p].fmt = <<ty, per>>
  IN  [p |-> p, ix |-> IF prev THEN <<"prev">> ELSE <<"raw", ty, per>>, props |-> <<>>]
WriteSeg(F, ev) ==
  LET C    == Len(ev.chs)
      per  == ev.n \div C
      same == CASE Design = "prefix" -> PrefixOf(F.active, ev.chs) \/ PrefixOf(ev.chs, F.active)
                [] Design = "set"    -> ToSet(F.active) = ToSet(ev.chs)
                [] OTHER             -> F.active = ev.chs
      objs == [c \in 1..C |-> Entry(F, ev.chs[c], ev.ty, per)]
      prev == \A c \in 1..C : objs[c].ix = <<"prev">>
      omit == same /\ F.active # <<>> /\ (prev \/ Design = "noformat")
  IN  [new |-> ~same, inter |-> ev.lay = "I", be |-> FALSE, meta |-> ~omit, raw |-> per > 0,
       objs |-> IF omit THEN <<>> ELSE objs, rawlen |-> SizeOf(ev.ty) * ev.n, src |-> <<"tok", ev.base>>]
PropSeg(ev) ==
  [new |-> FALSE, inter |-> FALSE, be |-> FALSE, meta |-> TRUE, raw |-> FALSE,
   objs |-> <<[p |-> ev.path, ix |-> <<"none">>, props |-> ev.kv]>>, rawlen |-> 0, src |-> <<"tok", 0>>]
=============================================================================

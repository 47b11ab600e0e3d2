------------------------------ MODULE McCommon ------------------------------
(***************************************************************************)
(* What the design models share: names, a way to hand the behaviours they  *)
(* enumerate to the harness, and the observations made at the end of one.  *)
(***************************************************************************)
EXTENDS TediumApi, Json

g_ == <<103>>  a_ == <<97>>  b_ == <<65>>  c_ == <<99>>  x_ == <<120>>
Ch(n) == ChannelPathOf(g_, n)
CA == Ch(a_)  CB == Ch(b_)  CC == Ch(c_)
Grp == GroupPath(g_)

(* a script: a sequence of events without results (see harness) *)
Gen(script) == PrintT("GEN " \o ToJson(script))
Op(e) == [e |-> e]
Explore(tys) == [e |-> "explore", o |-> [tys |-> tys, most |-> 40]]
Snap == [e |-> "bytes", full |-> TRUE, app |-> TRUE]
Fresh0 == [e |-> "new"]

Write(chs, ty, base, n, lay) ==
  [e |-> "write", chs |-> chs, ty |-> ty, base |-> base, n |-> n, lay |-> lay]
Props(p, kv) == [e |-> "props", path |-> p, kv |-> kv]
Read(chs, ty, from, lens) == [e |-> "read", chs |-> chs, ty |-> ty, from |-> from, lens |-> lens]
Ok(ev) == ev @@ [r |-> "ok"]

U8Val(k) == <<"U8", <<k>>>>
I32Val(k) == <<"I32", <<k, 0, 0, 255>>>>
StrVal(s) == <<"Str", s>>

Apply(S, ev) == LET res == Step(S, ev) IN IF res.ok THEN res.s ELSE Assert(FALSE, res.why)
=============================================================================

------------------------------ MODULE McPaths -------------------------------
(***************************************************************************)
(* All texts over a small alphabet, grown byte by byte, and all pairs of   *)
(* names (C09, C08):                                                       *)
(*   what parses is rebuilt from its names; what is built parses back      *)
(*   distinct names give distinct paths; kinds never mix                   *)
(* Emit prints every text to be parsed and every pair of names to be built.*)
(***************************************************************************)
EXTENDS McCommon

CONSTANTS Letters, MaxText, MaxName, Emit

VARIABLES text, done
Init == text = <<>> /\ done = (MaxText = 0)
(* multi-byte letters: an umlaut is two bytes *)
BytesOf == [slash |-> <<47>>, quote |-> <<39>>, a |-> <<97>>, dquote |-> <<34>>, uml |-> <<195, 164>>, nul |-> <<0>>, space |-> <<32>>]
Units == { BytesOf[k] : k \in Letters }
Next == /\ Len(text) < MaxText /\ UNCHANGED done
        /\ \E u \in Units : text' = text \o u
Spec == Init /\ [][Next]_<<text, done>>

(* the raw text of names, as it stands in a path *)
Raw(names) == IF names = <<>> THEN FilePath
              ELSE FlattenSeq([i \in 1..Len(names) |-> <<Slash, Quote>> \o names[i] \o <<Quote>>])
Rebuilt == LET r == Parse(text) IN r.ok => Raw(r.names) = text /\ Len(r.names) <= 2
NamesBalanced ==   \* quotes inside a name come in pairs
  LET r == Parse(text) IN r.ok =>
    \A i \in DOMAIN r.names : Cardinality({ j \in DOMAIN r.names[i] : r.names[i][j] = Quote }) % 2 = 0
Kinds == LET r == Parse(text) IN /\ (IsChannel(text) <=> r.ok /\ Len(r.names) = 2)
                                 /\ (GroupIn(text) = {} <=> ~r.ok \/ r.names = <<>>)
Told == Emit => Gen(<<[e |-> "parse", s |-> text]>>)

(* names: the texts up to MaxName letters without raw quotes are names *)
NamesUpTo == UNION { [1..k -> Letters] : k \in 0..MaxName }
NameBytes(n) == FlattenSeq([i \in 1..Len(n) |-> BytesOf[n[i]]])
Names == { NameBytes(n) : n \in NamesUpTo }
Plain == { n \in Names : NoQuote(n) }
ASSUME BuildsAreDistinct ==
  MaxName > 0 =>
    /\ Cardinality({ GroupPath(Clean) : Clean \in { n \in Plain : ~Contains(n, DQuote) } })
         = Cardinality({ n \in Plain : ~Contains(n, DQuote) })
    /\ \A g \in Plain : LET r == Parse(GroupPath(g)) IN r.ok /\ r.names = <<g>>
    /\ \A g \in Plain, c \in Plain : LET r == Parse(ChannelPathOf(g, c)) IN r.ok /\ r.names = <<g, c>>
ASSUME BuildsParse ==   \* whatever the names, what is built is a path of that kind
  MaxName > 0 => \A g \in Names, c \in Names : IsChannel(ChannelPathOf(g, c)) /\ Len(Parse(GroupPath(g)).names) = 1
ASSUME Emit /\ MaxName > 0 =>
  /\ Gen(<<[e |-> "mk", kind |-> "file", g |-> <<>>, c |-> <<>>]>>)
  /\ \A g \in Names : Gen(<<[e |-> "mk", kind |-> "group", g |-> g, c |-> <<>>]>>)
  /\ \A g \in Names, c \in Names : Gen(<<[e |-> "mk", kind |-> "chan", g |-> g, c |-> c]>>)
=============================================================================

------------------------------ MODULE TdmsPaths ------------------------------
(***************************************************************************)
(* Object paths.  Names and paths are sequences of bytes (UTF-8).          *)
(*   path ::= "/" | "/" quoted | "/" quoted "/" quoted                     *)
(*   quoted ::= "'" (any byte but "'" | "''")* "'"                         *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL INSTANCE SequencesExt

Quote == 39  Slash == 47  DQuote == 34

Bad == [ok |-> FALSE, names |-> <<>>]
(* The grammar as an automaton over the bytes.  States: "slash" a "/" must    *)
(* follow, "open" an opening quote must follow, "in" inside a name, "quote"   *)
(* after a quote inside a name (it closes the name unless another follows).   *)
(* i counts bytes; from is where the current name starts.                     *)
PathStep(p, a, c) ==
  LET i == a.i + 1
  IN  CASE a.st = "slash" -> IF c = Slash THEN [a EXCEPT !.st = "open", !.i = i] ELSE [a EXCEPT !.st = "bad"]
        [] a.st = "open"  -> IF c = Quote THEN [a EXCEPT !.st = "in", !.i = i, !.from = i + 1] ELSE [a EXCEPT !.st = "bad"]
        [] a.st = "in"    -> IF c = Quote THEN [a EXCEPT !.st = "quote", !.i = i] ELSE [a EXCEPT !.i = i]
        [] a.st = "quote" -> IF c = Quote THEN [a EXCEPT !.st = "in", !.i = i]
                             ELSE IF c = Slash
                             THEN [a EXCEPT !.st = "open", !.i = i,
                                            !.names = Append(@, SubSeq(p, a.from, i - 2))]
                             ELSE [a EXCEPT !.st = "bad"]
        [] OTHER -> a
ParseNames(p) ==
  LET end == FoldLeft(LAMBDA a, c : PathStep(p, a, c),
                      [st |-> "slash", i |-> 0, from |-> 0, names |-> <<>>], p)
  IN  IF end.st = "quote" THEN [ok |-> TRUE, names |-> Append(end.names, SubSeq(p, end.from, end.i - 1))]
      ELSE Bad

(* strict grammar with any number of levels *)
ParseAny(p) == IF p = <<Slash>> THEN [ok |-> TRUE, names |-> <<>>]
               ELSE ParseNames(p)
(* a path of the grammar: at most two levels *)
Parse(p) == LET r == ParseAny(p) IN IF r.ok /\ Len(r.names) <= 2 THEN r ELSE Bad

(* text that a lenient parser may or may not accept: quotes where the grammar has none *)
Lenient(p) == /\ Len(p) >= 4 /\ p[1] = Slash /\ p[2] = Quote /\ p[Len(p)] = Quote
              /\ ~ParseAny(p).ok

Escape(name) == [i \in 1..Len(name) |-> IF name[i] = Quote THEN DQuote ELSE name[i]]
Quoted(name) == <<Quote>> \o Escape(name) \o <<Quote>>
FilePath == <<Slash>>
GroupPath(g) == <<Slash>> \o Quoted(g)
ChannelPathOf(g, c) == GroupPath(g) \o <<Slash>> \o Quoted(c)

IsChannel(p) == LET r == Parse(p) IN r.ok /\ Len(r.names) = 2
(* the group a path belongs to, as a set of at most one name *)
GroupIn(p) == LET r == Parse(p) IN IF r.ok /\ Len(r.names) >= 1 THEN {r.names[1]} ELSE {}
=============================================================================

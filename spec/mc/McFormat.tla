------------------------------ MODULE McFormat ------------------------------
(***************************************************************************)
(* Files of other producers: every sequence of segments that combines new  *)
(* and inherited object lists, entries without data, repeated formats,     *)
(* changed formats, missing metadata, raw data or none, both byte orders   *)
(* and layouts, several chunks and a remainder.                            *)
(*   C06  what a file shows is what its explicit form shows: the same      *)
(*        segments each with a complete new list and explicit formats      *)
(*   C06  the bytes of the segments decode to the same content             *)
(*   C13  an illegal segment makes the whole file illegal                  *)
(*   C01  segments only add samples                                        *)
(* Emit prints one script per transition of the state (active list,        *)
(* remembered formats): a file with that last segment.                     *)
(***************************************************************************)
EXTENDS McCommon

CONSTANTS Entries, Pairs, PropsOn, Depth, Emit, Bytes

VARIABLES segs, F
vars == <<segs, F>>

Ix == [none |-> <<"none">>, prev |-> <<"prev">>, i16 |-> <<"raw", "I16", 2>>, i32 |-> <<"raw", "I32", 2>>,
       one |-> <<"raw", "I16", 1>>, f64 |-> <<"raw", "F64", 2>>, zero |-> <<"raw", "I16", 0>>]
Kv(p, k) == IF PropsOn THEN <<<<x_, U8Val(k)>>>> ELSE <<>>
Ent(p, e, k) == [p |-> p, ix |-> Ix[e], props |-> Kv(p, k)]
ObjLists(k) ==
  { <<>> } \cup { <<Ent(p, e, k)>> : p \in {CA, CB}, e \in Entries }
  \cup { <<Ent(CA, e[1], k), Ent(CB, e[2], k)>> : e \in Pairs \X Pairs }
  \cup { <<Ent(CB, e[1], k), Ent(CA, e[2], k)>> : e \in Pairs \X Pairs }

Code(e) == CASE e = <<"none">> -> 1 [] e = <<"prev">> -> 2 [] OTHER -> e[3] + Len(e[2]) + SizeOf(e[2])
Hash(os, new) == SumTo([i \in 1..Len(os) |-> Code(os[i].ix) * i], Len(os)) + (IF new THEN 3 ELSE 0) + 5 * Len(segs)
(* layout, byte order, chunks, remainder and unused bytes vary with the shape *)
Style(h) == [inter |-> (h \div 2) % 2 = 1, be |-> h % 2 = 1, nch |-> 1 + ((h \div 3) % 2), rest |-> (h \div 4) % 2,
             pad |-> IF h % 5 = 0 THEN 3 ELSE 0]

Rate(G) == { G.objs[G.active[i]].fmt[2] : i \in DOMAIN G.active }
Seg(os, new, meta, raw) ==
  LET st == Style(Hash(os, new))
      G  == AddObjects(IF new THEN [F EXCEPT !.active = <<>>] ELSE F, IF meta THEN os ELSE <<>>)
      cb == ChunkBytes(G)
  IN  [new |-> new, inter |-> st.inter /\ Cardinality(Rate(G)) <= 1, pad |-> st.pad, be |-> st.be, meta |-> meta, raw |-> raw, objs |-> os,
       rawlen |-> IF ~raw \/ G.err # "" THEN 0
                  ELSE IF cb = 0 THEN 4 ELSE cb * st.nch + (IF cb > 1 THEN st.rest ELSE 0),
       src |-> <<"tok", 1 + 50 * Len(segs)>>]
(* channels of different lengths share contiguous segments only; raw data
   without a single sample are not generated *)
Judged(seg) == LET G == AddObjects(IF seg.new THEN [F EXCEPT !.active = <<>>] ELSE F, seg.objs)
               IN  ~seg.raw \/ G.err # "" \/ Rate(G) # {0}

Script(ss) == <<[e |-> "segs", segs |-> ss], Explore(<<"I16", "I32">>)>>
Init == segs = <<>> /\ F = FileInit
Next == /\ Len(segs) < Depth /\ F.err = ""
        /\ \E new, meta, raw \in BOOLEAN :
           \E os \in (IF meta THEN ObjLists(Len(segs)) ELSE { <<>> }) :
             LET seg == Seg(os, new, meta, raw)
             IN  /\ Judged(seg)
                 /\ segs' = Append(segs, seg) /\ F' = AddSegment(F, seg)
                 /\ (Emit => Gen(Script(Append(segs, seg))))
Spec == Init /\ [][Next]_vars
Abstract == <<Len(segs) = 0, F.active, F.err, [p \in DOMAIN F.objs |-> <<F.objs[p].fmt, F.objs[p].data # <<>>>>]>>

(* ------------------------------ properties ------------------------------ *)
(* the segments with everything said explicitly *)
Explicit(k) ==
  LET G  == FoldTo(segs, k)
      s  == segs[k]
      os == [c \in 1..Len(G.active) |->
              [p |-> G.active[c], ix |-> <<"raw", G.objs[G.active[c]].fmt[1], G.objs[G.active[c]].fmt[2]>>, props |-> <<>>]]
      add == [i \in 1..Len(s.objs) |-> [s.objs[i] EXCEPT !.ix = <<"none">>]]
  IN  [s EXCEPT !.new = TRUE, !.meta = TRUE, !.objs = os \o add]
ExplicitForm == [k \in 1..Len(segs) |-> Explicit(k)]
SameShown(A, B) == DOMAIN A = DOMAIN B /\ \A p \in DOMAIN A : A[p].props = B[p].props /\ SameData(A[p].data, B[p].data)
ElisionIsInvisible == F.err = "" => SameShown(ObjsOf(F), ObjsOf(Fold(ExplicitForm)))
BytesAgree ==
  Bytes => LET d == DecFile(TLCEval(EncFile(segs)))
               G == Fold(SegsOf(d))
           IN  IF F.err = "" THEN d.last.st = "end" /\ G.err = "" /\ SameShown(ObjsOf(F), ObjsOf(G))
               ELSE Verdict(d) = "err"
OnlyListedHaveData == \A p \in DOMAIN F.objs : F.objs[p].data # <<>> => F.objs[p].fmt # <<>>
OnlyAdds == [][ F'.err = "" => \A p \in DOMAIN F.objs :
                  /\ p \in DOMAIN F'.objs /\ Len(F.objs[p].data) <= Len(F'.objs[p].data)
                  /\ \A i \in DOMAIN F.objs[p].data : F'.objs[p].data[i] = F.objs[p].data[i] ]_vars
=============================================================================

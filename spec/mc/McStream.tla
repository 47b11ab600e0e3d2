------------------------------- MODULE McStream -------------------------------
(***************************************************************************)
(* The output path: calls hand pieces of bytes to a buffer of Cap bytes,   *)
(* which hands them to a stream that may take fewer bytes than offered,    *)
(* report an interruption, or fail.  Bytes are numbered in the order the   *)
(* calls produce them, so the right stream content is 1, 2, 3, ...         *)
(*   C15  InOrder   the stream never holds anything but a prefix of what   *)
(*                  was produced (until a call has failed)                 *)
(*   C15  Durable   after a successful sync or a clean close the stream    *)
(*                  holds every byte of every successful call              *)
(*   C17  Surfaced  a call during which the stream failed does not report  *)
(*                  success                                                *)
(*   C17  Kept      what was stored before a call stays as it was          *)
(*   C17  Calm      short transfers and interruptions alone never make a   *)
(*                  call fail                                              *)
(* Flaw selects broken designs: "short" (a short transfer of a large piece *)
(* is taken as complete), "nosync", "swallow" (errors are dropped),        *)
(* "intr" (an interruption is an error), "noclose".                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Cap, Calls, Most, Errors, Flaw
(* the pieces of the kinds of calls: lead-in and metadata, texts, samples *)
Menu == << <<1, 1>>, <<2>>, <<1, 4>>, <<3, 3>>, <<5>> >>

VARIABLES made,     \* bytes produced so far
          buf, str, \* buffered bytes and stream content: sequences of byte numbers
          call,     \* "idle", or the call under way
          todo,     \* pieces of the call still to come
          rest,     \* what is left of a piece going directly to the stream
          pend,     \* the piece waiting for the buffer to be written
          acked, broken, fault, errs, n, shut, old
vars == <<made, buf, str, call, todo, rest, pend, acked, broken, fault, errs, n, shut, old>>

Seq0(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
Drop(s, k) == SubSeq(s, k + 1, Len(s))
Init == /\ made = 0 /\ buf = <<>> /\ str = <<>> /\ call = "idle" /\ todo = <<>> /\ rest = <<>> /\ pend = <<>>
        /\ acked = 0 /\ broken = FALSE /\ fault = FALSE /\ errs = 0 /\ n = 0 /\ shut = FALSE /\ old = <<>>

Begin == /\ call = "idle" /\ ~shut /\ n < Calls /\ n' = n + 1 /\ old' = str /\ fault' = FALSE
         /\ \/ \E k \in DOMAIN Menu : call' = "write" /\ todo' = Menu[k] /\ pend' = <<>>
            \/ call' = "sync" /\ todo' = <<>> /\ pend' = <<>>
         /\ UNCHANGED <<made, buf, str, rest, acked, broken, errs, shut>>
Close == /\ call = "idle" /\ ~shut /\ call' = "close" /\ old' = str /\ fault' = FALSE /\ todo' = <<>> /\ pend' = <<>>
         /\ UNCHANGED <<made, buf, str, rest, acked, broken, errs, n, shut>>

(* the next piece: into the buffer if it fits *)
Busy == call \in {"write", "sync", "close"}
Flushing == Busy /\ rest = <<>> /\ buf # <<>>
            /\ \/ pend # <<>> /\ Len(buf) + Len(pend) > Cap
               \/ call = "sync" /\ Flaw # "nosync"
               \/ call = "close" /\ Flaw # "noclose"
Piece == /\ call = "write" /\ pend = <<>> /\ rest = <<>> /\ todo # <<>>
         /\ pend' = Seq0(made + 1, made + todo[1]) /\ made' = made + todo[1] /\ todo' = Tail(todo)
         /\ UNCHANGED <<buf, str, call, rest, acked, broken, fault, errs, n, shut, old>>
Store == /\ call = "write" /\ pend # <<>> /\ Len(buf) + Len(pend) <= Cap /\ Len(pend) < Cap
         /\ buf' = buf \o pend /\ pend' = <<>>
         /\ UNCHANGED <<made, str, call, todo, rest, acked, broken, fault, errs, n, shut, old>>
Direct == /\ call = "write" /\ pend # <<>> /\ buf = <<>> /\ Len(pend) >= Cap
          /\ rest' = pend /\ pend' = <<>>
          /\ UNCHANGED <<made, buf, str, call, todo, acked, broken, fault, errs, n, shut, old>>

(* the stream takes k of the bytes offered *)
Offered == IF rest # <<>> THEN rest ELSE buf
Active == rest # <<>> \/ Flushing
Take == /\ Active /\ \E k \in 1..Len(Offered) :
           /\ (k < Len(Offered) => k <= Most)
           /\ str' = str \o SubSeq(Offered, 1, k)
           /\ IF rest # <<>>
              THEN rest' = (IF Flaw = "short" THEN <<>> ELSE Drop(rest, k)) /\ buf' = buf
              ELSE buf' = Drop(buf, k) /\ rest' = rest
        /\ UNCHANGED <<made, call, todo, pend, acked, broken, fault, errs, n, shut, old>>
Finish(ok) ==
  /\ call' = "idle" /\ todo' = <<>> /\ rest' = <<>> /\ pend' = <<>>
  /\ acked' = IF ok /\ call = "write" THEN made ELSE acked
  /\ broken' = (broken \/ ~ok) /\ shut' = (shut \/ call = "close")
Interrupt == /\ Active /\ Flaw = "intr" /\ Finish(FALSE)
             /\ UNCHANGED <<made, buf, str, fault, errs, n, old>>
Fail == /\ Active /\ errs < Errors /\ errs' = errs + 1 /\ fault' = TRUE
        /\ Finish(Flaw = "swallow") /\ UNCHANGED <<made, buf, str, n, old>>
Return == /\ Busy /\ todo = <<>> /\ pend = <<>> /\ rest = <<>> /\ ~Flushing
          /\ Finish(TRUE) /\ UNCHANGED <<made, buf, str, fault, errs, n, old>>
Next == Begin \/ Close \/ Piece \/ Store \/ Direct \/ Take \/ Interrupt \/ Fail \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Piece \/ Store \/ Direct \/ Take \/ Return)

(* ------------------------------ properties ------------------------------ *)
IsCount(s) == \A i \in DOMAIN s : s[i] = i
InOrder  == ~broken => IsCount(str \o rest) /\ IsCount(str \o (IF rest = <<>> THEN buf \o pend ELSE rest))
Complete == ~broken => Len(str \o buf) >= acked
Surfaced == [][ (call \in {"write", "sync"} /\ call' = "idle" /\ fault') => broken' /\ acked' = acked ]_vars
Durable  == [][ (call \in {"sync", "close"} /\ call' = "idle" /\ ~broken') => Len(str') >= acked /\ IsCount(str') ]_vars
Kept     == [][ Len(str') >= Len(str) /\ SubSeq(str', 1, Len(str)) = str ]_vars
Calm     == broken => errs > 0
(* a call comes to an end: the stream cannot starve it by short transfers *)
Ends     == (call # "idle") ~> (call = "idle")
=============================================================================

---------------------------- MODULE TediumTrace -----------------------------
(***************************************************************************)
(* Validates executions recorded from the library: every event of the      *)
(* trace must be a step that TediumApi allows in the state reached so far. *)
(* After an event that is not allowed the rest of its case is skipped, so  *)
(* that one run reports every offending case.                              *)
(***************************************************************************)
EXTENDS TediumApi, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, S, skip, bad

Init == l = 1 /\ S = Session /\ skip = FALSE /\ bad = 0

Begins(ev) == Has(ev, "case")
(* bound by a quantifier, so that TLC computes the step once *)
Next ==
  /\ l <= Len(Trace)
  /\ LET ev == Trace[l]
     IN  IF skip /\ ~Begins(ev) THEN UNCHANGED <<S, skip, bad>>
         ELSE \E res \in { Step(IF Begins(ev) THEN Session ELSE S, ev) } :
              IF res.ok THEN S' = res.s /\ skip' = FALSE /\ bad' = bad
              ELSE /\ PrintT("MISMATCH line " \o ToString(l) \o " " \o ev.e \o ": " \o res.why)
                   /\ S' = Session /\ skip' = TRUE /\ bad' = bad + 1
  /\ l' = l + 1

Spec == Init /\ [][Next]_<<l, S, skip, bad>>
View == l
(* every line was consumed *)
Complete == /\ TLCGet("stats").diameter = Len(Trace) + 1
            /\ PrintT("CONSUMED " \o ToString(Len(Trace)))
=============================================================================

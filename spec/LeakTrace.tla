------------------------------ MODULE LeakTrace ------------------------------
(***************************************************************************)
(* Trace validation for Leak: what was observed of runs of the compiled    *)
(* crate.  The log has one trace for each operation and backend; its       *)
(* events are runs of that operation, on secrets of the same public shape, *)
(* each with a digest of what was observed of it (every edge of the        *)
(* control flow taken, every address loaded or stored, every index         *)
(* computed).  The observer learns nothing: what is seen of any run is     *)
(* what was seen of the first.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, pos, known, bad
lvars == <<tid, pos, known, bad>>

Init == tid \in 1..Len(Traces) /\ pos = 0 /\ known = <<>> /\ bad = FALSE
Next ==
  /\ pos < Len(Traces[tid].ev) /\ ~bad
  /\ pos' = pos + 1
  /\ UNCHANGED tid
  /\ LET ev == Traces[tid].ev[pos + 1] IN
     IF ev.p = 0 /\ (known = <<>> \/ known = <<ev.seen>>)
     THEN known' = <<ev.seen>> /\ UNCHANGED bad
     ELSE /\ bad' = TRUE /\ UNCHANGED known
          /\ PrintT(<<"MISMATCH", Traces[tid].id, pos + 1, ev.o, TRUE, ToString(known)>>)
LeakSpec == Init /\ [][Next]_lvars

Conforms == ~bad
AllConsumed == TLCGet("stats").distinct = FoldLeft(LAMBDA acc, t : acc + Len(t.ev) + 1, 0, Traces)
=============================================================================

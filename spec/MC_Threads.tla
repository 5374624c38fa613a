----------------------------- MODULE MC_Threads -----------------------------
(* Every schedule of a few threads that make a few calls each. *)
EXTENDS Threads
=============================================================================

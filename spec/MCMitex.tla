------------------------------ MODULE MCMitex -------------------------------
(* Entry point for TLC. *)
EXTENDS Props
=============================================================================

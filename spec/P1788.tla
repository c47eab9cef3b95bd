------------------------------- MODULE P1788 --------------------------------
(* The library: its operations (Ops) and its state (Machine). *)
EXTENDS Ops, Machine
=============================================================================

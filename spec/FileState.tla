----------------------------- MODULE FileState -----------------------------
(* What a file holds: what the system shows (seen) and what surely survives *)
(* a loss of power (safe).                                                  *)
None == [seen |-> "none", safe |-> "none"]
Orig == [seen |-> "orig", safe |-> "orig"]
Complete(f) == f \in {"orig", "copy"}
=============================================================================

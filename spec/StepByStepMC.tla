---------------------------- MODULE StepByStepMC ----------------------------
(* Every order of writes and every kill, with at most MaxDraws starts.     *)
EXTENDS StepByStep
CONSTANT MaxDraws
Bounded == draws <= MaxDraws
=============================================================================

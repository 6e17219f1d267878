------------------------------- MODULE AllocMC -------------------------------
(***************************************************************************)
(* Memory of an object that is used in a control loop (README: the DMP     *)
(* integration functions called inside the control loop "do not            *)
(* dynamically allocate memory"; src/eigenutils/eigen_realtime_check.hpp). *)
(*                                                                         *)
(* A call needs some temporary results.  Those that the object keeps are   *)
(* allocated when they do not have the right size yet; those that it does  *)
(* not keep are allocated each time.  Settings may be changed between      *)
(* calls (outside of the loop).                                            *)
(*                                                                         *)
(* Prepared: temporaries that the constructor allocates.  Kept: those that *)
(* are kept.  Dropped: those that lose their size when a setting changes.  *)
(* With Generate every history of Depth calls is printed.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Num, Json

CONSTANTS Prepared, Kept, Dropped, Depth, Generate
VARIABLES sized, inloop, hist

Calls == {"rate", "euler", "rk", "output"}
Needs(c) == CASE c = "rate" -> {"forcing", "approximation"}
              [] c = "euler" -> {"forcing", "approximation"}
              [] c = "rk" -> {"forcing", "approximation", "stages"}
              [] c = "output" -> {}
Init == sized = Prepared \cap Kept /\ inloop = 0 /\ hist = << >>
Log(x) == hist' = IF Generate THEN Append(hist, x) ELSE hist
Call(c) == /\ inloop' = inloop + Cardinality(Needs(c) \ sized)
           /\ sized' = sized \cup (Needs(c) \cap Kept) /\ Log(c)
Set == sized' = sized \ Dropped /\ Log("set") /\ UNCHANGED inloop
Next == (\E c \in Calls : Call(c)) \/ Set
Spec == Init /\ [][Next]_<<sized, inloop, hist>>
NoAllocation == inloop = 0
Bound == IF Generate THEN Len(hist) <= Depth - 1 ELSE inloop <= 3
Emit == (Generate /\ Len(hist) = Depth) => Report(ToJson(hist))
=============================================================================

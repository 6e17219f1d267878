------------------------------- MODULE SaveMC -------------------------------
(***************************************************************************)
(* Saving and loading an object (dmpbbo/json_for_cpp.py).  What an object  *)
(* answers depends on its settings, on values derived from them and kept   *)
(* (prepared constants, subsystems, training data), and on what has been   *)
(* selected.  A loaded object answers as the saved one did, whichever of   *)
(* the two is used and whatever happens to the other.                      *)
(*                                                                         *)
(* Saved: the parts that a file holds.  Shared: do the two share parts?    *)
(* Saving anything less, or sharing, breaks the property.  With Generate   *)
(* every history of Depth calls is printed, to be executed on real objects.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Num, Json

CONSTANTS Saved, Shared, Depth, Generate
VARIABLES obj,      \* the object in use and the other one (or none)
          ghost,    \* what the one in use should be
          answer, want, hist
vars == <<obj, ghost, answer, want, hist>>
Parts == {"setting", "derived", "selection"}
New == [x \in Parts |-> 0]
None == [x \in Parts |-> 9]
Init == obj = [used |-> New, other |-> None] /\ ghost = New /\ answer = << >> /\ want = << >> /\ hist = << >>
Log(x) == hist' = IF Generate THEN Append(hist, x) ELSE hist

SetIt(o, v) == [o EXCEPT !.setting = v, !.derived = v]
Change == \E v \in 1..2 : /\ (Generate => v = 3 - ghost.setting \/ (ghost.setting = 0 /\ v = 1))
   /\ obj' = [obj EXCEPT !.used = SetIt(@, v)] /\ ghost' = SetIt(ghost, v) /\ UNCHANGED <<answer, want>> /\ Log("change")
Select == \E v \in 1..2 : /\ (Generate => v = 1)
   /\ obj' = [obj EXCEPT !.used.selection = v] /\ ghost' = [ghost EXCEPT !.selection = v] /\ UNCHANGED <<answer, want>> /\ Log("select")
Query == answer' = obj.used /\ want' = ghost /\ UNCHANGED <<obj, ghost>> /\ Log("query")
Loaded(o) == [x \in Parts |-> IF x \in Saved THEN o[x] ELSE New[x]]
SaveLoad(keep) ==
  /\ obj' = IF keep = "loaded" THEN [used |-> Loaded(obj.used), other |-> obj.used]
            ELSE [used |-> obj.used, other |-> Loaded(obj.used)]
  /\ UNCHANGED <<ghost, answer, want>> /\ Log(keep)
\* The other object is changed in every way.
Disturb == /\ obj.other # None
           /\ obj' = [used |-> IF Shared THEN [obj.used EXCEPT !.derived = 7] ELSE obj.used,
                      other |-> [x \in Parts |-> 7]]
           /\ UNCHANGED <<ghost, answer, want>> /\ ~Generate /\ Log("disturb")
Next == Change \/ Select \/ Query \/ Disturb \/ \E k \in {"loaded", "original"} : SaveLoad(k)
Spec == Init /\ [][Next]_vars

AnswersAsBefore == answer = want
Bound == Len(hist) <= Depth - 1
Emit == (Generate /\ Len(hist) = Depth) => Report(ToJson(hist))
=============================================================================

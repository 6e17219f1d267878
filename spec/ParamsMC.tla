------------------------------ MODULE ParamsMC ------------------------------
(***************************************************************************)
(* Parameter vectors under selection: an object with two parameters, whose *)
(* selected ones are got and set as a vector, while the caller changes the *)
(* vectors it passed in or was given.                                      *)
(*                                                                         *)
(* Copies says whether the object copies the vector it is given, Replaces  *)
(* whether a selection replaces the one before.  With Generate, every      *)
(* history of up to Depth calls is printed.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Num, Json

CONSTANTS Copies, Replaces, Depth, Generate
VARIABLES val,     \* the parameters of the object
          want,    \* what they should be: as last set or trained
          sel, asked,   \* the selection the object has, and the one that was asked for
          shared,  \* parameters whose values live in the caller's last vector
          hist
vars == <<val, want, sel, asked, shared, hist>>

Names == {"a", "b"}
Vals == 0..2
Init == val = [n \in Names |-> 0] /\ want = val /\ sel = {} /\ asked = {} /\ shared = {} /\ hist = << >>
Log(x) == hist' = IF Generate THEN Append(hist, x) ELSE hist

Select(s) == /\ asked' = s /\ sel' = IF Replaces THEN s ELSE sel \cup s
             /\ Log(<<"select", s>>) /\ UNCHANGED <<val, want, shared>>
Set == \E x \in (IF Generate THEN {1} ELSE Vals) :
   /\ val' = [n \in Names |-> IF n \in sel THEN x ELSE val[n]]
   /\ want' = [n \in Names |-> IF n \in asked THEN x ELSE want[n]]
   /\ shared' = IF Copies THEN {} ELSE sel
   /\ Log(<<"set">>) /\ UNCHANGED <<sel, asked>>
\* The caller writes into the vector it passed in last.
Mutate == /\ val' = [n \in Names |-> IF n \in shared THEN (val[n] + 1) % 3 ELSE val[n]]
          /\ Log(<<"mutate">>) /\ UNCHANGED <<want, sel, asked, shared>>
Train == \E x \in (IF Generate THEN {2} ELSE Vals) :
   /\ val' = [n \in Names |-> x] /\ want' = val' /\ shared' = {}
   /\ Log(<<"train">>) /\ UNCHANGED <<sel, asked>>
Quiet(x) == Generate /\ Log(<<x>>) /\ UNCHANGED <<val, want, sel, asked, shared>>

Next == (\E s \in SUBSET Names : Select(s)) \/ Set \/ Mutate \/ Train \/ (\E x \in {"get", "setbad", "use"} : Quiet(x))
Spec == Init /\ [][Next]_vars

ValuesAreThoseSet == val = want
SelectionIsTheLast == sel = asked
Bound == Len(hist) <= Depth - 1
Emit == (Generate /\ Len(hist) = Depth) => Report(ToJson(hist))
=============================================================================

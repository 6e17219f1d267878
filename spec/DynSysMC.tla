------------------------------ MODULE DynSysMC ------------------------------
(***************************************************************************)
(* Settings, constants computed from them that are kept, and queries: what *)
(* a query answers must depend on the current settings only.               *)
(*                                                                         *)
(* Settings are abstract: "tau", "init" and "attr", each with a value.     *)
(* The kept constant (of a sigmoid system: its capacity) is computed at    *)
(* the first query that needs it, from tau and init.  Forget is the set of *)
(* settings whose change makes the implementation forget the constant; for *)
(* {} the property does not hold.                                          *)
(*                                                                         *)
(* With Generate, every history of up to Depth calls is printed, to be     *)
(* executed on the real systems.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Num, Json

CONSTANTS Forget, Depth, Generate
VARIABLES set, kept, answer, hist
vars == <<set, kept, answer, hist>>

Settings == {"tau", "init", "attr"}
Fresh(s) == <<s["tau"], s["init"]>>
None == <<-1, -1>>

Init == set = [x \in Settings |-> 0] /\ kept = None /\ answer = << >> /\ hist = << >>
Log(x) == hist' = IF Generate THEN Append(hist, x) ELSE hist

Change(x) == \E v \in 0..2 :
   /\ v # set[x] /\ (Generate => v = (set[x] + 1) % 3)
   /\ set' = [set EXCEPT ![x] = v]
   /\ kept' = IF x \in Forget THEN None ELSE kept
   /\ answer' = << >> /\ Log(x)
\* A query answers with the kept constant and the current settings.
Query(q) == LET k == IF kept = None THEN Fresh(set) ELSE kept
            IN kept' = k /\ answer' = <<set, k>> /\ Log(q) /\ UNCHANGED set
\* Starting an integration with a new initial state is a change and a query.
Start == LET s == [set EXCEPT !["init"] = (set["init"] + 1) % 3]
             k == IF "init" \in Forget \/ kept = None THEN Fresh(s) ELSE kept
         IN set' = s /\ kept' = k /\ answer' = <<s, k>> /\ Log("start")
\* The caller changes arrays it passed in or was given.
Mutate == Generate /\ Log("mutate") /\ UNCHANGED <<set, kept, answer>>

Next == (\E x \in Settings : Change(x)) \/ (\E q \in (IF Generate THEN {"rate", "solution"} ELSE {"rate"}) : Query(q)) \/ Start \/ Mutate
Spec == Init /\ [][Next]_vars

AnswersFollowSettings == answer # << >> => answer = <<set, Fresh(set)>>
Bound == Len(hist) <= Depth - 1
Emit == (Generate /\ Len(hist) = Depth) => Report(ToJson(hist))
=============================================================================

------------------------------ MODULE ContextMC ------------------------------
(***************************************************************************)
(* A contextual DMP keeps one DMP, whose selected parameters are           *)
(* overwritten by the prediction for a task, when one is asked for.  They  *)
(* can also be set directly, and are replaced when the DMP or the          *)
(* predicting approximators are trained again.  After a request the        *)
(* parameters have to be those predicted for the task, whatever happened   *)
(* before.                                                                 *)
(*                                                                         *)
(* Remember: does a request with the task of the last request change       *)
(* nothing?  Shared: do copies share the DMP?  Both break the property.    *)
(* With Generate, every history of Depth calls is printed, to be executed. *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Num, Json

CONSTANTS Remember, Shared, Depth, Generate
VARIABLES ppf,      \* version of the predicting approximators
          par,      \* the parameters of the DMP and of its copy: <<version, task>>, or set directly
          lastTask, \* last task asked for
          want, hist
vars == <<ppf, par, lastTask, want, hist>>
Tasks == {"A", "B"}
Direct == <<0, "set">>
Init == ppf = 1 /\ par = [dmp |-> <<1, "demo">>, copy |-> <<1, "demo">>] /\ lastTask = "none" /\ want = << >> /\ hist = << >>
Log(x) == hist' = IF Generate THEN Append(hist, x) ELSE hist

Write(v) == par' = IF Shared THEN [dmp |-> v, copy |-> v] ELSE [par EXCEPT !.dmp = v]
Request(how, x) ==
  /\ IF Remember /\ lastTask = x THEN UNCHANGED par ELSE Write(<<ppf, x>>)
  /\ lastTask' = x /\ want' = <<ppf, x>> /\ UNCHANGED ppf /\ Log(how \o x)
SetDirectly == Write(Direct) /\ want' = Direct /\ UNCHANGED <<ppf, lastTask>> /\ Log("set")
Train == ppf' = 3 - ppf /\ Write(<<3 - ppf, "demo">>) /\ want' = <<3 - ppf, "demo">> /\ UNCHANGED lastTask /\ Log("train")
\* The copy is used for another task.
UseCopy == \E x \in Tasks : /\ par' = IF Shared THEN [dmp |-> <<ppf, x>>, copy |-> <<ppf, x>>] ELSE [par EXCEPT !.copy = <<ppf, x>>]
                            /\ UNCHANGED <<ppf, lastTask, want>> /\ Log("copy")
Quiet(x) == Generate /\ Log(x) /\ UNCHANGED <<ppf, par, lastTask, want>>
Next == \/ \E x \in Tasks : \E how \in (IF Generate THEN {"start", "solution", "request"} ELSE {"request"}) : Request(how, x)
        \/ SetDirectly \/ Train \/ UseCopy
        \/ \E x \in {"step", "setting"} : Quiet(x)
Spec == Init /\ [][Next]_vars

ParametersAreThoseAskedFor == want # << >> => par.dmp = want
Bound == Len(hist) <= Depth - 1
Emit == (Generate /\ Len(hist) = Depth) => Report(ToJson(hist))
=============================================================================

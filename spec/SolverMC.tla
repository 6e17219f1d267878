------------------------------ MODULE SolverMC ------------------------------
(***************************************************************************)
(* A task solver for DMPs (dmpbbo/bbo_of_dmps/TaskSolverDmp.py) performs   *)
(* rollouts: the movement of a DMP with the given parameters, over a time  *)
(* that was fixed when it was constructed.  The DMP it was constructed     *)
(* with may be changed and used afterwards.                                *)
(*                                                                         *)
(* Copies: does the solver copy the DMP it is given?  FixesTime: is the    *)
(* time of a rollout fixed?  Replaces: do the parameters of a rollout      *)
(* replace those of the one before?  Anything else breaks the properties.  *)
(* With Generate every history of Depth calls is printed, to be executed.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Num, Json

CONSTANTS Copies, FixesTime, Replaces, Depth, Generate
VARIABLES dmp,      \* the DMP of the caller: [tau, par], and
          own,      \* that of the solver
          asked,    \* what the caller has set
          made,     \* asked, when the solver was constructed
          got, want, hist
vars == <<dmp, own, asked, made, got, want, hist>>
Values == {1, 2}
None == [tau |-> 0, par |-> 0]
Start == [tau |-> 1, par |-> 1]
Init == dmp = Start /\ own = None /\ asked = Start /\ made = None /\ got = << >> /\ want = << >> /\ hist = << >>
Log(x) == hist' = IF Generate THEN Append(hist, x) ELSE hist

Construct == /\ own' = dmp /\ made' = asked /\ UNCHANGED <<dmp, asked, got, want>> /\ Log("construct")
Rollout(x) ==
  /\ made # None
  /\ LET from == IF Copies THEN own ELSE dmp
         to == [from EXCEPT !.par = IF Replaces THEN x ELSE @ + x]
     IN /\ own' = to
        /\ dmp' = IF Copies THEN dmp ELSE to
        /\ got' = <<to.par, to.tau, IF FixesTime THEN made.tau ELSE to.tau>>
  /\ want' = <<x, made.tau, made.tau>> /\ UNCHANGED <<asked, made>> /\ Log("rollout" \o ToString(x))
SetTau(v) == dmp' = [dmp EXCEPT !.tau = v] /\ asked' = [asked EXCEPT !.tau = v]
             /\ UNCHANGED <<own, made, got, want>> /\ Log("tau" \o ToString(v))
SetPar(v) == dmp' = [dmp EXCEPT !.par = v] /\ asked' = [asked EXCEPT !.par = v]
             /\ UNCHANGED <<own, made, got, want>> /\ Log("set" \o ToString(v))
\* A rollout of another DMP, that of the caller, over the time of the solver.
RolloutOf == /\ made # None /\ got' = <<dmp.par, dmp.tau, IF FixesTime THEN made.tau ELSE dmp.tau>>
             /\ want' = <<asked.par, asked.tau, made.tau>>
             /\ UNCHANGED <<dmp, own, asked, made>> /\ Log("other")
Query == Generate /\ Log("query") /\ UNCHANGED <<dmp, own, asked, made, got, want>>
Next == Construct \/ RolloutOf \/ Query \/ \E x \in Values : Rollout(x) \/ SetTau(x) \/ SetPar(x)
Spec == Init /\ [][Next]_vars

RolloutsAreThoseAskedFor == got = want
CallersDmpIsItsOwn == dmp = asked
Small == own.par < 5
Bound == Len(hist) <= Depth - 1
Emit == (Generate /\ Len(hist) = Depth) => Report(ToJson(hist))
=============================================================================

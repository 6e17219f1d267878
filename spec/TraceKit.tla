------------------------------ MODULE TraceKit ------------------------------
(***************************************************************************)
(* Checking of recorded executions against a specification.                *)
(*                                                                         *)
(* The file named by TRACE_FILE holds a sequence of traces, each a record  *)
(* [name, cfg, ev] where ev is the sequence of its events.  A trace        *)
(* specification starts in one initial state per trace (tr is its number,  *)
(* pos the event it is at) and consumes one event per step.  Each step     *)
(* judges its event: the clauses are a sequence of <<name, truth>> pairs   *)
(* and are reported by name when they fail.  The verdict is total: a       *)
(* failing clause never stops the trace.                                   *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets, TLC

T == LoadTraces(EnvOr("TRACE_FILE", "none"))

VARIABLES tr, pos

Cfg == T[tr].cfg
Event == T[tr].ev[pos]
More == pos <= Len(T[tr].ev)

KitInit == tr \in 1..Len(T) /\ pos = 1
KitStep == More /\ pos' = pos + 1 /\ UNCHANGED tr

Judge(clauses) ==
  LET bad == { clauses[i][1] : i \in { j \in 1..Len(clauses) : ~clauses[j][2] } }
  IN IF bad = {} THEN TRUE ELSE Report(<<T[tr].name, pos, Event.op, bad>>)

Has(r, f) == f \in DOMAIN r
\* What a recorded array looks like: its shape and its nested elements.
IsArr(x) == Kind(x) = "rec" /\ "sh" \in DOMAIN x
=============================================================================

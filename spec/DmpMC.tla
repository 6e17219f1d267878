-------------------------------- MODULE DmpMC --------------------------------
(***************************************************************************)
(* A DMP keeps its settings (tau, initial state, goal) and copies of them  *)
(* in its subsystems, which also serve as scratch memory while it is being *)
(* integrated.  What it answers is computed from the copies, and must be   *)
(* what a new DMP with the same settings answers.                          *)
(*                                                                         *)
(* Forward(setting) are the subsystems to which a change of it is passed   *)
(* on, Rewrites the subsystems whose goal every query writes before it     *)
(* uses it.  Settings that are not passed on, or scratch memory that       *)
(* a query reads, break the property.  With Generate, every history of up  *)
(* to Depth calls is printed, to be executed on real DMPs.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Num, Json

CONSTANTS TauTo, InitTo, AttrTo, Rewrites, Depth, Generate
VARIABLES set, sub, answer, want, hist
vars == <<set, sub, answer, want, hist>>

\* The copies: which setting is kept in which subsystem.
Copies == {<<s, "tau">> : s \in {"spring", "goal", "phase", "gating", "damping"}}
          \cup {<<"spring", "init">>, <<"goal", "init">>, <<"goal", "attr">>, <<"spring", "attr">>}
Fresh(s) == [c \in Copies |-> s[c[2]]]
To == [tau |-> TauTo, init |-> InitTo, attr |-> AttrTo]

Init == /\ set = [x \in {"tau", "init", "attr"} |-> 0] /\ sub = Fresh(set)
        /\ answer = << >> /\ want = << >> /\ hist = << >>
Log(x) == hist' = IF Generate THEN Append(hist, x) ELSE hist

Put(s, x, v) == [s EXCEPT ![x] = v]
Pass(b, x, v) == [c \in Copies |-> IF c[2] = x /\ c[1] \in To[x] THEN v ELSE b[c]]
Change(x, v) == set' = Put(set, x, v) /\ sub' = Pass(sub, x, v)
Setting(x) == \E v \in 0..1 : /\ (Generate => v = 1 - set[x])
                              /\ Change(x, v) /\ answer' = << >> /\ want' = << >> /\ Log(x)
\* Training sets all three.
Train == \E t, i, a \in 0..1 :
   /\ (Generate => t = 1 - set["tau"] /\ i = 1 - set["init"] /\ a = 1 - set["attr"])
   /\ set' = [tau |-> t, init |-> i, attr |-> a]
   /\ sub' = Pass(Pass(Pass(sub, "tau", t), "init", i), "attr", a)
   /\ answer' = << >> /\ want' = << >> /\ Log("train")
\* A query writes the scratch memory (the goal of the spring comes from the
\* goal system, or is the goal itself), answers, and leaves something in it.
Query(q, s, b) ==
  LET u == [c \in Copies |-> IF c[2] = "attr" /\ c[1] \in Rewrites THEN s[c[2]] ELSE b[c]]
  IN /\ answer' = u /\ want' = Fresh(s) /\ set' = s
     /\ sub' = [u EXCEPT ![<<"spring", "attr">>] = 2] /\ Log(q)
Start == \E v \in 0..1 : /\ (Generate => v = 1 - set["init"])
                         /\ Query("starty", Put(set, "init", v), Pass(sub, "init", v))
Quiet(x) == Generate /\ Log(x) /\ UNCHANGED <<set, sub, answer, want>>

Next == \/ \E x \in {"tau", "init", "attr"} : Setting(x)
        \/ Train \/ Start
        \/ \E q \in (IF Generate THEN {"start", "step", "solution"} ELSE {"step"}) : Query(q, set, sub)
        \/ \E x \in {"mutate", "json", "copy"} : Quiet(x)
Spec == Init /\ [][Next]_vars

AnswersFollowSettings == answer = want
Bound == Len(hist) <= Depth - 1
Emit == (Generate /\ Len(hist) = Depth) => Report(ToJson(hist))
=============================================================================

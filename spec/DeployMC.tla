------------------------------ MODULE DeployMC ------------------------------
(***************************************************************************)
(* Train in Python, execute in C++.  An object is set in Python, written   *)
(* to a file, and read by the C++ code (dmpbbo/json_for_cpp.py, the        *)
(* from_json functions of src/), which may change some settings, keeps     *)
(* constants that follow from them, and answers.  Its answers are those    *)
(* that the Python object would give with the same settings, and nothing   *)
(* done in C++ changes the Python object.                                  *)
(*                                                                         *)
(* Read: the parts that are read from the file.  Renewed: the settings     *)
(* whose change in C++ renews what is kept.  With Generate every history   *)
(* of Depth calls is printed, to be executed on real objects.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Num, Json

CONSTANTS Read, Renewed, Depth, Generate
VARIABLES py, cpp, ghost, answer, want, hist
vars == <<py, cpp, ghost, answer, want, hist>>
Parts == {"tau", "init", "attr", "model"}
Settable == {"tau", "init", "attr"}
Default == [x \in Parts |-> 0]
None == [set |-> Default, kept |-> Default]
\* ghost: the settings that the object in use has; where: is it the C++ one?
Init == /\ py = [x \in Parts |-> 1] /\ cpp = None
        /\ ghost = [where |-> "py", set |-> [x \in Parts |-> 1], python |-> [x \in Parts |-> 1]]
        /\ answer = << >> /\ want = << >> /\ hist = << >>
Log(x) == hist' = IF Generate THEN Append(hist, x) ELSE hist
Other(v) == 3 - v

Change(x) == /\ ghost.where = "py" /\ py' = [py EXCEPT ![x] = Other(@)]
             /\ ghost' = [ghost EXCEPT !.set = py', !.python = py'] /\ UNCHANGED <<cpp, answer, want>> /\ Log(x)
Export == /\ ghost.where = "py"
          /\ LET s == [x \in Parts |-> IF x \in Read THEN py[x] ELSE Default[x]] IN cpp' = [set |-> s, kept |-> s]
          /\ ghost' = [ghost EXCEPT !.where = "cpp"] /\ UNCHANGED <<py, answer, want>> /\ Log("export")
Set(x) == /\ ghost.where = "cpp"
          /\ cpp' = [set |-> [cpp.set EXCEPT ![x] = Other(ghost.set[x])],
                     kept |-> IF x \in Renewed THEN [cpp.kept EXCEPT ![x] = Other(ghost.set[x])] ELSE cpp.kept]
          /\ ghost' = [ghost EXCEPT !.set[x] = Other(@)] /\ UNCHANGED <<py, answer, want>> /\ Log(x)
Ask == /\ IF ghost.where = "py" THEN answer' = <<py, py>> /\ want' = <<ghost.set, ghost.set>>
          ELSE answer' = <<cpp.set, cpp.kept>> /\ want' = <<ghost.set, ghost.set>>
       /\ UNCHANGED <<py, cpp, ghost>> /\ Log("ask")
Back == /\ ghost.where = "cpp" /\ cpp' = None
        /\ ghost' = [ghost EXCEPT !.where = "py", !.set = ghost.python] /\ UNCHANGED <<py, answer, want>> /\ Log("back")
Next == \/ \E x \in Parts : Change(x)
        \/ \E x \in Settable : Set(x)
        \/ Export \/ Ask \/ Back
Spec == Init /\ [][Next]_vars

AnswersAsPython == answer = want
Bound == Len(hist) <= Depth - 1
Emit == (Generate /\ Len(hist) = Depth) => Report(ToJson(hist))
=============================================================================

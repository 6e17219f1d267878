------------------------------- MODULE FilesMC -------------------------------
(***************************************************************************)
(* Histories of saving, writing by someone else, and loading.              *)
(* Asks: does saving look at whether it may overwrite?  Truthful: does it  *)
(* tell whether it saved?                                                  *)
(***************************************************************************)
EXTENDS Files, TLC, Json

CONSTANTS Names, Values, Asks, Truthful, Depth, Generate
VARIABLES disk, mine, got, want, hist
vars == <<disk, mine, got, want, hist>>
\* mine: what each file has to have, by what callers were told
Init == disk = << >> /\ mine = << >> /\ got = "none" /\ want = "none" /\ hist = << >>
Log(x) == hist' = IF Generate THEN Append(hist, x) ELSE hist

DoSave(n, v, o) ==
  LET done == Saves(disk, n, o)
      told == done \/ ~Truthful
  IN /\ disk' = IF done \/ ~Asks THEN Put(disk, n, Matrix(v)) ELSE disk
     /\ mine' = IF told THEN Put(mine, n, Matrix(v)) ELSE mine
     /\ UNCHANGED <<got, want>> /\ Log(<<"save", n, o>>)
Write(n, x) == /\ disk' = Put(disk, n, x) /\ mine' = Put(mine, n, x)
               /\ UNCHANGED <<got, want>> /\ Log(<<"write", n, x.is>>)
Load(n) == /\ got' = IF Loads(disk, n, FALSE) THEN On(disk, n).m ELSE "none"
           /\ want' = IF Loads(mine, n, FALSE) THEN On(mine, n).m ELSE "none"
           /\ UNCHANGED <<disk, mine>> /\ Log(<<"load", n>>)
Next == \E n \in Names : \/ \E v \in Values, o \in BOOLEAN : DoSave(n, v, o)
                         \/ \E x \in {NoMatrix} \cup {Matrix(v) : v \in Values} : Write(n, x)
                         \/ Load(n)
Spec == Init /\ [][Next]_vars
LoadsWhatWasSaved == got = want
FilesAreThoseSaved == disk = mine
Bound == Len(hist) <= Depth - 1
Emit == (Generate /\ Len(hist) = Depth) => Report(ToJson(hist))
=============================================================================

----------------------------- MODULE SessionMC -----------------------------
(* Exhaustive exploration of Session, and generation of histories.         *)
EXTENDS Session, Json, Num
CONSTANTS Keys, Depth, Generate, StartDir
VARIABLE hist           \* the calls so far, when generating

N == "n_samples_per_update"
Values == { [kind |-> "array", id |-> "a1"], [kind |-> "array", id |-> "a2"],
            [kind |-> "table", id |-> "t1"], [kind |-> "object", id |-> "o1"] }
Nv == [kind |-> "array", id |-> "n"]
H(x) == hist' = IF Generate THEN Append(hist, x) ELSE hist

Init == SInit(StartDir) /\ hist = << >>
Open == cache = Nothing /\ Tell(N, Nv) /\ H(<<"open">>)
Opened == cache # Nothing
DoTell == \E k \in Keys, v \in Values : Opened /\ Tell(k, v) /\ H(<<"tell", k, v.id>>)
DoAsk == \E k \in Keys : Opened /\ Ask(k) /\ H(<<"ask", k>>)
DoMutate == Opened /\ Generate /\ Mutate /\ H(<<"mutate">>)
DoReopen == Opened /\ Reopen(N) /\ H(<<"reopen">>)
DoSave == Opened /\ SaveAll /\ H(<<"save">>)
DoSaveAll == Opened /\ SaveAllAndOpen(N) /\ H(<<"save_all">>)
Next == \/ Open \/ DoTell \/ DoAsk \/ DoMutate \/ DoReopen \/ DoSave \/ DoSaveAll
Spec == Init /\ [][Next]_<<vars, hist>>
Bound == Len(hist) < Depth + 1
Emit == Len(hist) = Depth + 1 => Report(ToJson(hist))
=============================================================================

------------------------------ MODULE OptimMC ------------------------------
(* Every order of evaluations, of a small run with abstract values: a      *)
(* distribution is <<update, mean>>; costs are the point and a counter.    *)
EXTENDS Optim, TLC
CONSTANTS M, NUpdates, Points
MeanOf(d) == d[2]
Init == OInit(<<0, 0>>)
DoDraw == /\ Len(hist) < NUpdates
          /\ \E s \in [1..M -> Points] : DrawOk(dist, s, M) /\ Draw(s)
DoEvaluate == \E x \in Points : /\ EvaluateOk(x)
                                /\ Evaluate(x, <<x, Len(evald)>>)
DoUpdate == /\ drawn # << >> /\ AllEvaluated
            /\ \E cs \in [1..M -> {evald[i][2] : i \in 1..Len(evald)}], x \in Points :
                  UpdateOk(dist, drawn, cs) /\ Update(cs, "w", <<Len(hist) + 1, x>>)
Next == DoDraw \/ DoEvaluate \/ DoUpdate
Spec == Init /\ [][Next]_ovars
=============================================================================

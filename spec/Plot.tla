-------------------------------- MODULE Plot --------------------------------
(***************************************************************************)
(* What is drawn.  A line is a record of the coordinates of its points: x  *)
(* and y.  The lines for the columns of a matrix ys over times ts are      *)
(* Lines(ts, ys).  Drawn says that exactly the lines wanted are drawn, in  *)
(* any order.                                                              *)
(***************************************************************************)
EXTENDS Lin

Lines(ts, ys) == IF ys = << >> THEN << >> ELSE [d \in 1..Len(ys[1]) |-> [x |-> ts, y |-> Col(ys, d)]]
LTol == RDec("1e-12")
SameLine(a, b) == VClose(a.x, b.x, LTol) /\ VClose(a.y, b.y, LTol)
Drawn(lines, want) == /\ Len(lines) = Len(want)
                      /\ \A i \in 1..Len(want) : \E j \in 1..Len(lines) : SameLine(lines[j], want[i])
                      /\ \A j \in 1..Len(lines) : \E i \in 1..Len(want) : SameLine(lines[j], want[i])
Part(m, a, b) == Now([i \in 1..Len(m) |-> SubSeq(m[i], a, b)])
Rows(m, c) == Now([i \in 1..Len(m) |-> VScale(c, m[i])])
=============================================================================

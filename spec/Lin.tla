-------------------------------- MODULE Lin --------------------------------
(***************************************************************************)
(* Vectors (sequences of numbers) and matrices (sequences of rows).        *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences

Zero == RInt(0)
One  == RInt(1)
Two  == RInt(2)
Half == RDiv(1, 2)

Vec(n, x) == Now([i \in 1..n |-> x])
Zeros(n) == Vec(n, Zero)
VAdd(u, v) == Now([i \in 1..Len(u) |-> RAdd(u[i], v[i])])
VSub(u, v) == Now([i \in 1..Len(u) |-> RSub(u[i], v[i])])
VMul(u, v) == Now([i \in 1..Len(u) |-> RMul(u[i], v[i])])
VDiv(u, v) == Now([i \in 1..Len(u) |-> RDiv(u[i], v[i])])
VScale(c, v) == Now([i \in 1..Len(v) |-> RMul(c, v[i])])
VNeg(v) == Now([i \in 1..Len(v) |-> RNeg(v[i])])

Col(m, j) == Now([i \in 1..Len(m) |-> m[i][j]])
Transpose(m) == IF Len(m) = 0 THEN << >> ELSE Now([j \in 1..Len(m[1]) |-> Col(m, j)])
MatVec(m, v) == Now([i \in 1..Len(m) |-> RDot(m[i], v)])
MatMul(a, b) == LET bt == Transpose(b)
                IN Now([i \in 1..Len(a) |-> [j \in 1..Len(bt) |-> RDot(a[i], bt[j])]])
Eye(n) == Now([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN One ELSE Zero]])
MAdd(a, b) == Now([i \in 1..Len(a) |-> VAdd(a[i], b[i])])
MScale(c, a) == Now([i \in 1..Len(a) |-> VScale(c, a[i])])
MSub(a, b) == Now([i \in 1..Len(a) |-> VSub(a[i], b[i])])

\* Comparison with tolerance.  Lengths must agree.
VNear(u, v, rtol, atol) == /\ Len(u) = Len(v)
                           /\ \A i \in 1..Len(u) : RNear(u[i], v[i], rtol, atol)
MNear(a, b, rtol, atol) == /\ Len(a) = Len(b)
                           /\ \A i \in 1..Len(a) : VNear(a[i], b[i], rtol, atol)
\* Largest absolute element of a vector, at least 1: the scale for comparisons.
VScaleOf(v) == RMaxSeq(<<One>> \o [i \in 1..Len(v) |-> IF RDef(v[i]) THEN RAbs(v[i]) ELSE One])
VClose(u, v, tol) == LET s == RMul(tol, VScaleOf(v))
                     IN Len(u) = Len(v) /\ \A i \in 1..Len(u) : RNear(u[i], v[i], Zero, s)
VEq(u, v) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : REq(u[i], v[i])
MEq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : VEq(a[i], b[i])

\* Gaussian elimination with partial pivoting: the x with a x = b (b a vector).
RECURSIVE Eliminate(_, _, _)
PivotRow(m, k) == CHOOSE i \in k..Len(m) :
                     \A j \in k..Len(m) : RLe(RAbs(m[j][k]), RAbs(m[i][k]))
Swap(m, i, k) == [m EXCEPT ![i] = m[k], ![k] = m[i]]
Eliminate(m, k, n) ==
  IF k > n THEN m
  ELSE LET p == Swap(m, PivotRow(m, k), k)
           q == Now([i \in 1..n |->
                   IF i <= k THEN p[i]
                   ELSE LET f == RDiv(p[i][k], p[k][k])
                        IN VSub(p[i], VScale(f, p[k]))])
       IN Eliminate(q, k + 1, n)
RECURSIVE BackSub(_, _, _, _)
BackSub(m, k, n, x) ==     \* x = solution for the unknowns k+1..n
  IF k = 0 THEN x
  ELSE LET s == RSum([j \in 1..Len(x) |-> RMul(m[k][k + j], x[j])])
       IN BackSub(m, k - 1, n, << RDiv(RSub(m[k][n + 1], s), m[k][k]) >> \o x)
Solve(a, b) == LET n == Len(a)
                   m == Eliminate([i \in 1..n |-> a[i] \o <<b[i]>>], 1, n)
               IN BackSub(m, n, n, << >>)
=============================================================================

-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Decimal real numbers, and reading of recorded traces.                   *)
(*                                                                         *)
(* TLC has no reals.  The definitions below say what the operators mean;   *)
(* TLC evaluates them through /verif/java/verif/Num.java, which computes   *)
(* with 34 significant decimal digits.  The one special value is "undef":  *)
(* the result of dividing by zero, of the root or logarithm of a number    *)
(* for which they are not defined, and what NaN and infinities recorded    *)
(* from an implementation are read as.  Every operation on "undef" gives   *)
(* "undef", and every comparison with it is FALSE, so that the verdict on  *)
(* a trace is total.                                                       *)
(*                                                                         *)
(* Integers and reals may be mixed in all of these operators.              *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

RInt(i)    == i
RDec(s)    == CHOOSE x : x = s       \* the number written as string s
RAdd(x, y) == x + y
RSub(x, y) == x - y
RMul(x, y) == x * y
RDiv(x, y) == x \div y               \* real division
RNeg(x)    == 0 - x
RAbs(x)    == IF x < 0 THEN 0 - x ELSE x
RMax(x, y) == IF x < y THEN y ELSE x
RMin(x, y) == IF x < y THEN x ELSE y
RLe(x, y)  == x <= y
RLt(x, y)  == x < y
REq(x, y)  == x = y
RDef(x)    == TRUE                   \* is x a number at all (not "undef")?
RSqrt(x)   == CHOOSE y : y * y = x
RExp(x)    == CHOOSE y : TRUE        \* e^x
RLog(x)    == CHOOSE y : TRUE        \* natural logarithm
RPow(x, n) == x ^ n                  \* integer power, also negative
RPowR(x, y) == x ^ y                 \* real power of a number that is not negative
\* |x - y| <= atol + rtol * max(|x|, |y|)
RNear(x, y, rtol, atol) == RAbs(x - y) <= atol + rtol * RMax(RAbs(x), RAbs(y))
RSum(s)    == CHOOSE y : TRUE        \* sum of the elements of sequence s
RDot(s, t) == CHOOSE y : TRUE        \* inner product of two sequences
RMaxSeq(s) == CHOOSE y : TRUE        \* largest, smallest element
RMinSeq(s) == CHOOSE y : TRUE
Kind(x)    == "other"                \* "real", "int", "str", "bool", "seq", "rec"

Now(x)           == x                \* (a hint to TLC: evaluate x completely)
LoadTraces(file) == << >>            \* content of a JSON file as a TLA+ value
Report(x)        == TRUE             \* prints x on one line
EnvOr(name, default) == default      \* environment variable
=============================================================================

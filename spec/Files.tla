-------------------------------- MODULE Files --------------------------------
(***************************************************************************)
(* Text files of matrices, as the C++ library saves and loads them         *)
(* (src/eigenutils/eigen_file_io.hpp).                                     *)
(*                                                                         *)
(* The disk is a map from names to what the file has: a matrix             *)
(* [is |-> "matrix", m |-> rows], or a text that is not one.               *)
(***************************************************************************)
EXTENDS Lin

Absent == [is |-> "absent"]
NoMatrix == [is |-> "text"]
Matrix(m) == [is |-> "matrix", m |-> m]
On(disk, name) == IF name \in DOMAIN disk THEN disk[name] ELSE Absent

\* May a matrix be saved under this name?
Saves(disk, name, overwrite) == overwrite \/ name \notin DOMAIN disk
Put(disk, name, x) == [n \in DOMAIN disk \cup {name} |-> IF n = name THEN x ELSE disk[n]]
Save(disk, name, m, overwrite) == IF Saves(disk, name, overwrite) THEN Put(disk, name, Matrix(m)) ELSE disk
\* A vector is a matrix of one column.
Loads(disk, name, vector) ==
  LET x == On(disk, name)
  IN x.is = "matrix" /\ (~vector \/ \A i \in 1..Len(x.m) : Len(x.m[i]) = 1)
=============================================================================

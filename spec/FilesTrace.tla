------------------------------ MODULE FilesTrace ------------------------------
(***************************************************************************)
(* Recorded uses of text files and JSON of matrices.  seen is what is read *)
(* in all files after each event, by a reader of its own.                  *)
(***************************************************************************)
EXTENDS Files, TraceKit

VARIABLE disk
TraceInit == KitInit /\ disk = << >>

SixDecimals(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Len(a[i]) = Len(b[i])
                     /\ \A j \in 1..Len(a[i]) : RLe(RAbs(RSub(a[i][j], b[i][j])), RAdd(RDec("5e-7"), RMul(RDec("1e-15"), RAbs(a[i][j]))))
Same(a, b) == a.is = b.is /\ (a.is = "matrix" => MEq(a.m, b.m))
SameDisk(a, b) == DOMAIN a = DOMAIN b /\ \A n \in DOMAIN a : Same(a[n], b[n])
Others(a, b, name) == DOMAIN a \ {name} = DOMAIN b \ {name} /\ \A n \in DOMAIN a \ {name} : Same(a[n], b[n])

Do(e) ==
  CASE e.op = "save" ->
       /\ disk' = e.seen
       /\ Judge(<< <<"no failure", e.out = "ok">>,
                   <<"saves unless it would overwrite without being allowed to, and says so", e.saved = Saves(disk, e.name, e.overwrite)>>,
                   <<"other files stay", Others(disk, e.seen, e.name)>>,
                   <<"the file has the numbers to its six decimals",
                     IF Saves(disk, e.name, e.overwrite) THEN On(e.seen, e.name).is = "matrix" /\ SixDecimals(e.m, On(e.seen, e.name).m)
                     ELSE SameDisk(disk, e.seen)>> >>)
    [] e.op = "write" -> disk' = e.seen /\ Judge(<< <<"written by the harness", On(e.seen, e.name).is = e.is>> >>)
    [] e.op = "load" ->
       /\ UNCHANGED disk
       /\ Judge(<< <<"no failure", e.out = "ok">>,
                   <<"loads exactly what is a matrix", e.loaded = Loads(disk, e.name, e.vector)>>,
                   <<"the numbers, row by row", e.loaded => (On(disk, e.name).is = "matrix" /\ MEq(e.m, On(disk, e.name).m) /\ e.rows = Len(e.m))>>,
                   <<"nothing is loaded if it fails", e.loaded \/ e.unmodified>>,
                   <<"files stay", SameDisk(disk, e.seen)>> >>)
    [] e.op = "numpy" ->
       /\ UNCHANGED disk
       /\ Judge(<< <<"Python reads the same", Loads(disk, e.name, FALSE) => (e.out = "ok" /\ MEq(e.m, On(disk, e.name).m))>> >>)
    [] e.op = "json" ->
       /\ UNCHANGED disk
       /\ Judge(<< <<"no failure", e.out = "ok">>,
                   <<"the same rows", MEq(e.m, e.back) /\ e.rows = Len(e.m) /\ (e.m # << >> => e.cols = Len(e.m[1]))>> >>)
Next == KitStep /\ Do(Event)
TraceSpec == TraceInit /\ [][Next]_<<disk, tr, pos>>
=============================================================================

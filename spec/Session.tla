------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* A learning session: a database of named entries, with an optional       *)
(* directory in which each entry is a file.  (dmpbbo/bbo/LearningSession,  *)
(* dmpbbo/bbo_of_dmps/LearningSessionTask)                                 *)
(*                                                                         *)
(* cache   what this process has told or asked: entry -> value             *)
(* disk    the files: entry -> (extension -> value)                        *)
(* hasdir  whether the session has a directory                             *)
(* told    ghost: entry -> value last told, whatever happened since        *)
(*                                                                         *)
(* A value is a record with fields kind ("array", "table", "object") and   *)
(* id.  The mechanism of the implementation is modelled as it is: a write  *)
(* goes to the file with the extension of the value's kind, reading looks  *)
(* for the extensions in a fixed order, and the cache is filled by both.   *)
(* KeepOld = TRUE is the mechanism without removal of the files an entry   *)
(* had with other extensions; VisibleIsTold does not hold for it.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT KeepOld
VARIABLES cache, disk, hasdir, told
vars == <<cache, disk, hasdir, told>>

Nothing == << >>                         \* the empty function
Ext(v) == CASE v.kind = "array" -> "txt" [] v.kind = "table" -> "csv" [] OTHER -> "json"
Order == <<"json", "csv", "txt">>

WriteFile(d, k, v) ==
  IF KeepOld /\ k \in DOMAIN d
  THEN [d EXCEPT ![k] = (Ext(v) :> v) @@ d[k]]
  ELSE (k :> (Ext(v) :> v)) @@ d
FilesOf(d, k) == IF k \in DOMAIN d THEN DOMAIN d[k] ELSE {}
ReadFile(d, k) == LET i == CHOOSE i \in 1..3 : /\ Order[i] \in FilesOf(d, k)
                                               /\ \A j \in 1..(i-1) : Order[j] \notin FilesOf(d, k)
                  IN d[k][Order[i]]

Exists(k) == k \in DOMAIN cache \/ (hasdir /\ k \in DOMAIN disk)
Missing == [kind |-> "error", id |-> "error"]
Answer(k) == IF k \in DOMAIN cache THEN cache[k]
             ELSE IF hasdir /\ k \in DOMAIN disk THEN ReadFile(disk, k)
             ELSE Missing

SInit(h) == cache = Nothing /\ disk = Nothing /\ hasdir = h /\ told = Nothing

\* Telling several entries at once: kvs is a sequence of <<entry, value>>.
RECURSIVE PutAll(_, _), WriteAll(_, _)
PutAll(c, kvs) == IF kvs = << >> THEN c ELSE PutAll((kvs[1][1] :> kvs[1][2]) @@ c, Tail(kvs))
WriteAll(d, kvs) == IF kvs = << >> THEN d ELSE WriteAll(WriteFile(d, kvs[1][1], kvs[1][2]), Tail(kvs))
TellAll(kvs) == /\ cache' = PutAll(cache, kvs)
                /\ disk' = IF hasdir THEN WriteAll(disk, kvs) ELSE disk
                /\ told' = PutAll(told, kvs)
                /\ UNCHANGED hasdir
Tell(k, v) == TellAll(<< <<k, v>> >>)

\* Asking fills the cache.
Ask(k) == /\ cache' = IF Answer(k) # Missing THEN (k :> Answer(k)) @@ cache ELSE cache
          /\ UNCHANGED <<disk, hasdir, told>>

\* The caller changes an object it told earlier, or one it was given.
Mutate == UNCHANGED vars

\* A new process opens the directory: entry n (the number of samples per
\* update) is read, and nothing is written.
Reopen(n) == /\ hasdir
             /\ LET v == Answer(n)
                IN cache' = n :> v
             /\ UNCHANGED <<disk, hasdir, told>>

\* save_all to a directory, which may have what was saved there before.
RECURSIVE FilesFor(_, _, _)
FilesFor(c, ks, d) == IF ks = {} THEN d
                      ELSE LET k == CHOOSE k \in ks : TRUE
                           IN FilesFor(c, ks \ {k}, WriteFile(d, k, c[k]))
SaveAll == /\ ~hasdir
           /\ disk' = FilesFor(cache, DOMAIN cache, disk)
           /\ UNCHANGED <<cache, hasdir, told>>
\* The same, and the directory is then opened by a new process.
SaveAllAndOpen(n) ==
  /\ ~hasdir
  /\ disk' = FilesFor(cache, DOMAIN cache, disk)
  /\ hasdir' = TRUE
  /\ cache' = n :> cache[n]
  /\ UNCHANGED told

----------------------------------------------------------------------------
(* Properties. *)

\* C01, C02: the session answers with what was last told, for every entry.
VisibleIsTold == /\ \A k \in DOMAIN told : Exists(k) /\ Answer(k) = told[k]
                 /\ \A k \in DOMAIN cache \cup (IF hasdir THEN DOMAIN disk ELSE {}) : k \in DOMAIN told
\* C02: the directory alone answers with what was last told.
DurableIsTold == hasdir => \A k \in DOMAIN told : FilesOf(disk, k) # {} /\ ReadFile(disk, k) = told[k]
OneFilePerEntry == \A k \in DOMAIN disk : Cardinality(FilesOf(disk, k)) = 1
\* Only telling changes what is told (action property).
OnlyTellChanges == [][told' # told => \E k \in DOMAIN told' : k \notin DOMAIN told \/ told[k] # told'[k]]_vars

----------------------------------------------------------------------------
(* Names of entries: update<5 digits>/<3-digit sample or label>_<name>.    *)
RECURSIVE Pad(_, _)
Pad(s, w) == IF Len(s) >= w THEN s ELSE Pad("0" \o s, w)
=============================================================================

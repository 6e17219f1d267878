---------------------------- MODULE SessionTrace ----------------------------
(* Recorded histories of learning sessions against Session.                *)
EXTENDS Session, TraceKit

V(x) == [kind |-> x.kind, id |-> x.id]
N == "n_samples_per_update"
\* Entry for (name, update, sample) as given by the caller.
Label(s) == IF Kind(s) = "int" THEN Pad(ToString(s), 3) \o "_"
            ELSE IF s \in {"None", ""} THEN "" ELSE s \o "_"
Key(name, u, s) == (IF Kind(u) = "int" THEN "update" \o Pad(ToString(u), 5) \o "/" ELSE "")
                   \o Label(s) \o name

Kvs(e) == [i \in 1..Len(e.items) |-> <<Key(e.items[i][1], e.items[i][2], e.items[i][3]), V(e.items[i][4])>>]

TraceInit == KitInit /\ SInit(T[tr].cfg.hasdir)

\* The files that should be in the directory.
FileSet(d) == UNION { { k \o "." \o x : x \in DOMAIN d[k] } : k \in DOMAIN d }
SeqSet(s) == { s[i] : i \in 1..Len(s) }

Do(e) ==
  CASE e.op = "tell" -> /\ TellAll(Kvs(e))
                        /\ Judge(<< <<"accepted", e.out = "ok">> >>)
    [] e.op = "ask" -> LET k == Key(e.name, e.u, e.s)
                       IN /\ Ask(k)
                          /\ Judge(<< <<"answer is the value last told", e.got = Answer(k).id>> >>)
    [] e.op = "exists" -> /\ Mutate
                          /\ Judge(<< <<"exists iff told", e.got = Exists(Key(e.name, e.u, e.s))>> >>)
    [] e.op = "mutate" -> Mutate
    [] e.op = "reopen" -> Reopen(N) /\ Judge(<< <<"can be opened", e.out = "ok">> >>)
    [] e.op = "save" -> SaveAll /\ Judge(<< <<"can be saved", e.out = "ok">> >>)
    [] e.op = "save_all" -> SaveAllAndOpen(N) /\ Judge(<< <<"can be saved and opened", e.out = "ok">> >>)
    [] e.op = "files" ->
          /\ Mutate
          /\ Judge(<< <<"one file per entry, where documented", SeqSet(e.files) = FileSet(disk)>>,
                      <<"every told DMP is exported for C++",
                        \A i \in 1..Len(e.dmps) : Key(e.dmps[i][1], e.dmps[i][2], e.dmps[i][3]) \o "_for_cpp.json"
                                                  \in SeqSet(e.cpp)>> >>)
Next == KitStep /\ Do(Event)
TraceSpec == TraceInit /\ [][Next]_<<vars, tr, pos>>

\* Checked in every state of every recorded history.
TraceVisible == VisibleIsTold
TraceDurable == DurableIsTold
=============================================================================

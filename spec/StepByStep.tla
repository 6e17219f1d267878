----------------------------- MODULE StepByStep -----------------------------
(***************************************************************************)
(* Step-by-step optimization: each step is a process of its own that opens *)
(* the directory, reads what it needs, and writes its results file by      *)
(* file; it may be killed at any point, and is then started again.         *)
(* (dmpbbo/bbo_of_dmps/step_by_step_optimization.py)                       *)
(*                                                                         *)
(* disk    files: name -> content; Torn is the content of a file whose     *)
(*         writing was interrupted                                         *)
(* plan    the writes the running process still has to do, in any order    *)
(* running whether a process is running                                    *)
(* step    the step to do next: 0 is the preparation, u + 1 the update u   *)
(* rolled  whether the rollouts of update step - 1 have been performed     *)
(* draws   number of times samples have been drawn (random: all differ)    *)
(*                                                                         *)
(* Contents are terms, so that a value says what it has been computed      *)
(* from.  OpenWrites = TRUE is a mechanism in which opening the directory  *)
(* writes a file that opening it also has to read: a kill may then make    *)
(* the directory unusable.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS M, Steps, OpenWrites
VARIABLES disk, plan, running, step, rolled, draws
vars == <<disk, plan, running, step, rolled, draws>>

Torn == <<"torn">>
Samples == 1..M
Labels == Samples \cup {0}          \* 0: the evaluation

\* The functions that the implementation computes.
Drawn(dist, k) == <<"samples", dist, k>>
Perturbed(smp, dist, i) == IF i = 0 THEN <<"mean of", dist>> ELSE <<"row", i, smp>>
DmpOf(p) == <<"dmp", p>>
Rollout(dmp) == <<"rollout of", dmp>>
CostOf(cv, dmp) == <<"cost", cv, dmp>>
WeightsOf(costs) == <<"weights", costs>>
Updated(dist, smp, costs) == <<"updated", dist, smp, costs>>

\* File names.
F(name, u) == <<name, u>>
FS(name, u, i) == <<name, u, i>>

Write(f, v) == f :> v
\* The files of a fresh batch of samples for update u.
Batch(dist, u, k) ==
  F("distribution", u) :> dist
  @@ F("samples", u) :> Drawn(dist, k)
  @@ [f \in {FS("dmp", u, i) : i \in Labels} |-> DmpOf(Perturbed(Drawn(dist, k), dist, f[3]))]

\* What has to be readable when a process opens the directory and does step s.
Needed(s) == IF s = 0 THEN {}
             ELSE LET u == s - 1
                  IN { <<"n_samples">>, <<"task">>, <<"updater">>, <<"dmp_initial">>,
                       F("distribution", u), F("samples", u) }
                     \cup {FS("dmp", u, i) : i \in Labels} \cup {FS("cost_vars", u, i) : i \in Labels}
Readable(f) == f \in DOMAIN disk /\ disk[f] # Torn

Costs(u) == [i \in Labels |-> CostOf(disk[FS("cost_vars", u, i)], disk[FS("dmp", u, i)])]
PlanOf(s, k) ==
  (IF OpenWrites \/ s = 0 THEN <<"n_samples">> :> <<"n">> ELSE << >>) @@
  (IF s = 0
   THEN <<"task">> :> <<"t">> @@ <<"updater">> :> <<"up">> @@ <<"dmp_initial">> :> <<"d">> @@ Batch(<<"d0">>, 0, k)
   ELSE LET u == s - 1
            c == Costs(u)
            sc == [i \in Samples |-> c[i]]
            new == Updated(disk[F("distribution", u)], disk[F("samples", u)], sc)
        IN [f \in {FS("costs", u, i) : i \in Labels} |-> c[f[3]]]
           @@ F("weights", u) :> WeightsOf(sc) @@ F("distribution_new", u) :> new
           @@ Batch(new, u + 1, k))

SInit == disk = << >> /\ plan = << >> /\ running = FALSE /\ step = 0 /\ rolled = TRUE /\ draws = 0

Start == /\ ~running /\ rolled /\ step <= Steps
         /\ \A f \in Needed(step) : Readable(f)
         /\ running' = TRUE /\ plan' = PlanOf(step, draws) /\ draws' = draws + 1
         /\ UNCHANGED <<disk, step, rolled>>
Put(f, v) == disk' = (f :> v) @@ disk
\* Opening a file for writing empties it; it is complete when it is closed.
BeginWrite == /\ running /\ \A f \in DOMAIN plan : ~(f \in DOMAIN disk /\ disk[f] = Torn)
              /\ \E f \in DOMAIN plan : Put(f, Torn)
              /\ UNCHANGED <<plan, running, step, rolled, draws>>
EndWrite == \E f \in DOMAIN plan :
              /\ running /\ f \in DOMAIN disk /\ disk[f] = Torn
              /\ Put(f, plan[f]) /\ plan' = [g \in DOMAIN plan \ {f} |-> plan[g]]
              /\ UNCHANGED <<running, step, rolled, draws>>
Finish == /\ running /\ DOMAIN plan = {} /\ running' = FALSE /\ step' = step + 1 /\ rolled' = FALSE
          /\ UNCHANGED <<disk, plan, draws>>
Kill == /\ running /\ running' = FALSE /\ plan' = << >> /\ UNCHANGED <<disk, step, rolled, draws>>
\* The robot: outside of the library, after a step that has been completed.
Roll == /\ ~running /\ ~rolled /\ rolled' = TRUE
        /\ disk' = [f \in {FS("cost_vars", step - 1, i) : i \in Labels} |-> Rollout(disk[FS("dmp", step - 1, f[3])])] @@ disk
        /\ UNCHANGED <<plan, running, step, draws>>

Next == Start \/ BeginWrite \/ EndWrite \/ Finish \/ Kill \/ Roll
Spec == SInit /\ [][Next]_vars

----------------------------------------------------------------------------
\* A killed step can be started again.
CanRestart == ~running /\ rolled => \A f \in Needed(step) : Readable(f)

\* The chain, after any number of completed steps (s of them).
BatchOk(u) == \E k \in 0..draws :
   \A f \in DOMAIN Batch(disk[F("distribution", u)], u, k) :
      f \in DOMAIN disk /\ disk[f] = Batch(disk[F("distribution", u)], u, k)[f]
UpdateDone(u) ==
   LET sc == [i \in Samples |-> disk[FS("costs", u, i)]]
   IN /\ \A i \in Labels : disk[FS("costs", u, i)] = CostOf(disk[FS("cost_vars", u, i)], disk[FS("dmp", u, i)])
      /\ disk[F("weights", u)] = WeightsOf(sc)
      /\ disk[F("distribution_new", u)] = Updated(disk[F("distribution", u)], disk[F("samples", u)], sc)
      /\ disk[F("distribution", u + 1)] = disk[F("distribution_new", u)]
Consistent == ~running /\ ~rolled =>        \* right after the completion of a step
   /\ \A u \in 0..(step - 1) : BatchOk(u)
   /\ \A u \in 0..(step - 2) : UpdateDone(u)
\* What completed steps have written stays.
Past(f) == Len(f) >= 2 /\ (f[2] < step - 1 \/ (f[2] = step - 1 /\ f[1] \in {"distribution", "samples", "dmp"}))
PastKept == [][\A f \in DOMAIN disk : Past(f) => disk'[f] = disk[f]]_vars
=============================================================================

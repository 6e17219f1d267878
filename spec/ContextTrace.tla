----------------------------- MODULE ContextTrace -----------------------------
(***************************************************************************)
(* Recorded calls on a contextual DMP: a DMP whose (selected) parameters   *)
(* are predicted from task parameters, by one approximator per parameter   *)
(* (dmpbbo/dmps/DmpContextualTwoStep.py).                                  *)
(*                                                                         *)
(* The contextual DMP is the DMP p, the selection sel, and the models ppf; *)
(* all that is asked of the DMP is judged as in DmpTrace.                  *)
(***************************************************************************)
EXTENDS DmpTrace

VARIABLE ppf            \* models that predict the parameters
ContextInit == TraceInit /\ ppf = << >>

Mean(rows) == VScale(RDiv(1, Len(rows)), Now([j \in 1..Len(rows[1]) |-> RSum(Col(rows, j))]))
\* The parameters of the DMP for a task.
Predicted(task) == Now([i \in 1..Len(ppf) |-> Predict(ppf[i], task)])
ForTask(q, task) == SetDmpParams(q, sel, Predicted(task))
CDo(e) ==
  CASE e.op = "ctrain" ->
         IF e.out # "ok" THEN UNCHANGED <<p, sel, last, ppf>> /\ Judge(<< <<"accepted", FALSE>> >>)
         ELSE
         LET K == Len(e.demos)
             tau == Mean([k \in 1..K |-> <<e.demos[k].tau>>])[1]
             y0 == Mean([k \in 1..K |-> e.demos[k].first])
             g == Mean([k \in 1..K |-> e.demos[k].final])
             s == [fa |-> e.fa, goal |-> e.goal, sched |-> << >>]
         IN \E q \in { Now(SetYAttr(SetYInit(SetTau(p, e.tau), e.y_init), e.y_attr)) } :
            \E inputs \in { Now([k \in 1..K |-> e.demos[k].task]) } :
            \E targets \in { Now([k \in 1..K |-> ParamsOf(e.demos[k].fas, e.fa) \o (IF e.goal THEN e.demos[k].final ELSE << >>)]) } :
            \E m \in { Len(targets[1]) } :
            /\ p' = Now([q EXCEPT !.fas = e.fas]) /\ sel' = s /\ ppf' = e.ppf
            /\ last' = [last EXCEPT !.ts = e.ts_train]
            /\ Judge(<< <<"demonstrations unchanged", e.unmodified>>,
                        <<"one approximator for each parameter", Len(e.ppf) = m /\ \A k \in 1..K : Len(targets[k]) = m>>,
                        <<"settings are those of the demonstrations, on average",
                          RNear(e.tau, tau, RDec("1e-12"), Zero) /\ VClose(e.y_init, y0, Tol) /\ VClose(e.y_attr, g, Tol)>>,
                        <<"the DMP has been trained with a demonstration", \E k \in 1..K : \A i \in 1..n :
                           SameTraining(e.fas[i], e.demos[k].fas[i], e.demos[k].phases)>> >>
                 \o (IF Len(e.ppf) # m THEN << >> ELSE
                     All(LAMBDA i : TrainedClauses(e.kind, e.meta, inputs, Col(targets, i), Vec(K, One), e.ppf[i], e.tol), 1, m)))
    [] e.op = "request" ->
         \E want \in { Now(DmpParams(ForTask(p, e.task), sel)) } :
         \E r \in { Now([ForTask(p, e.task) EXCEPT !.fas = e.fas, !.yattr = e.y_attr, !.goal = IF Goal0(p) /\ ~p.goalscaled THEN [p.goal EXCEPT !.attr = e.y_attr] ELSE p.goal]) } :
         \E got \in { Now(DmpParams(r, sel)) } :
            /\ p' = (IF e.out = "ok" THEN r ELSE p) /\ UNCHANGED <<sel, last, ppf>>
            /\ Judged(e, << <<"parameters are those predicted for the task", Len(want) = Len(got) /\
                                \A i \in 1..Len(want) : PredictionOk(ppf[i], e.task, got[i], Tol)>>,
                            <<"other parameters do not change", LET z == Zeros(Len(want)) IN
                                SameModels(SetDmpParams(r, sel, z).fas, SetDmpParams(p, sel, z).fas) /\ (~sel.goal => VEq(e.y_attr, p.yattr))>>,
                            <<"task parameters unchanged", e.unmodified>> >>)
    [] e.op = "cplot" ->     \* (the lines for each demonstration are those of a plot of the DMP, judged afterwards)
         LET has(lines, want) == \A i \in 1..Len(want) : \E j \in 1..Len(lines) : SameLine(lines[j], want[i])
             span == RMaxSeq([k \in 1..Len(e.demos) |-> RSub(e.demos[k].ts[Len(e.demos[k].ts)], e.demos[k].ts[1])])
         IN /\ UNCHANGED <<p, sel, last, ppf>>
            /\ Judged(e, << <<"the demonstrations are drawn", \A k \in 1..Len(e.demos) :
                                 /\ has(e.axs[1], Lines(e.demos[k].ts, e.demos[k].ys)) /\ has(e.axs[2], Lines(e.demos[k].ts, e.demos[k].yds))
                                 /\ has(e.axs[3], Lines(e.demos[k].ts, e.demos[k].ydds))>>,
                            <<"for each the same lines", e.each>>,
                            <<"what was given is unchanged", e.unmodified>>,
                            <<"from the start until the end of the longest (the next time would be past it)", REq(e.ts[1], Zero) /\
                                 RLe(span, RAdd(e.ts[Len(e.ts)], RSub(e.ts[2], e.ts[1])))>> >>)
    [] e.op = "pplot" ->
         LET trained(l, i) == Len(l) = Len(e.tasks) /\ \A k \in 1..Len(l) : /\ VEq(SubSeq(l[k], 1, Len(l[k]) - 1), e.tasks[k])
                                                                         /\ PredictionOk(ppf[i], e.tasks[k], l[k][Len(l[k])], Tol)
         IN /\ UNCHANGED <<p, sel, last, ppf>>
            /\ Judged(e, << <<"axes for each parameter", Len(e.axs) >= Len(ppf)>>,
                            <<"what predicts a parameter is drawn", e.saved => \A i \in 1..Len(ppf) : \E j \in 1..Len(e.axs[i]) : trained(e.axs[i][j], i)>> >>)
    [] OTHER -> Do(e) /\ UNCHANGED ppf
CNext == KitStep /\ CDo(Event)
TraceSpec2 == ContextInit /\ [][CNext]_<<p, sel, last, ppf, tr, pos>>
=============================================================================

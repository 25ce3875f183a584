------------------------------ MODULE Experiment ------------------------------
(* An experiment: every hyperparameter set, in the given order, is trained    *)
(* with every seed for some epochs.  Each epoch leaves a model on disk and is *)
(* scored on development data.  A seed keeps its best epoch, a parameter set  *)
(* is worth the average of its seeds' best scores, the best set is tested.    *)
(* With disposal, models that can no longer win are removed at once.          *)
(* A model is <<p, s, e>>: parameter set, seed position, epoch, from 0.       *)
EXTENDS Common

\* score: integer score of a model; Better is strict, so the first of equals wins
XInit == [p |-> 0, s |-> -1, e |-> 0, sb |-> None, done |-> <<>>, best |-> None, disk |-> {}]
\* sb: best of the running seed <<e, score>>; done: bests of finished seeds <<s, e, score>>; best: <<p, done, total>>
StartSeed(st) == [st EXCEPT !.s = @ + 1, !.e = 0, !.sb = None]
Trained(st) == [st EXCEPT !.disk = @ \cup {<<st.p, st.s, st.e>>}]
Decide(st, sc, dispose) ==
    LET me == <<st.p, st.s, st.e>>
        wins == st.sb = None \/ sc > Get(st.sb)[2]
        loser == IF ~wins THEN {me} ELSE IF st.sb = None THEN {} ELSE {<<st.p, st.s, Get(st.sb)[1]>>}
    IN [st EXCEPT !.sb = IF wins THEN << <<st.e, sc>> >> ELSE @, !.e = @ + 1, !.disk = IF dispose THEN @ \ loser ELSE @]
EndSeed(st) == [st EXCEPT !.done = Append(@, <<st.s, Get(st.sb)[1], Get(st.sb)[2]>>)]
Total(done) == SumSeq(MapSeq(LAMBDA d : d[3], done))       \* same number of seeds each time: totals order as averages
EndParams(st, dispose) ==
    LET t == Total(st.done)
        wins == st.best = None \/ t > Get(st.best)[3]
        loser == IF ~wins THEN st.p ELSE IF st.best = None THEN -1 ELSE Get(st.best)[1]
    IN [st EXCEPT !.best = IF wins THEN << <<st.p, st.done, t>> >> ELSE @, !.p = @ + 1, !.s = -1, !.done = <<>>, !.sb = None,
                  !.disk = IF dispose THEN { m \in @ : m[1] # loser } ELSE @]
Winners(st) == IF st.best = None THEN {} ELSE { <<Get(st.best)[1], d[1], d[2]>> : d \in Range0(Get(st.best)[2]) }
RunningBests(st) == { <<st.p, d[1], d[2]>> : d \in Range0(st.done) } \cup (IF st.sb = None THEN {} ELSE { <<st.p, st.s, Get(st.sb)[1]>> })

\* --------------------------------------------------------------- declaration --
FirstMax(f, n) == CHOOSE i \in 0..(n - 1) : (\A j \in 0..(n - 1) : f[j] <= f[i]) /\ (\A j \in 0..(i - 1) : f[j] < f[i])
\* dev[p][s][e]
SeedBest(dev, p, s, ne) == FirstMax([ e \in 0..(ne - 1) |-> dev[<<p, s, e>>] ], ne)
ParamsScore(dev, p, ns, ne) == SumSeq([ i \in 1..ns |-> dev[<<p, i - 1, SeedBest(dev, p, i - 1, ne)>>] ])
ParamsBest(dev, np, ns, ne) == FirstMax([ p \in 0..(np - 1) |-> ParamsScore(dev, p, ns, ne) ], np)
DeclaredWinners(dev, np, ns, ne) == LET p == ParamsBest(dev, np, ns, ne) IN { <<p, s, SeedBest(dev, p, s, ne)>> : s \in 0..(ns - 1) }
=============================================================================

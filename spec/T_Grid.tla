-------------------------------- MODULE T_Grid --------------------------------
(* One record is one run of the grid search script. *)
EXTENDS Grid, Trace
NoState == 0
Keep(s, b) == [st |-> s, bad |-> b]
Score(r, p) == SumSeq(MapSeq(LAMBDA f : r.dev[p][1][1][IF f = "UPOS" THEN 1 ELSE IF f = "Lemmas" THEN 2 ELSE 3], r.fields))
Trees(r) == MapSeq(LAMBDA leaves : Range0(leaves), r.trained)
JudgeC20(s, r) == Keep(s,
    LET tree == Range0(r.tree)
        ok == GridValid(r.axes) /\ GridDefined(tree, r.axes) IN
    IF ~ok \/ r.occupied THEN
        Clause("bad-grid-is-refused", r.exc = "ValueError") \cup Clause("nothing-trained", r.trained = <<>>) \cup Clause("foreign-files-kept", r.foreign)
    ELSE Clause("run-failed", r.exc = "") \cup Clause("foreign-files-kept", r.foreign)
         \cup Clause("trains-every-combination-once", IsPerm(Trees(r), Expand(tree, r.axes)))
         \cup (IF r.exc # "" THEN {} ELSE Clause("best-combination-tested",
                LET win == { k \in DOMAIN r.trained : (\A j \in DOMAIN r.trained : Score(r, j) <= Score(r, k)) /\ (\A j \in 1..(k - 1) : Score(r, j) < Score(r, k)) } IN
                IF r.tests THEN Len(r.tested) = 1 /\ r.tested[1][1] + 1 \in win ELSE r.tested = <<>>))
         \cup Clause("models-removed-at-the-end", r.left = <<>> /\ ~r.dirleft))
=============================================================================

------------------------------ MODULE T_EndToEnd ------------------------------
(* One record is one run of the evaluation script with real networks.         *)
(* "run": the scripts' tables, the saved predictions of every epoch, what the *)
(* models that were left predict.  "pretrained", "repeated": the same again.  *)
EXTENDS T_UDScore, Experiment
\* what the predictions must not change: sentences and forms
Skeleton(tb) == MapSeq(LAMBDA s : MapSeq(LAMBDA it : <<it.form, it.mw, MapSeq(LAMBDA w : w.lf, it.words)>>, s), tb)
\* the sum of scores over the same words: the ratios of the sum are the averages
SumScores(ws) == [ m \in Metrics |-> [gold |-> SumSeq(MapSeq(LAMBDA w : w[m].gold, ws)), sys |-> SumSeq(MapSeq(LAMBDA w : w[m].sys, ws)),
                                      correct |-> SumSeq(MapSeq(LAMBDA w : w[m].correct, ws)),
                                      aligned |-> IF ws[1][m].aligned = None THEN None ELSE <<SumSeq(MapSeq(LAMBDA w : Get(w[m].aligned), ws))>>] ]
\* all words are aligned, so all ratios of a metric are the same and have the same denominator
Worth(r, w) == SumSeq(MapSeq(LAMBDA f : w[f].correct, r.fields))
\* where scores of several fields add up to the same, rounding decides
Candidates(r, ws) ==
    LET v == [ e \in 0..(r.ne - 1) |-> Worth(r, ws[e + 1]) ] IN
    IF Len(r.fields) = 1 THEN {FirstMax(v, r.ne)} ELSE { e \in 0..(r.ne - 1) : \A f \in 0..(r.ne - 1) : v[f] <= v[e] }
TableBad(r, w, rows) == PrintedBad(w, rows, Range0(r.printer)) \cup Clause("printed-order", MapSeq(LAMBDA x : x[1], rows) = r.printer)
TableOk(r, w, rows) == TableBad(r, w, rows) = {}
\* annotations of what the networks were not trained for
Blank(tb, r) == \A i \in DOMAIN tb : \A j \in DOMAIN tb[i] : \A k \in DOMAIN tb[i][j].words : LET w == tb[i][j].words[k] IN
    /\ r.lemma \/ w.lemma = "_"
    /\ r.pos \/ (w.upos = "_" /\ w.xpos = "_" /\ w.feats = "_")
Picks(P) == LET RECURSIVE Go(_)
                  Go(n) == IF n = 0 THEN {<<>>} ELSE { Append(c, e) : c \in Go(n - 1), e \in P[n] }
              IN Go(Len(P))
JudgeFirst(r) ==
    LET ns == Len(r.seeds)
        tabs == r.run.tables
        extra == IF r.list THEN 1 ELSE 0
        files == Concat(r.run.dev) \o r.run.test
        golds == [ k \in DOMAIN files |-> IF k <= ns * r.ne THEN r.dev ELSE r.test ]
    IN
    IF r.run.exc # "" THEN {"run-failed"}
    ELSE IF Len(tabs) # ns * (r.ne + 1) + extra + 2 THEN {"number-of-tables"}
    ELSE IF \E k \in DOMAIN files : Skeleton(files[k]) # Skeleton(golds[k]) THEN {"predictions-change-the-words"}
    ELSE
    LET ws == [ s \in 1..ns |-> [ e \in 1..r.ne |-> Evaluate(r.dev, r.run.dev[s][e], <<>>) ] ]
        ts == [ s \in 1..ns |-> Evaluate(r.test, r.run.test[s], <<>>) ]
        at(s, e) == tabs[(s - 1) * (r.ne + 1) + e]
        fits(s) == { e \in Candidates(r, ws[s]) : TableOk(r, ws[s][e + 1], at(s, r.ne + 1)) }
        tested(s) == { e \in fits(s) : r.reload[s][e + 1].test = r.run.test[s] }
    IN Clause("session-left-open", r.run.open = 0)
       \cup Clause("models-left", r.run.left)
       \cup Clause("untrained-annotation", \A k \in DOMAIN files : Blank(files[k], r))
       \cup UNION { TableBad(r, ws[s][e], at(s, e)) : s \in 1..ns, e \in 1..r.ne }
       \cup Clause("saved-model-predicts-differently", \A s \in 1..ns : \A e \in 1..r.ne : r.reload[s][e].dev = r.run.dev[s][e])
       \cup Clause("best-epoch-of-seed", \A s \in 1..ns : fits(s) # {})
       \cup Clause("best-model-tested", \A s \in 1..ns : fits(s) = {} \/ tested(s) # {})
       \cup Clause("averages", (\A s \in 1..ns : fits(s) # {}) =>
                \E c \in Picks([ s \in 1..ns |-> fits(s) ]) :
                    \A k \in (ns * (r.ne + 1) + 1)..(Len(tabs) - 1) : TableOk(r, SumScores([ s \in 1..ns |-> ws[s][c[s] + 1] ]), tabs[k]))
       \cup Clause("test-scores", TableOk(r, SumScores(ts), tabs[Len(tabs)]))
JudgeAgain(r) ==
    IF r.run.exc # "" THEN {"run-failed"}
    ELSE Clause("session-left-open", r.run.open = 0)
         \cup Clause("other-predictions-for-development", r.run.dev = r.first.dev)
         \cup Clause("other-predictions-for-test", r.run.test = r.first.test)
         \cup Clause("other-scores", r.run.tables = r.first.tables)
         \cup Clause("models-left", r.run.left = (r.k = "pretrained"))
JudgeC39(s, r) == Keep(s, IF r.k = "run" THEN JudgeFirst(r) ELSE { r.k \o "-" \o c : c \in JudgeAgain(r) })
=============================================================================

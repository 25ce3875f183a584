----------------------------- MODULE T_Experiment -----------------------------
(* One record is one run of the evaluation script:                            *)
(*   np, seeds, ne (epochs per parameter set), dispose, dev/test scores       *)
(*   log: what happened, each entry with the models on disk at that moment    *)
EXTENDS Experiment, Trace
NoState == 0
Keep(s, b) == [st |-> s, bad |-> b]
ScoreOf(r, fields, tab, m) == LET v == tab[m[1] + 1][m[2] + 1][m[3] + 1] IN SumSeq(MapSeq(LAMBDA f : v[IF f = "UPOS" THEN 1 ELSE IF f = "Lemmas" THEN 2 ELSE 3], fields))
Dev(r, m) == ScoreOf(r, r.fields, r.dev, m)
Disk(ev) == Range0(ev.disk)
\* fold state: x machine, pos ("between", "train", "trained", "test"), tested, bad
F0 == [x |-> XInit, pos |-> "between", tested |-> <<>>, bad |-> {}]
Ns(r) == Len(r.seeds)
\* when a new training starts, the previous seed (and parameter set) is over
Advance(r, x) == IF x.sb = None THEN x
                 ELSE LET y == EndSeed(x) IN IF Len(y.done) = Ns(r) THEN EndParams(y, r.dispose) ELSE y
Flag(f, name, cond) == IF cond THEN f.bad ELSE f.bad \cup {name}
LogStep(r, f, ev) ==
    CASE ev.t = "train" ->
           LET x == StartSeed(Advance(r, f.x)) IN
           [f EXCEPT !.x = x, !.pos = "train",
                     !.bad = @ \cup Clause("training-order", ev.p = x.p /\ ev.seed = r.seeds[x.s + 1] /\ f.pos \in {"between", "train"})
                               \cup Clause("training-data", ev.data) \cup Clause("settings-passed", ev.kw)
                               \cup Clause("disk-at-start", Disk(ev) = x.disk)]
      [] ev.t = "dev" ->
           LET x == Trained(f.x) IN
           [f EXCEPT !.x = x, !.pos = "trained", !.bad = @ \cup Clause("scored-epoch", ev.m = <<x.p, x.s, x.e>>) \cup Clause("disk-at-scoring", Disk(ev) = x.disk)
                                                      \cup Clause("scored-out-of-turn", f.pos = "train")]
      [] ev.t = "next" ->       \* the trainer is asked to go on
           LET x == Decide(f.x, Dev(r, <<f.x.p, f.x.s, f.x.e>>), r.dispose) IN
           [f EXCEPT !.x = x, !.pos = "train", !.bad = @ \cup Clause("disk-after-epoch", Disk(ev) = x.disk) \cup Clause("unscored-epoch", f.pos = "trained")]
      [] ev.t = "test" ->
           LET x == IF f.pos = "test" THEN f.x ELSE Advance(r, f.x) IN
           [f EXCEPT !.x = x, !.pos = "test", !.tested = Append(@, ev.m),
                     !.bad = @ \cup Clause("disk-at-test", Disk(ev) = x.disk) \cup Clause("tested-before-the-end", x.p = r.np)]
      [] ev.t = "fail" -> [f EXCEPT !.pos = "failed"]      \* the scripted trainer raised
Final(r) == FoldLeft(LAMBDA f, ev : LogStep(r, f, ev), F0, r.log)
NearPct(v, num, den) == v * den - num * 10000 \in -den..den
\* printed percentages (hundredths) of the fields; three numbers and the aligned accuracy
PrintedOk(r, rows, tab, ms) ==
    /\ [ k \in DOMAIN rows |-> rows[k][1] ] = r.printer
    /\ \A k \in DOMAIN rows :
         LET f == rows[k][1]
             n == Cardinality(ms)
             tot == IF f \in {"Tokens", "Words"} THEN n * r.words ELSE SumSeq(SetToSeq({ 1000 * (m[2] + 1) + ScoreOf(r, <<f>>, tab, m) : m \in ms })) - 1000 * SumSeq(SetToSeq({ m[2] + 1 : m \in ms }))
         IN /\ \A j \in 1..3 : NearPct(rows[k][2][j], tot, n * r.words)
            /\ IF f \in {"Tokens", "Words"} THEN rows[k][2][4] = -9999 ELSE NearPct(rows[k][2][4], tot, n * r.words)
SameBag(a, b) == IsPerm(a, b)
AllModels(r) == Concat([ p \in 1..r.np |-> Concat([ s \in 1..Ns(r) |-> [ e \in 1..r.ne[p] |-> <<p - 1, s - 1, e - 1>> ] ]) ])
Pair(tab, m) == LET v == tab[m[1] + 1][m[2] + 1][m[3] + 1] IN v
EpochClauses == {"scored-epoch", "disk-at-scoring", "scored-out-of-turn", "disk-after-epoch", "unscored-epoch", "disk-at-start"}

Refused(r) == r.dispose /\ r.occupied
JudgeBase(r) ==
    IF Refused(r) THEN Clause("occupied-directory-is-refused", r.exc = "ValueError" /\ r.log = <<>> /\ r.foreign)
    ELSE IF r.fails THEN Clause("failure-reported", r.exc = "RuntimeError")
         \cup Clause("failure-keeps-what-was-best", LET f == Final(r) IN Range0(r.left) = f.x.disk) \cup Clause("foreign-files-kept", r.foreign)
    ELSE Clause("run-failed", r.exc = "") \cup Clause("foreign-files-kept", r.foreign)
\* C18: epochs of one seed
JudgeC18(s, r) == Keep(s, JudgeBase(r) \cup (Final(r).bad \cap EpochClauses)
    \cup (IF Refused(r) \/ r.fails \/ ~r.tests THEN {} ELSE
          Clause("best-epoch-of-each-seed-tested", \A k \in DOMAIN Final(r).tested : Final(r).tested[k] \in Winners(Final(r).x)))
    \cup (IF Refused(r) \/ r.fails \/ ~r.saves THEN {} ELSE
          Clause("saved-dev-predictions", SameBag(r.devfiles, MapSeq(LAMBDA m : Pair(r.dev, m), AllModels(r))))))
\* C19: parameter sets, averages, final report, clean-up
JudgeC19(s, r) == Keep(s, JudgeBase(r) \cup Final(r).bad
    \cup (IF Refused(r) \/ r.fails \/ r.exc # "" THEN {} ELSE
          LET f == Final(r)
              x == IF f.pos = "test" THEN f.x ELSE Advance(r, f.x)
              w == Winners(x)
          IN Clause("all-trained", x.p = r.np)
             \cup Clause("tested-winners", IF r.tests THEN Range0(f.tested) = w /\ Len(f.tested) = Cardinality(w) ELSE f.tested = <<>>)
             \cup Clause("reported-dev-scores", PrintedOk(r, r.devrows, r.dev, w))
             \cup Clause("reported-test-scores", IF r.tests THEN PrintedOk(r, r.testrows, r.test, w) ELSE r.testrows = <<>>)
             \cup Clause("saved-test-predictions", ~r.saves \/ ~r.tests \/ SameBag(r.testfiles, MapSeq(LAMBDA m : Pair(r.test, m), SetToSeq(w))))
             \cup Clause("models-at-the-end", IF r.dispose THEN r.left = <<>> /\ ~r.dirleft ELSE Range0(r.left) = x.disk)))
=============================================================================

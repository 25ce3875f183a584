------------------------------- MODULE T_Train -------------------------------
(* C26 batches of an epoch, C27 schedule and models, C28 tagging              *)
EXTENDS Train, Trace
NoState == 0
Keep(s, b) == [st |-> s, bad |-> b]
Lookup(fs, n) == (CHOOSE k \in DOMAIN fs : fs[k][1] = n)
ValueOf(fs, n) == fs[CHOOSE k \in DOMAIN fs : fs[k][1] = n][2]
NamesOf(fs) == MapSeq(LAMBDA p : p[1], fs)

\* ------------------------------------------------------- one training run ----
RECURSIVE SparseTree(_, _)
SparseTree(x, y) == x.leaf = y.leaf /\ Len(x.l) = Len(y.l) /\ (IF y.leaf THEN (IF y.n = Padding THEN x.n = Padding ELSE x.n \in {y.n, Oov}) ELSE \A k \in DOMAIN y.l : SparseTree(x.l[k], y.l[k]))
RECURSIVE AllUnknown(_)
AllUnknown(x) == IF x.leaf THEN x.n \in {Oov, Padding} ELSE \A k \in DOMAIN x.l : AllUnknown(x.l[k])
\* the batch of the sentences b: the features of each, filled up to one shape
Expected(r, b, what, n) == Pad(Concat([ k \in DOMAIN b |-> ValueOf(r.sents[b[k] + 1][what], n) ]))
FeaturesOk(r, ev, b) ==
    /\ NamesOf(ev.f) = NamesOf(r.sents[1].f)
    /\ \A k \in DOMAIN ev.f : LET want == Expected(r, b, "f", ev.f[k][1])
                                  got == ev.f[k][2]
                              IN IF r.sparse = 0 \/ ev.f[k][1] \notin Range0(r.hide) THEN got = want
                                 ELSE /\ Len(got) = Len(want)
                                      /\ \A i \in DOMAIN got : SparseTree(got[i], want[i]) /\ (r.sparse = 100 => AllUnknown(got[i]))
LabelsOk(r, ev, b) == NamesOf(ev.l) = NamesOf(r.sents[1].l) /\ \A k \in DOMAIN ev.l : ev.l[k][2] = Expected(r, b, "l", ev.l[k][1])

\* fold state: sched, phase, order of the last reading, todo batches, n trained batches, cutnow, bad
F0 == [sched |-> SInit, e |-> 0, phase |-> "start", order |-> None, fresh |-> FALSE, todo |-> <<>>, n |-> 0, inits |-> 0, sets |-> 0, lastcut |-> FALSE, dec |-> FALSE, loadp |-> "", closes |-> 0, seeds |-> <<>>, bad |-> {}]
Acc(ev) == SumSeq(MapSeq(LAMBDA a : IF a = None THEN 0 ELSE a[1], ev.accs))
Near(x, y) == x - y \in -200..200
RunStep(r, f, ev) ==
    CASE ev.t = "pass" -> [f EXCEPT !.order = Some(ev.docs), !.fresh = TRUE,
                                    !.bad = @ \cup Clause("read-during-epoch", f.phase # "batches" \/ f.todo = <<>>)]
      [] ev.t = "seed" -> [f EXCEPT !.seeds = Append(@, ev.v)]
      [] ev.t = "init" -> [f EXCEPT !.inits = @ + 1, !.bad = @ \cup Clause("initialised-late", f.n = 0 /\ f.sets = 0)]
      [] ev.t = "set" -> [f EXCEPT !.sets = @ + 1, !.bad = @ \cup Clause("initialised-late", f.n = 0)]
      [] ev.t = "batch" ->
           LET first == f.phase # "batches"
               todo == IF first THEN (IF f.order = None THEN <<>> ELSE Minibatches(Flatten(Get(f.order), r.docs), r.size)) ELSE f.todo
               done == \/ f.phase \in {"start", "yielded"} \/ (f.phase = "saved" /\ ~r.tester)
               ok == todo # <<>>
               k == IF first THEN (4 + r.d4 * f.e) * (IF f.dec THEN r.fac ELSE 1) ELSE 4
           IN [f EXCEPT !.phase = "batches", !.fresh = FALSE, !.todo = IF ok THEN Tail(todo) ELSE <<>>, !.n = @ + 1, !.dec = FALSE,
                        !.bad = @ \cup Clause("epoch-starts-in-turn", ~first \/ done) \cup Clause("data-read-anew", ~first \/ f.fresh)
                                  \cup Clause("one-batch-too-many", ok)
                                  \cup (IF ok THEN Clause("batch-features", FeaturesOk(r, ev, todo[1])) \cup Clause("batch-labels", LabelsOk(r, ev, todo[1])) ELSE {})
                                  \cup Clause("dropout-passed", ev.drop = r.drop)
                                  \cup Clause("learning-rate", Near(ev.ratio * k, 4000000))
                                  \cup Clause("not-initialised", f.inits = 1 /\ f.sets = r.matrices)]
      [] ev.t = "save" ->
           LET skipped == f.phase # "batches" IN
           [f EXCEPT !.phase = "saved", !.e = IF r.tester THEN @ ELSE @ + 1,
                     !.bad = @ \cup Clause("saved-before-the-end-of-the-epoch", ~skipped /\ f.todo = <<>>)
                               \cup Clause("saved-where", f.e < r.epochs /\ ev.path = r.names[f.e + 1]) \cup Clause("saved-what", ev.w = f.n)]
      [] ev.t = "load" -> [f EXCEPT !.loadp = ev.path, !.bad = @ \cup Clause("scored-model", f.phase = "saved" /\ ev.path = r.names[f.e + 1])]
      [] ev.t = "say" -> [f EXCEPT !.bad = @ \cup Clause("scored-model", f.phase = "saved" /\ ev.w = f.n)]
      [] ev.t = "dev" -> [f EXCEPT !.phase = "scored", !.sched = Scored(@, Acc(ev)), !.dec = Stagnates(f.sched, Acc(ev)),
                                   !.bad = @ \cup Clause("scored-in-turn", f.phase = "saved") \cup Clause("probe-tagged", r.probe => f.loadp = r.names[f.e + 1])]
      [] ev.t = "yield" -> [f EXCEPT !.phase = "yielded", !.e = @ + 1, !.bad = @ \cup Clause("yield-in-turn", f.phase = "scored") \cup Clause("yielded-what", ev.same)]
      [] ev.t = "close" -> [f EXCEPT !.closes = @ + 1]
Final(r) == FoldLeft(LAMBDA f, ev : RunStep(r, f, ev), F0, r.log)
DataClauses == {"read-during-epoch", "data-read-anew", "one-batch-too-many", "batch-features", "batch-labels", "dropout-passed", "saved-before-the-end-of-the-epoch", "epoch-starts-in-turn"}
Ended(r, f) ==
    IF r.tester /\ r.fail >= 0 /\ r.fail < r.epochs /\ (r.stop < 0 \/ r.fail < r.stop) THEN Clause("failure-reported", r.exc = "Fail") \cup Clause("epochs-before-failure", f.e = r.fail /\ f.phase = "saved")
    ELSE Clause("run-failed", r.exc = "")
         \cup Clause("all-epochs", IF r.tester /\ r.stop >= 0 /\ r.stop <= r.epochs THEN f.e = r.stop ELSE f.e = r.epochs)
JudgeC26(s, r) == LET f == Final(r) IN Keep(s, (f.bad \cap DataClauses) \cup Ended(r, f))
JudgeC27(s, r) == LET f == Final(r) IN Keep(s, (f.bad \ {"batch-features", "batch-labels"}) \cup Ended(r, f)
                                               \cup Clause("session-left-open", r.open = 0) \cup Clause("seed-passed", f.seeds = <<r.seed>>))

\* ------------------------------------------------------------------ tagging --
\* what the network of the model said for a sentence with these features
Agrees(q, fs) == /\ NamesOf(q.f) = NamesOf(fs)
                 /\ \A k \in DOMAIN fs : Extends0(q.f[k][2], fs[k][2][1])
Said(r, fs, n) == { q.src : q \in { x \in Range0(r.log) : x.t = "say" /\ x.w = r.w /\ Len(x.src) = n /\ Agrees(x, fs) } }
DocOk(r, d, base) ==
    LET in == r.docs[d]
        out == r.out[d]
        want(t, src) == [pos |-> IF r.tpos = <<>> THEN in.an[t].pos ELSE r.tpos[src + 1], lemma |-> IF r.tlem = <<>> THEN in.an[t].lemma ELSE r.tlem[src + 1]]
    IN Clause("text-and-segmentation-kept", out.text = in.text /\ out.sents = in.sents)
       \cup Clause("other-annotations-kept", out.toks = in.toks)
       \cup Clause("word-count-kept", Len(out.an) = Len(in.an))
       \cup (IF Len(out.an) # Len(in.an) THEN {} ELSE
             Clause("every-word-gets-what-the-network-said", \A k \in DOMAIN in.sents :
                LET a == in.sents[k][1]
                    n == in.sents[k][2] - a
                IN \E src \in Said(r, r.feats[base + k].f, n) : \A j \in 1..n : out.an[a + j] = want(a + j, src[j])))
Base(r, d) == SumSeq([ k \in 1..(d - 1) |-> Len(r.docs[k].sents) ])
Evs(r, t) == SelectSeq(r.log, LAMBDA e : e.t = t)
\* documents go in and out one at a time
Flow(r) == MapSeq(LAMBDA e : <<e.t, e.i>>, SelectSeq(r.log, LAMBDA e : e.t \in {"pull", "out"}))
FullFlow(n) == Concat([ k \in 1..n |-> << <<"pull", k - 1>>, <<"out", k - 1>> >> ])
TagBad(r) ==
    LET n == IF r.quit < 0 \/ r.quit >= Len(r.docs) THEN Len(r.docs) ELSE r.quit + 1 IN
    Clause("tagging-failed", r.exc = "") \cup Clause("all-documents", Len(r.out) = n) \cup Clause("one-document-at-a-time", Flow(r) = FullFlow(n))
    \cup Clause("own-model-loaded", \A e \in Range0(Evs(r, "load")) : e.path = r.path) \cup Clause("no-dropout-when-tagging", \A e \in Range0(Evs(r, "say")) : e.drop = 100)
    \cup Clause("own-weights", \A e \in Range0(Evs(r, "say")) : e.w = r.w)
    \cup Clause("session-left-open", r.open = 0)
    \cup (IF Len(r.out) # n THEN {} ELSE UNION { DocOk(r, d, Base(r, d)) : d \in 1..n })
PreBad(r) == Clause("pretrained-failed", r.exc = "") \cup Clause("every-model-tested", r.tested = r.n /\ Len(r.pairs) = r.n) \cup Clause("score-with-its-model", \A k \in DOMAIN r.pairs : r.pairs[k])
JudgeC28(s, r) == Keep(s, CASE r.k = "tag" -> TagBad(r) [] r.k = "pretrained" -> PreBad(r))
=============================================================================

------------------------------ MODULE T_Network ------------------------------
(* C32 losses and predictions, C33 what scores depend on, C34 models and      *)
(* copies, C35 steps, C36 embeddings, C37 learning                            *)
EXTENDS Network, Trace
NoState == 0
Keep(s, b) == [st |-> s, bad |-> b]
Abs(x) == IF x < 0 THEN -x ELSE x
Close(x, y, tol) == Abs(x - y) <= tol
LabelsName(b) == CASE b = "pos_dense" -> "pos_labels" [] b = "lemma_dense" -> "lemma_labels" [] b = "lemma_combo" -> "output_subwords" [] OTHER -> "lemma_rule_labels"

\* ================================================================== C32 ======
Softmax(b) == b # "lemma_binary"
WeightsOf(r, b) == r.ws[CHOOSE k \in DOMAIN r.ws : r.ws[k][1] = b][2]
\* tolerance for sums of unit losses, in millionths: single precision grows with the loss
Tol(r) == 300 + r.loss \div 2000
OwnLoss(r, u) == r.loss - u.low + u.lse
\* the predicted label is one of those with the lowest loss
Best(u) == \A k \in DOMAIN u.vec : u.vec[u.pred + 1] <= u.vec[k] + 8
AppOk(app, pred) == (\E k \in DOMAIN app : app[k]) => app[pred + 1]
Gaps(r) == LET us == { k \in DOMAIN r.units : Softmax(r.units[k].b) }
           IN SumSeq([ k \in DOMAIN r.units |-> IF k \in us THEN OwnLoss(r, r.units[k]) ELSE 0 ])
JudgeUnits(r) ==
    LET N == SumSeq(r.tokens)
        allsoft == \A k \in DOMAIN r.ws : Softmax(r.ws[k][1])
        bin == Gaps(r)
    IN Clause("unit-weight", \A k \in DOMAIN r.units : LET u == r.units[k] IN
                 Close(u.w * Divisor(u.b, r.tokens, r.maxlen), PartWeight(WeightsOf(r, u.b), u.p) * 10000, Divisor(u.b, r.tokens, r.maxlen)))
       \cup Clause("prediction-has-lowest-loss", \A k \in DOMAIN r.units : Best(r.units[k]))
       \cup Clause("inapplicable-rule-predicted", \A k \in DOMAIN r.units : r.units[k].app = <<>> \/ AppOk(r.units[k].app, r.units[k].pred))
       \cup Clause("inapplicable-rule-never-pays", \A k \in DOMAIN r.units : LET u == r.units[k] IN
                 u.w = 0 \/ \A x \in DOMAIN u.app : ~u.app[x] => u.vec[x] >= 1000000000 \/ (u.app[u.gold + 1] = FALSE))
       \cup Clause("loss-is-sum-of-parts", IF allsoft THEN Close(bin, r.loss, Tol(r)) ELSE bin <= r.loss + Tol(r))
       \cup Clause("own-loss-not-negative", \A k \in DOMAIN r.units : Softmax(r.units[k].b) => OwnLoss(r, r.units[k]) >= -20)
       \cup Clause("weight-scales-loss", r.doubled = <<>> \/ Close(r.doubled[1] - r.loss, r.loss - bin, 2 * Tol(r)))
       \cup Clause("padding-is-free", \A k \in DOMAIN r.pads : Close(r.pads[k], r.loss, 5))
       \cup Clause("rate-zero-changes-nothing", r.still)
       \cup Clause("one-prediction-per-part", /\ MapSeq(LAMBDA x : x[1], r.shapes) = MapSeq(LAMBDA x : x[1], r.parts)
                                              /\ { r.shapes[k][1] : k \in DOMAIN r.shapes } = { LabelsName(r.ws[k][1]) : k \in DOMAIN r.ws }
                                              /\ \A k \in DOMAIN r.shapes : r.shapes[k][2] = <<Len(r.tokens), Max(Range0(r.tokens)), r.parts[k][2]>>)
JudgeGuess(r) == Clause("prediction-in-range", Len(r.pred) = r.n /\ \A j \in DOMAIN r.pred : Len(r.pred[j]) = Len(r.sizes) /\ \A k \in DOMAIN r.sizes : r.pred[j][k] \in 0..(r.sizes[k] - 1))
                 \cup Clause("inapplicable-rule-predicted", \A j \in DOMAIN r.app : AppOk(r.app[j], r.pred[j][1]))
JudgeC32(s, r) == CASE r.k = "units" -> Keep(s, JudgeUnits(r)) [] r.k = "guess" -> Keep(s, JudgeGuess(r))

\* ================================================================== C33 ======
ExpectedParts(c) == Len(c.tasks)
JudgeConf(r) == Clause("asked-twice", \A k \in DOMAIN r.asked : r.asked[k] = r.asked[1])
                \cup Clause("valid-configuration-refused", Buildable(r.c) => r.exc = "") \cup Clause("invalid-configuration-accepted", r.exc = "" => Buildable(r.c))
                \cup Clause("output-shape", \A k \in DOMAIN r.shapes : r.shapes[k][2][1] = Len(r.tokens) /\ r.shapes[k][2][2] = Max(Range0(r.tokens)))
JudgeDep(r) == LET seen == Reach(r.n, r.c) IN
    Clause("sees-too-much", \A i, j \in 1..r.n : r.dep[i][j] => i \in seen[j])
    \cup Clause("sees-itself", \E j \in 1..r.n : r.dep[j][j] \/ \A i \in 1..r.n : i \notin seen[i])
    \cup Clause("sees-the-left", (\E i, j \in 1..r.n : i < j /\ i \in seen[j]) => \E i, j \in 1..r.n : i < j /\ r.dep[i][j])
    \cup Clause("sees-the-right", (\E i, j \in 1..r.n : i > j /\ i \in seen[j]) => \E i, j \in 1..r.n : i > j /\ r.dep[i][j])
\* mean over words of the losses of the sentences alone, times the number of words
JudgeMates(r) == LET n == SumSeq(r.tokens) IN
    Clause("order-of-batch-matters", r.turned = r.together /\ Close(r.lturned, r.loss, 20))
    \cup Clause("prediction-depends-on-batch", Independent(r.c) => r.alone = r.together)
    \cup Clause("loss-depends-on-batch", Independent(r.c) => LET parts == SumSeq([ k \in DOMAIN r.tokens |-> (r.lalone[k] \div 10) * r.tokens[k] ])
                                                               IN Close(parts, (r.loss \div 10) * n, n * (20 + r.loss \div 100000)))
    \cup Clause("prediction-changes", r.again = r.together)
JudgeC33(s, r) == CASE r.k = "conf" -> Keep(s, JudgeConf(r)) [] r.k = "dep" -> Keep(s, JudgeDep(r)) [] r.k = "mates" -> Keep(s, JudgeMates(r))

\* ================================================================== C34 ======
\* seen: pairs of a version and what was observed of a model in that version
\* losses: pairs of a version and the loss that the step which led to it returned
LifeSt == [life |-> LifeInit, seen |-> <<>>, losses |-> <<>>]
Alike(a, b) == /\ a.n = b.n /\ a.pred = b.pred
               /\ \A k \in DOMAIN a.proj : Close(a.proj[k], b.proj[k], 30 + Abs(a.proj[k]) \div 100000)
Apart(a, b) == a.n # b.n \/ \E k \in DOMAIN a.proj : ~Close(a.proj[k], b.proj[k], 30)
VerSeen(st, v) == { k \in DOMAIN st.seen : st.seen[k][1] = v }
JudgeOp(st, r) ==
    LET l == LifeStep(st.life, r.o)
        opened == { m \in DOMAIN l.ver : l.open[m] }
        mine == { k \in DOMAIN r.obs : r.obs[k].m \in DOMAIN l.ver }
        old(k) == VerSeen(st, l.ver[r.obs[k].m])
        fresh == { k \in mine : old(k) = {} }
        prev(v) == IF Len(v) > 1 THEN SubSeq(v, 1, Len(v) - 1) ELSE <<3 - v[1]>>
        ver == IF r.loss = <<>> THEN <<>> ELSE l.ver[r.o.m]
    IN [st |-> [life |-> l, losses |-> IF r.loss = <<>> THEN st.losses ELSE Append(st.losses, <<ver, r.loss[1]>>), seen |-> st.seen \o SetToSeq({ <<l.ver[r.obs[k].m], r.obs[k]>> : k \in fresh })],
        bad |-> Clause("operation-failed", r.exc = "")
                \cup Clause("models-observed", r.exc # "" \/ r.other \/ { r.obs[k].m : k \in DOMAIN r.obs } = opened)
                \cup Clause("same-history-other-model", \A k \in mine : \A j \in old(k) : Alike(st.seen[j][2], r.obs[k]))
                \cup Clause("two-models-with-one-history", \A j, k \in mine : l.ver[r.obs[j].m] = l.ver[r.obs[k].m] => Alike(r.obs[j], r.obs[k]))
                \cup Clause("same-history-other-loss", r.loss = <<>> \/ \A k \in DOMAIN st.losses : st.losses[k][1] = ver => Close(st.losses[k][2], r.loss[1], 60 + Abs(r.loss[1]) \div 10000))
                \cup Clause("step-or-seed-changes-nothing", \A k \in fresh : \A j \in VerSeen(st, prev(l.ver[r.obs[k].m])) : Apart(st.seen[j][2], r.obs[k]))]
\* nothing (or not everything) of a model is at the place
JudgeAbsent(r) == Clause("loaded-from-nothing", r.exc # "") \cup Clause("session-left-open", r.left = 0)
JudgeC34(st, r) == IF r.k = "absent" THEN [st |-> st, bad |-> JudgeAbsent(r)] ELSE JudgeOp(st, r)

\* ================================================================== C35 ======
SignOf(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
\* RMSProp remembers 0.9 of the squares, from 1: the first step is -lr * g / sqrt(0.9 + 0.1 g^2), another one from the
\* same place -lr * g / sqrt(0.81 + 0.19 g^2); g3 in thousandths, result in thousandths of the rate
RmsMove(g3) == (g3 * 1000) \div Sqrt(900000 + (g3 * g3) \div 10)
RmsMove2(g3) == (g3 * 1000) \div Sqrt(810000 + (g3 * g3 * 19) \div 100)
JudgeStep(r) ==
    LET cs == r.coords
        want == Min2(ClipNorm, r.norm * r.big)
    IN Clause("step-follows-rate", \A k \in DOMAIN cs : Close(2 * cs[k].h, -cs[k].g, 30))
       \cup Clause("step-is-descent", r.norm < 30 \/ IF r.distinct /\ r.norm < ClipNorm - 5 THEN Close(r.drop, r.wanted, r.wanted \div 4 + 20) ELSE r.drop >= (r.wanted \div 4) * 3 - 20)
       \cup Clause("gradient-norm-limited", r.distinct => r.norm <= ClipNorm + 5 /\ r.bignorm <= ClipNorm + 5)
       \cup Clause("clipped-to-norm", r.distinct /\ r.norm \in 30..(ClipNorm - 5) => Close(r.bignorm, want, want \div 50 + r.big))
       \cup Clause("clipped-in-direction", r.norm < 30 \/ \A k \in DOMAIN cs :
                 Close((cs[k].w \div 100) * (r.norm \div 10), (cs[k].g \div 100) * (r.bignorm \div 10), 2000 + r.bignorm * 4 + Abs((cs[k].g \div 100) * (r.bignorm \div 10)) \div 10))
       \cup Clause("adam-step", \A k \in DOMAIN cs : Abs(cs[k].g) > 300 => Close(cs[k].adam, -100000 * SignOf(cs[k].g), 1500))
       \cup Clause("rmsprop-step", \A k \in DOMAIN cs : Abs(cs[k].g) > 30000 =>
                 SignOf(cs[k].rms) = -SignOf(cs[k].g) /\ LET m == RmsMove(Abs(cs[k].g) \div 1000) IN Close(Abs(cs[k].rms) \div 100, m, m \div 20 + 6))
       \cup Clause("second-step", \A k \in DOMAIN cs :
                 /\ Close(cs[k].g2, cs[k].g, 30)
                 /\ (Abs(cs[k].g) > 300 => Close(cs[k].adam2, -100000 * SignOf(cs[k].g), 1500))
                 /\ (Abs(cs[k].g) > 30000 => SignOf(cs[k].rms2) = -SignOf(cs[k].g) /\ LET m == RmsMove2(Abs(cs[k].g) \div 1000) IN Close(Abs(cs[k].rms2) \div 100, m, m \div 20 + 6)))
       \cup Clause("dropout-in-training-only", r.same /\ (\A k \in DOMAIN r.plain : Close(r.plain[k], r.plain[1], 3))
                     /\ ((\E t \in DOMAIN r.c.tasks : r.c.tasks[t] # "lemma_combo") => \E k \in DOMAIN r.noisy : ~Close(r.noisy[k], r.plain[1], 10)))
\* how often the most frequent of the losses occurs
Modal(xs) == Max({ Cardinality({ j \in DOMAIN xs : Close(xs[j], xs[i], 20) }) : i \in DOMAIN xs })
JudgeKeep(r) == LET n == Len(r.rates[1]) IN
    Clause("hardly-anything-kept", 100 * Modal(r.rates[1]) >= 35 * n /\ 2 * Cardinality({ j \in 1..n : Close(r.rates[1][j], r.full, 20) }) < n)
    \cup Clause("nearly-everything-kept", 100 * Modal(r.rates[3]) >= 40 * n)
    \cup Clause("half-kept", 100 * Modal(r.rates[2]) <= 60 * n)
JudgeC35(s, r) == Keep(s, IF r.k = "keep" THEN JudgeKeep(r) ELSE JudgeStep(r))

\* ================================================================== C36 ======
Bound2(dim) == 3000000 \div dim                                  \* squared, in units of a thousandth squared
RowOf(r, i) == r.rows[1][i + 1]
InFile(r, i) == \E k \in DOMAIN r.file : r.file[k][1] = i
JudgeEmb(r) ==
    Clause("one-table", r.tables = 1)
    \cup (IF r.tables # 1 THEN {} ELSE
       Clause("vectors-of-the-file", r.fromfile => /\ \A k \in DOMAIN r.file : LET p == r.file[k] IN p[1] > Oov /\ \A x \in DOMAIN p[2] : Close(RowOf(r, p[1]).v0[x], p[2][x], 2))
       \cup Clause("every-vector-kept", r.fromfile => Len(r.file) = r.nfile)
       \cup Clause("padding-is-zero", r.fromfile => \A x \in DOMAIN RowOf(r, 0).v0 : RowOf(r, 0).v0[x] = 0)
       \cup Clause("random-rows-bounded", \A i \in 0..(Len(r.rows[1]) - 1) : InFile(r, i) \/ \A x \in DOMAIN RowOf(r, i).v0 : LET a == Abs(RowOf(r, i).v0[x]) \div 1000 IN a * a <= Bound2(r.dim))
       \cup Clause("frozen-embedding-trained", ~r.tuned => \A k \in DOMAIN r.rows[1] : r.rows[1][k].v0 = r.rows[1][k].v1)
       \cup Clause("trainable-embedding-fixed", r.tuned => \E k \in DOMAIN r.rows[1] : r.rows[1][k].v0 # r.rows[1][k].v1)
       \cup Clause("row-of-absent-unit-trained", \A k \in DOMAIN r.rows[1] : ~r.rows[1][k].used => r.rows[1][k].v0 = r.rows[1][k].v1))
JudgeC36(s, r) == Keep(s, JudgeEmb(r))

\* ================================================================== C37 ======
Rights(r, g) == Cardinality({ k \in DOMAIN r.want : g[k] = r.want[k] })
JudgeC37(s, r) == Keep(s, Clause("model-per-epoch", r.models = 2 /\ Len(r.got) = 2)
    \cup Clause("learns-training-data", Len(r.got) > 0 /\ 10 * Rights(r, r.got[Len(r.got)]) >= 9 * Len(r.want))
    \cup Clause("text-kept", r.kept)
    \cup Clause("saved-tagger-is-that-of-its-epoch", r.again = r.got))
=============================================================================

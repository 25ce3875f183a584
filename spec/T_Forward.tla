------------------------------ MODULE T_Forward ------------------------------
(* C38: the scores a network gives are those its configuration describes      *)
EXTENDS Forward, Trace
NoState == 0
\* the shapes of the variables a configuration needs
CellShapes(in, n) == {<<in + n, 4 * n>>, <<4 * n>>}
BiShapes(in, n, layers) == CellShapes(in, n) \cup (IF layers > 1 THEN CellShapes(2 * n, n) ELSE {})
AffineShapes(in, m) == {<<in, m>>, <<m>>}
ConvShapes(in, ks) == { <<1, ks[k][1], IF k = 1 THEN in ELSE ks[k - 1][2], ks[k][2]>> : k \in DOMAIN ks }
SubWidth0(sub) == CASE sub.agg = "cnn" -> sub.kernels[Len(sub.kernels)][2] [] sub.agg = "rnn" -> 2 * sub.cell [] OTHER -> sub.e
SubShapes(sub, rows) == {<<rows, sub.e>>} \cup (IF sub.highway THEN AffineShapes(SubWidth0(sub), SubWidth0(sub)) ELSE {})
                        \cup (CASE sub.agg = "cnn" -> ConvShapes(sub.e, sub.kernels) [] sub.agg = "rnn" -> BiShapes(sub.e, sub.cell, sub.layers) \cup AffineShapes(2 * sub.cell, 2 * sub.cell) [] OTHER -> {})
Labels(r, b) == LET s == SelectSeq(r.scores, LAMBDA x : x.b = b) IN Len(s[1].sc)
Wide(r) == r.c.word + (IF r.c.pre = <<>> THEN 0 ELSE IF r.c.pre[2] > 0 THEN r.c.pre[2] ELSE r.c.pre[1]) + SumSeq(MapSeq(SubWidth0, r.c.subs))
Given(r) == LET w == Wide(r) m == MiddleWidth(r.c) both == IF r.c.skip = "concat" THEN w + m ELSE m
            IN CASE r.c.from = "word_features" -> w [] r.c.from = Middle(r.c) -> m [] r.c.from = "bilstm_cnn" -> LastCount(r.c) [] OTHER -> both
Needed(r) ==
    (IF r.c.pre = <<>> THEN {} ELSE {<<r.rows.pre, r.c.pre[1]>>} \cup (IF r.c.pre[2] > 0 THEN AffineShapes(r.c.pre[1], r.c.pre[2]) ELSE {}))
    \cup (IF r.c.word > 0 THEN {<<r.rows.word, r.c.word>>} ELSE {})
    \cup UNION { SubShapes(r.c.subs[k], r.rows.subs[k]) : k \in DOMAIN r.c.subs }
    \cup (IF Recurrent(r.c) THEN BiShapes(Wide(r), r.c.cell, r.c.layers) ELSE {})
    \cup (CASE r.c.shared = "Dilated_CNN" -> ConvShapes(Wide(r), r.c.kernels) [] r.c.shared = "BiLSTM_CNN" -> ConvShapes(1, r.c.kernels) [] OTHER -> {})
    \cup (IF r.c.dense = 0 THEN {} ELSE AffineShapes(Given(r), r.c.dense) \cup AffineShapes(r.c.dense, Labels(r, "pos_labels")))
    \cup (IF r.c.combo = <<>> THEN {} ELSE LET cb == r.c.combo[1] top == cb.kernels[Len(cb.kernels)][2] IN
            {<<r.rows.combo, cb.e>>, <<1, 1, top, Labels(r, "output_subwords")>>} \cup AffineShapes(Given(r), cb.d) \cup ConvShapes(cb.d + cb.e, cb.kernels)
            \cup (IF cb.highway THEN AffineShapes(cb.e, cb.e) ELSE {}))
Near(x, y) == Abs0(x - y) <= U \div 20 + Abs0(y) \div 200
Expected(r, l) ==
    LET vs == TLCEval([ s \in DOMAIN r.lens |-> SharedVectors(r, s, l) ])
    IN [ q \in DOMAIN r.scores |-> LET x == r.scores[q] IN
           FromFirst(IF x.b = "pos_labels" THEN DenseScores(r, vs[x.s][x.j], Len(x.sc)) ELSE ComboScores(r, x.s, x.j, vs[x.s][x.j], Len(x.sc), l)[x.k]) ]
Same(r, l) == LET e == TLCEval(Expected(r, l)) IN \A q \in DOMAIN r.scores : \A i \in DOMAIN e[q] : Near(r.scores[q].sc[i], e[q][i])
Plain(r) == [perm |-> [ k \in 1..(Len(r.c.subs) + (IF r.c.word > 0 THEN 1 ELSE 0) + (IF r.c.pre # <<>> THEN 1 ELSE 0)) |-> k ], skip |-> TRUE, fb |-> TRUE, ce |-> TRUE]
Computed(r) == \/ Same(r, Plain(r))
               \/ LET a == Layouts(r) IN \E p \in a.perm, s \in a.skip, f \in a.fb, e \in a.ce : Same(r, [perm |-> p, skip |-> s, fb |-> f, ce |-> e])
JudgeC38(s, r) == [st |-> s, bad |->
    IF \E sh \in Needed(r) : ~Has(r.w, sh) THEN {"layer-of-other-size"}
    ELSE Clause("computed-as-configured", Computed(r))
         \cup Clause("best-label-predicted", \A q \in DOMAIN r.scores : LET x == r.scores[q] IN \A i \in DOMAIN x.sc : x.sc[i] <= x.sc[x.pred] + U \div 100)]
=============================================================================

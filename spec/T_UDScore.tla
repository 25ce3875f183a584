------------------------------ MODULE T_UDScore ------------------------------
EXTENDS UDScore, ConlluIO, Trace
NoState == 0
Keep(s, b) == [st |-> s, bad |-> b]
\* the observed scores o (metric -> ratios) against the declared ones
ScoresBad(want, o, names) ==
    UNION { IF m \notin DOMAIN o THEN {"missing-" \o m} ELSE Clause("score-" \o m, ScoreAgrees(want[m], o[m])) : m \in names }

\* the printed table: percentages with two decimals
PrintedBad(want, rows, names) ==
    Clause("printed-metrics", { rows[k][1] : k \in DOMAIN rows } = names)
    \cup UNION { LET m == rows[k][1]  v == rows[k][2] IN
        IF m \notin names THEN {} ELSE
        Clause("printed-" \o m, /\ NearBy(v[1], want[m].correct, want[m].sys, 10000) /\ NearBy(v[2], want[m].correct, want[m].gold, 10000)
                                /\ NearBy(v[3], 2 * want[m].correct, want[m].gold + want[m].sys, 10000)
                                /\ IF want[m].aligned = None THEN v[4] = -9999 ELSE NearBy(v[4], want[m].correct, Get(want[m].aligned), 10000)) : k \in DOMAIN rows }

\* C15
JudgeC15(s, r) == Keep(s,
    IF ~Comparable(r.gold, r.sys) THEN Clause("different-texts-are-refused", r.refused)
    ELSE IF ~r.ok THEN {"comparable-files-refused"}
    ELSE IF r.cli THEN PrintedBad(Evaluate(r.gold, r.sys, r.weights), r.printed, IF r.weighted THEN Metrics \cup {"WeightedLAS"} ELSE Metrics)
    ELSE ScoresBad(Evaluate(r.gold, r.sys, r.weights), r.scores, IF r.weighted THEN Metrics \cup {"WeightedLAS"} ELSE Metrics))

\* C16
JudgeC16(s, r) == Keep(s,
    LET want == Load(r.lines) IN
    Clause("valid-file-refused", ~(~r.ok /\ ~want.err))
    \cup Clause("invalid-file-loaded", ~(r.ok /\ want.err))
    \cup Clause("refused-with-another-error", r.ok \/ r.refused)
    \cup (IF ~r.ok \/ want.err THEN {}
          ELSE Clause("words-tokens-sentences", r.nsent = want.nsent /\ r.nwords = want.nwords /\ r.ntok = want.ntok)))

\* C17: the tagger tester.  r.gold: gold documents; r.seen: what the tagger was given; r.pred: what it returned;
\* lower-casing is supplied by the driver: r.low maps written forms (code points) to lower-cased strings
LowOf(low, form) == low[CHOOSE k \in DOMAIN low : low[k][1] = form][2]
BaseRel(rels, v) == IF \E k \in DOMAIN rels : rels[k][1] = v THEN rels[CHOOSE k \in DOMAIN rels : rels[k][1] = v][2] ELSE v
NumOf(v) == CHOOSE n \in 0..200 : ToString(n) = v
UDWord(l, low, rels) == [lf |-> LowOf(low, l.form), lemma |-> l.lemma, upos |-> l.upos, xpos |-> l.xpos, feats |-> l.feats, rel |-> BaseRel(rels, l.deprel), head |-> NumOf(l.head)]
\* written sentence -> scored sentence
UDSentence(ls, low, rels) ==
    FoldLeft(LAMBDA acc, l :
        IF l.head = "_" THEN [items |-> Append(acc.items, [form |-> NoSp(l.form), mw |-> TRUE, words |-> <<>>]),
                              left |-> CHOOSE n \in 1..60 : \E a \in 1..200 : l.id = ToString(a) \o "-" \o ToString(a + n - 1)]
        ELSE IF acc.left > 0 THEN [items |-> [acc.items EXCEPT ![Len(acc.items)].words = Append(@, UDWord(l, low, rels))], left |-> acc.left - 1]
        ELSE [items |-> Append(acc.items, [form |-> NoSp(l.form), mw |-> FALSE, words |-> <<UDWord(l, low, rels)>>]), left |-> 0],
        [items |-> <<>>, left |-> 0], ls).items
UDBank(docs, r) == Concat(MapSeq(LAMBDA d : MapSeq(LAMBDA ls : UDSentence(ls, r.low, r.rels), WriteDoc(d, AllCols, Range0(r.spaces), r.order)), docs))
Stripped(t) == [t EXCEPT !.pos = None, !.lemma = None, !.hd = None, !.hs = None, !.deprel = None, !.ex = <<>>]
Blind(t) == t.pos = None /\ t.lemma = None /\ t.hd = None /\ t.hs = None /\ t.deprel = None
JudgeC17(s, r) == Keep(s,
    IF ~r.ok THEN {"testing-failed"} ELSE
    LET gold == Read(r.lines, r.limit, AllCols).docs
        blank == [ k \in DOMAIN gold |-> [gold[k] EXCEPT !.toks = MapSeq(Stripped, @)] ]
    IN
    Clause("every-document-tagged-once", Len(r.seen) = Len(gold))
    \cup Clause("no-gold-annotation-visible", \A k \in DOMAIN r.seen : \A i \in DOMAIN r.seen[k].toks : Blind(r.seen[k].toks[i]))
    \cup Clause("text-and-segmentation-given", r.seen = blank)
    \cup ScoresBad(Evaluate(UDBank(gold, r), UDBank(r.pred, r), <<>>), r.scores, Metrics)
    \cup Clause("saved-predictions", ~r.saves \/ (r.saved.shape /\ r.saved.out =
            Concat(MapSeq(LAMBDA d : WriteDoc(d, AllCols, Range0(r.spaces), r.order), r.pred)))))
=============================================================================

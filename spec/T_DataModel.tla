----------------------------- MODULE T_DataModel -----------------------------
(* Trace specifications binding DataModel to recorded behaviour of the code. *)
EXTENDS DataModel, Trace

NoState == 0
Keep(s, bad) == [st |-> s, bad |-> bad]

\* ------------------------------------------------------------------- C01 ---
\* r.k = "tok" / "sent": constructor arguments and whether it was accepted
\* r.k = "build": tokens, sentences and the outcomes for several orders
View(d) == [toks |-> MapSeq(LAMBDA t : <<t.s, t.e, t.sub, t.rep>>, d.toks), sents |-> d.sents]
C01Outcome(r, want, o) ==
    IF want.ok THEN
        IF o.ok THEN Clause("tokens-in-text-order-once", o.toks = View(want).toks)
                     \cup Clause("sentences-partition-tokens", o.sents = View(want).sents)
        ELSE {"well-formed-document-rejected"}
    ELSE IF o.ok THEN {"malformed-document-accepted"}
         ELSE Clause("rejected-with-ValueError", o.exc = "ValueError")
JudgeC01(s, r) == Keep(s,
    CASE r.k = "tok" -> Clause("token-constructor", r.ok = TokenOk(r.t))
      [] r.k = "sent" -> Clause("sentence-constructor", r.ok = SentenceOk(r.x))
      [] r.k = "build" -> LET want == Build(<<>>, r.toks, r.sents) IN
                          UNION { C01Outcome(r, want, r.outs[i]) : i \in DOMAIN r.outs })

\* ------------------------------------------------------------------- C02 ---
HView(t) == <<t.hd, t.hs>>
JudgeC02(s, r) == Keep(s,
    LET want == Build(<<>>, r.toks, r.sents) IN
    IF ~want.ok THEN Clause("contradicting-heads-accepted", ~r.o.ok)
                     \cup (IF r.o.ok THEN {} ELSE Clause("rejected-with-ValueError", r.o.exc = "ValueError"))
    ELSE IF ~r.o.ok THEN {"coherent-heads-rejected"}
    ELSE Clause("heads-filled", MapSeq(HView, r.o.toks) = MapSeq(HView, want.toks))
         \cup Clause("has-head", r.o.has = MapSeq(HasHead, want.toks))
         \cup Clause("is-root", r.o.root = MapSeq(LAMBDA t : HasHead(t) /\ IsRoot(t), want.toks))
         \cup Clause("document-view", r.o.dview = MapSeq(LAMBDA t : t.hd, want.toks))
         \cup Clause("sentence-view", r.o.sview = MapSeq(LAMBDA t : t.hs, want.toks))
         \cup Clause("deprel-kept", r.o.deprel = MapSeq(LAMBDA t : t.deprel, want.toks)))

\* ------------------------------------------------------------------- C03 ---
\* r.heads: sentence-relative heads; r.runs: <<split, outcome>> pairs
SynTok(i, h) == [s |-> i, e |-> i + 1, sub |-> 0, rep |-> None, hd |-> None, hs |-> h,
                 pos |-> None, lemma |-> None, deprel |-> None, ex |-> <<>>]
JudgeC03(s, r) == Keep(s,
    LET ts == [ i \in DOMAIN r.heads |-> SynTok(i, r.heads[i]) ]
        Bad(x) == LET want == BuildValidated(<<>>, ts, <<x.sents>>) IN
                  CASE want.ok /\ ~x.ok -> {"valid-syntax-rejected"}
                    [] ~want.ok /\ x.ok -> {"invalid-syntax-accepted"}
                    [] ~want.ok /\ ~x.ok -> Clause("rejected-with-ValueError", x.exc = "ValueError")
                    [] OTHER -> {}
    IN UNION { Bad(r.runs[i]) : i \in DOMAIN r.runs })

\* ------------------------------------------------------------------- C06 ---
\* r.doc: the document; r.spaces: code points of the text that are white space;
\* r.words: one entry per container (0 = document, j = j-th sentence) and index
TKey(t) == <<t.s, t.e, t.sub>>
Container(d, c) == IF c = 0 THEN d.toks ELSE SentToks(d, c)
HeadIn(t, c) == IF c = 0 THEN t.hd ELSE t.hs
WordBad(d, sp, x) ==
    LET w == Container(d, x.c)
        p == NormIndex(x.i, Len(w))
    IN IF p = None THEN Clause("index-out-of-range", ~x.ok /\ x.exc = "IndexError")
       ELSE IF ~x.ok THEN {"index-in-range"}
       ELSE LET i == Get(p)  t == At(w, i) IN
            Clause("token-at-index", x.key = TKey(t))
            \cup Clause("is-first", x.first = (i = 0))
            \cup Clause("is-last", x.last = (i = Len(w) - 1))
            \cup Clause("next", x.next = IF i = Len(w) - 1 THEN None ELSE <<TKey(At(w, i + 1))>>)
            \cup Clause("previous", x.prev = IF i = 0 THEN None ELSE <<TKey(At(w, i - 1))>>)
            \cup Clause("text", x.text = TokText(d, t))
            \cup Clause("document-text", x.dtext = DocText(d, t))
            \cup Clause("space-after", x.space = SpaceAfter(d, t, sp))
            \cup Clause("head-index", x.hidx = HeadIn(t, x.c))
            \cup Clause("head", x.head = IF ~HasHead(t) \/ IsRoot(t) THEN None
                                          ELSE <<TKey(At(w, Get(HeadIn(t, x.c))))>>)
SentBad(d, x) ==
    LET p == NormIndex(x.i, Len(d.sents)) IN
    IF p = None THEN Clause("sentence-index-out-of-range", ~x.ok /\ x.exc = "IndexError")
    ELSE IF ~x.ok THEN {"sentence-index-in-range"}
    ELSE LET j == Get(p) + 1
             K(m) == MapSeq(TKey, SentToks(d, m))
         IN Clause("sentence-tokens", x.toks = K(j))
            \cup Clause("sentence-text", x.text = SentText(d, j))
            \cup Clause("sentence-first", x.first = (j = 1))
            \cup Clause("sentence-last", x.last = (j = Len(d.sents)))
            \cup Clause("sentence-next", x.next = IF j = Len(d.sents) THEN None ELSE <<K(j + 1)>>)
            \cup Clause("sentence-previous", x.prev = IF j = 1 THEN None ELSE <<K(j - 1)>>)
JudgeC06(s, r) == Keep(s,
    LET d == Build(r.doc.text, r.doc.toks, <<r.doc.sents>>)  sp == Range0(r.spaces) IN
    UNION { WordBad(d, sp, r.words[i]) : i \in DOMAIN r.words }
    \cup UNION { SentBad(d, r.ss[i]) : i \in DOMAIN r.ss }
    \cup Clause("counts", r.counts = <<Len(d.toks), Len(d.sents)>>)
    \cup Clause("sentence-word-counts", r.scounts = MapSeq(LAMBDA x : x[2] - x[1], d.sents))
    \cup Clause("iteration", r.iter = MapSeq(TKey, d.toks))
    \cup Clause("sentence-iteration", r.siter = [ j \in DOMAIN d.sents |-> MapSeq(TKey, SentToks(d, j)) ]))

\* ------------------------------------------------------------------- C07 ---
JudgeC07(s, r) == Keep(s,
    LET want == ReAnnotate(r.doc, r.toks) IN
    Clause("original-unchanged", r.after = r.doc)
    \cup IF ~want.ok THEN IF r.o.ok THEN {"foreign-segmentation-accepted"}
                            ELSE Clause("rejected-with-ValueError", r.o.exc = "ValueError")
          ELSE IF ~r.o.ok THEN {"re-annotation-rejected"}
          ELSE Clause("text-kept", r.o.doc.text = r.doc.text)
               \cup Clause("sentences-kept", r.o.doc.sents = r.doc.sents)
               \cup Clause("tokens-as-given", r.o.doc.toks = want.toks))

\* ------------------------------------------------------------------- C08 ---
\* r.vals: values; r.eq / r.ne / r.lt / ...: matrices of observed comparisons
SameVal(kind, a, b) == CASE kind = "tok" -> TokEq(a, b) [] kind = "doc" -> DocEq(a, b) [] OTHER -> a = b
JudgeC08(s, r) == Keep(s,
    LET N == DOMAIN r.vals
        eqb == { p \in N \X N : r.eq[p[1]][p[2]] # SameVal(r.kind, r.vals[p[1]], r.vals[p[2]]) }
        neb == { p \in N \X N : r.ne[p[1]][p[2]] = r.eq[p[1]][p[2]] }
    IN  Clause("equal-iff-same-content", eqb = {})
        \cup Clause("different-iff-not-equal", neb = {})
        \cup Clause("other-types-are-different", \A i \in DOMAIN r.foreign : r.foreign[i] = FALSE)
        \cup (IF r.hash = <<>> THEN {} ELSE
               Clause("equal-values-hash-equally", \A i, j \in N : r.eq[i][j] => r.hash[i] = r.hash[j]))
        \cup (IF r.lt = <<>> THEN {} ELSE
               Clause("order-trichotomy", \A i, j \in N :
                    IF r.eq[i][j] THEN ~r.lt[i][j] /\ ~r.lt[j][i] ELSE r.lt[i][j] # r.lt[j][i])
               \cup Clause("order-transitive", \A i, j, k \in N : r.lt[i][j] /\ r.lt[j][k] => r.lt[i][k])
               \cup Clause("order-operators-agree", \A i, j \in N :
                    /\ r.le[i][j] = (r.lt[i][j] \/ r.eq[i][j])
                    /\ r.gt[i][j] = r.lt[j][i]
                    /\ r.ge[i][j] = (r.lt[j][i] \/ r.eq[i][j]))))
=============================================================================

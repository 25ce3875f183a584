----------------------------- MODULE T_External -----------------------------
(* C40: the wrapper of the external parser on a stand-in for the package *)
EXTENDS External, T_Pipeline
\* processors that are in their context
XInit == [on |-> {}]
Same(s, b) == [st |-> s, bad |-> b]
UTAGS == <<"_", "NOUN", "VERB">>
XTAGS == <<"_", "x", "y">>
FEATS == << <<>>, << <<"A", "p">> >>, << <<"A", "p">>, <<"B", "q">> >> >>
LEMMAS == << <<>>, <<108>>, <<233, 32, 120>> >>
DEPRELS == <<"_", "nsubj", "root">>
Str(x) == IF x = "_" THEN None ELSE <<x>>
IndexOf(s, x) == CHOOSE k \in DOMAIN s : s[k] = x
\* the number the network gives the j-th word for one of its outputs
Num(r, sums, j) == sums[j] + 5 * j + (IF j > 1 THEN 3 * sums[j - 1] ELSE 0) + r.w
Label(r, sums, j, f, size) == ((Num(r, sums, j) + IndexOf(r.outs, f)) % size) + 1
Has(r, f) == f \in Range0(r.outs)
Knows(r, f) == f \in Range0(r.outs) \cup Range0(r.ins)
Tag(t, k) == IF t.pos = None THEN (IF k = "f" THEN <<>> ELSE None) ELSE CASE k = "u" -> t.pos[1].u [] k = "x" -> t.pos[1].x [] OTHER -> t.pos[1].f
TagOf(o, k) == IF o.pos = None THEN (IF k = "f" THEN <<>> ELSE None) ELSE CASE k = "u" -> o.pos[1].u [] k = "x" -> o.pos[1].x [] OTHER -> o.pos[1].f
Row(t, j, g) == /\ g.n = 10 /\ g.id = ToString(j) /\ g.form = t.form /\ g.lemma = t.lemma
                /\ g.u = Tag(t, "u") /\ g.x = Tag(t, "x") /\ SameF(g.f, Tag(t, "f"))
                /\ g.head = (IF t.hs = None THEN None ELSE <<ToString(t.hs[1] + 1)>>)
                /\ (t.hs # None => g.deprel = t.deprel)
\* the annotations of the j-th word t of a sentence after the call
Morphology(r, sums, j, t, o) ==
    /\ (Knows(r, "upos") => TagOf(o, "u") = (IF Has(r, "upos") THEN Str(UTAGS[Label(r, sums, j, "upos", 3)]) ELSE Tag(t, "u")))
    /\ (Knows(r, "xpos") => TagOf(o, "x") = (IF Has(r, "xpos") THEN Str(XTAGS[Label(r, sums, j, "xpos", 3)]) ELSE Tag(t, "x")))
    /\ (Knows(r, "ufeats") => SameF(TagOf(o, "f"), IF Has(r, "ufeats") THEN FEATS[Label(r, sums, j, "ufeats", 3)] ELSE Tag(t, "f")))
    /\ (Knows(r, "lemma") => o.lemma = (IF Has(r, "lemma") THEN (LET l == LEMMAS[Label(r, sums, j, "lemma", 3)] IN IF l = <<>> THEN None ELSE <<l>>) ELSE t.lemma))
Syntax(r, sums, j, t, o) ==
    /\ (Has(r, "dephead") => o.hs = <<Label(r, sums, j, "dephead", Len(sums) + 1) - 2>>)
    /\ (Has(r, "deprel") => o.deprel = Str(DEPRELS[Label(r, sums, j, "deprel", 3)]))
    /\ (~Has(r, "dephead") /\ Knows(r, "dephead") => o.hs = t.hs)
    /\ (~Has(r, "deprel") /\ Knows(r, "deprel") /\ t.hs # None => o.deprel = t.deprel)
Value(r, sums, j, x) == LET b == Num(r, sums, j) + x[3] IN
    CASE x[2] = "one" -> <<b>> [] x[2] = "recur_layer" -> <<b + 100, b + 200>> [] OTHER -> <<b + 300>>
Extras(r, sums, j, xs) == xs = MapSeq(LAMBDA x : <<x[1], Value(r, sums, j, x)>>, r.extra)
Plain(d) == [d EXCEPT !.toks = MapSeq(LAMBDA t : [s |-> t.s, e |-> t.e, sub |-> t.sub, rep |-> t.rep, ex |-> t.ex], @)]
Kept(a, b) == a.text = b.text /\ a.sents = b.sents /\ a.toks = b.toks /\ MapSeq(LAMBDA t : t.form, a.an) = MapSeq(LAMBDA t : t.form, b.an)
SentsOf(ds) == Concat(MapSeq(LAMBDA d : MapSeq(LAMBDA b : Slice(d.an, b[1], b[2]), d.sents), ds))
ExtrasOf(ds) == Concat(MapSeq(LAMBDA d : MapSeq(LAMBDA b : Slice(d.xs, b[1], b[2]), d.sents), ds))
CallBad(s, r) ==
    IF r.p \notin s.on THEN Clause("refused-outside-of-its-context", r.exc = "RuntimeError" /\ r.out = <<>>)
    ELSE IF r.fail >= 0 THEN Clause("failure-passed-on", r.exc = "OverflowError" /\ r.out = <<>>)
    ELSE LET ins == SentsOf(r.docs)
             kept == Len(r.out) = Len(r.docs) /\ \A d \in DOMAIN r.out : Kept(r.out[d], r.docs[d])
         IN Clause("processing-failed", r.exc = "")
            \cup (IF r.exc # "" THEN {} ELSE
                  Clause("text-and-segmentation-kept", kept)
                  \cup Clause("network-is-given-the-sentences", Len(r.given) = Len(ins) /\ \A k \in DOMAIN ins : Len(r.given[k]) = Len(ins[k])
                                /\ \A j \in DOMAIN ins[k] : Row(ins[k][j], j, r.given[k][j]))
                  \cup (IF ~kept THEN {} ELSE
                        LET outs == SentsOf(r.out) xs == ExtrasOf(r.out)
                            sums == MapSeq(LAMBDA w : MapSeq(LAMBDA t : SumSeq(t.form) % 1009, w), ins)
                        IN Clause("every-word-its-own-prediction", \A k \in DOMAIN ins : \A j \in DOMAIN ins[k] : Morphology(r, sums[k], j, ins[k][j], outs[k][j]))
                           \cup Clause("every-word-its-own-syntax", \A k \in DOMAIN ins : \A j \in DOMAIN ins[k] : Syntax(r, sums[k], j, ins[k][j], outs[k][j]))
                           \cup Clause("every-word-its-own-extras", \A k \in DOMAIN ins : \A j \in DOMAIN ins[k] : Extras(r, sums[k], j, xs[k][j]))))
MakeBad(r) ==
    CASE r.bad = "path" -> Clause("unknown-tensor-refused", r.exc = "ValueError")
      [] r.bad = "class" -> Clause("other-network-refused", r.exc \in {"ValueError", "KeyError"})
      [] r.bad = "file" -> Clause("missing-model-refused", r.exc # "")
      [] OTHER -> Clause("model-not-opened", r.exc = "")
                  \cup Clause("factorization-passed-on", r.told = <<IF Has(r, "deprel") THEN (IF r.fact THEN 1 ELSE 0) ELSE -1, IF Has(r, "semrel") THEN (IF r.fact THEN 1 ELSE 0) ELSE -1>>)
JudgeC40(s, r) ==
    CASE r.k = "make" -> Same(s, MakeBad(r))
      [] r.k = "enter" /\ r.lost -> Same(s, Clause("missing-model-refused", r.exc # "") \cup Clause("session-closed", r.open = Cardinality(s.on)))
      [] r.k = "enter" -> LET t == [on |-> s.on \cup {r.p}] IN Same(t, Clause("entering", r.exc = "" /\ r.same) \cup Clause("session-open", r.open = Cardinality(t.on)))
      [] r.k = "leave" -> LET t == [on |-> s.on \ {r.p}] IN Same(t, Clause("leaving", r.exc = "" /\ r.same) \cup Clause("session-closed", r.open = Cardinality(t.on)))
      [] OTHER -> Same(s, CallBad(s, r))
=============================================================================

----------------------------- MODULE T_ConlluIO -----------------------------
EXTENDS ConlluIO, Trace
NoState == 0
Keep(s, b) == [st |-> s, bad |-> b]

DocBad(want, got) ==
    Clause("document-text", got.text = want.text)
    \cup Clause("sentences", got.sents = want.sents)
    \cup (IF Len(got.toks) # Len(want.toks) THEN {"word-count"}
          ELSE LET D == DOMAIN want.toks IN
               Clause("spans", \A i \in D : TKeyOf(got.toks[i]) = TKeyOf(want.toks[i]))
               \cup Clause("multiword-text", \A i \in D : got.toks[i].rep = want.toks[i].rep)
               \cup Clause("lemma", \A i \in D : got.toks[i].lemma = want.toks[i].lemma)
               \cup Clause("part-of-speech", \A i \in D : got.toks[i].pos = want.toks[i].pos)
               \cup Clause("heads", \A i \in D : got.toks[i].hd = want.toks[i].hd /\ got.toks[i].hs = want.toks[i].hs)
               \cup Clause("relations", \A i \in D : got.toks[i].deprel = want.toks[i].deprel))
\* C09 (default columns, generous limit), C10 (limits and columns), C11 (malformed files)
JudgeRead(s, r) == Keep(s,
    LET want == Read(r.lines, r.limit, Range0(r.cols)) IN
    Clause("well-formed-file-rejected", ~(r.err /\ ~want.err))
    \cup Clause("malformed-file-accepted", ~(~r.err /\ want.err))
    \cup (IF r.err # want.err THEN {}
          ELSE IF Len(r.docs) # Len(want.docs) THEN {"number-of-documents"}
          ELSE UNION { DocBad(want.docs[k], r.docs[k]) : k \in DOMAIN r.docs }))

\* C12: r.doc, r.cols, r.spaces, r.order; r.out: written sentences as parsed columns
LineBad(want, got) ==
    UNION { Clause("column-" \o f, got[f] = want[f]) :
            f \in {"id", "form", "lemma", "upos", "xpos", "feats", "head", "deprel", "deps", "misc"} }
JudgeC12(s, r) == Keep(s,
    IF ~r.ok THEN {"writer-failed"} ELSE
    LET want == Concat(MapSeq(LAMBDA d : WriteDoc(d, Range0(r.cols), Range0(r.spaces), r.order), r.given)) IN
    Clause("ten-columns-and-blank-line-after-each-sentence", r.shape)
    \cup (IF ~r.shape THEN {}
          ELSE IF Len(r.out) # Len(want) THEN {"number-of-sentences"}
          ELSE UNION { IF Len(r.out[j]) # Len(want[j]) THEN {"number-of-lines"}
                       ELSE UNION { LineBad(want[j][i], r.out[j][i]) : i \in DOMAIN want[j] } : j \in DOMAIN want }))

\* C13: the file r.lines read, written and read back (r.again); r.stable: writing again gives the same text
JudgeC13(s, r) == Keep(s,
    LET want == Read(r.lines, r.limit, Range0(r.cols)) IN
    IF want.err THEN {}                                  \* not a well-formed file: C11
    ELSE IF r.err THEN {"round-trip-failed"} ELSE
    Clause("second-writing-identical", r.stable)
    \cup (IF Len(want.docs) # Len(r.again) THEN {"number-of-documents"}
          ELSE UNION { Clause("document-changed-by-round-trip", SameAfterRoundTrip(want.docs[k], r.again[k])) : k \in DOMAIN want.docs }))
=============================================================================

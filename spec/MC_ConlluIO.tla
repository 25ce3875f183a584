---------------------------- MODULE MC_ConlluIO ----------------------------
(* A file arrives line by line; the reader consumes it.  Invariants compare  *)
(* the reader's state machine with the declarative block structure, and the  *)
(* writer with the reader (round trip), for every file within the bounds.    *)
EXTENDS ConlluIO, Json, IOUtils
CONSTANTS MaxLines, Heads, Mode
VARIABLES lines, r1, r2
vars == <<lines, r1, r2>>      \* r1: limit 1, r2: limit 2

W(form, sp, h) == [t |-> "word", form |-> form, sp |-> sp, lemma |-> <<"l">>, upos |-> <<"U">>, xpos |-> None,
                   feats |-> <<>>, head |-> h, deprel |-> IF h = None THEN None ELSE <<"dep">>]
Alphabet == { [t |-> "blank"], [t |-> "range", n |-> 2, form |-> <<109>>, sp |-> FALSE] }
            \cup { W(<<97>>, sp, h) : sp \in BOOLEAN, h \in IF Heads THEN {None, <<0>>, <<1>>, <<2>>} ELSE {None} }
            \cup IF Heads THEN {} ELSE { [t |-> "comment"], [t |-> "empty"], [t |-> "range", n |-> 1, form |-> <<98>>, sp |-> TRUE], [t |-> "bad"] }
\* a nested range is not CoNLL-U and its reading is unspecified
Specified(st, ln) == ~(ln.t = "range" /\ st.left > 0)
Init == lines = <<>> /\ r1 = RInit /\ r2 = RInit
Next == /\ Len(lines) < MaxLines
        /\ \E ln \in Alphabet :
             /\ Specified(r2, ln) /\ (~r1.err => Specified(r1, ln))
             /\ ~r1.err \/ ~r2.err
             /\ lines' = Append(lines, ln)
             /\ r1' = Step(r1, ln, 1, AllCols) /\ r2' = Step(r2, ln, 2, AllCols)
Spec == Init /\ [][Next]_vars

F1 == Finish(r1)
F2 == Finish(r2)
Sents(docs) == Concat([ k \in DOMAIN docs |-> [ j \in DOMAIN docs[k].sents |->
                  MapSeq(LAMBDA t : <<TokText(docs[k], t), t.lemma, t.pos, t.hs, t.deprel, t.rep>>, SentToks(docs[k], j)) ] ])
WellFormed == /\ Solid(Rest(lines)) = <<>>
              /\ \A k \in DOMAIN Blocks(lines) : BlockOk(Blocks(lines)[k])
HeadShape(b) == LET w == WordsOf(b)
                    ts == [ i \in DOMAIN w |-> [hd |-> None, hs |-> IF w[i].head = None THEN None ELSE <<Get(w[i].head) - 1>>] ]
                IN NoSyntax(ts) \/ IsTree(ts)
SyntaxFine == \A k \in DOMAIN Blocks(lines) : HeadShape(Blocks(lines)[k])
ReaderRejectsExactlyMalformed == ~F1.err <=> (WellFormed /\ SyntaxFine)
LimitDoesNotMatter == /\ F1.err = F2.err
                      /\ ~F1.err => Sents(F1.docs) = Sents(F2.docs)
ChunkSizes == \A k \in DOMAIN F2.docs : /\ Len(F2.docs[k].sents) \in 1..2
                                        /\ (k < Len(F2.docs) => Len(F2.docs[k].sents) = 2)
Faithful == ~F1.err =>
    /\ Len(F1.docs) = Len(Blocks(lines))
    /\ \A k \in DOMAIN F1.docs : LET b == Blocks(lines)[k]  d == F1.docs[k] IN
         /\ d.text = SurfaceText(b)
         /\ MapSeq(LAMBDA t : TokText(d, t), d.toks) = MapSeq(LAMBDA ln : ln.form, WordsOf(b))
         /\ MapSeq(LAMBDA t : t.lemma, d.toks) = MapSeq(LAMBDA ln : ln.lemma, WordsOf(b))
\* the written form, read again
Relines(d) == Concat([ j \in DOMAIN d.sents |->
    MapSeq(LAMBDA l : IF l.head = "_" THEN [t |-> "range", n |-> CHOOSE n \in 1..9 : \E a \in 1..9 : l.id = ToString(a) \o "-" \o ToString(a + n - 1),
                                            form |-> l.form, sp |-> l.misc = "_"]
                      ELSE [t |-> "word", form |-> l.form, sp |-> l.misc = "_", lemma |-> AsOpt(l.lemma), upos |-> AsOpt(l.upos), xpos |-> AsOpt(l.xpos),
                            feats |-> <<>>, head |-> <<CHOOSE n \in 0..9 : l.head = ToString(n)>>, deprel |-> AsOpt(l.deprel)],
           WriteSentence(d, j, AllCols, {32}, <<>>)) \o << [t |-> "blank"] >> ])
RoundTrip == ~F2.err => \A k \in DOMAIN F2.docs :
    LET q == Read(Relines(F2.docs[k]), 2, AllCols) IN
    ~q.err /\ Len(q.docs) = 1 /\ SameAfterRoundTrip(F2.docs[k], q.docs[1])
\* replay: every complete file within the bounds
Collect == IF Len(lines) > 0 /\ (Last(lines).t = "blank" \/ F1.err \/ Len(lines) = MaxLines) THEN TLCSet(8, Append(TLCGet(8), lines)) ELSE TRUE
CInit == Init /\ TLCSet(8, <<>>)
CSpec == CInit /\ [][Next]_vars
Write == JsonSerialize(IOEnv.OUT, TLCGet(8))
=============================================================================

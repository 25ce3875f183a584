------------------------------ MODULE ConlluIO ------------------------------
(* CoNLL-U reader and writer.                                                *)
(* The reader is a line-driven state machine (Step, Finish); the writer maps *)
(* a document to lines.  A line is one of                                    *)
(*   [t |-> "comment"], [t |-> "empty"] (empty node), [t |-> "blank"],       *)
(*   [t |-> "bad"]      (a line that is not CoNLL-U),                        *)
(*   [t |-> "range", n, form, sp]        (multiword token over n words),     *)
(*   [t |-> "word", form, sp, lemma, upos, xpos, feats, head, deprel].       *)
(* form is code points; sp says that a space follows; the other columns are  *)
(* optional values, <<>> standing for "_".                                   *)
EXTENDS DataModel

AllCols == {"LEMMA", "UPOS", "XPOS", "FEATS", "HEAD", "DEPREL"}
\* asking for relations implies heads
Cols(c) == IF "DEPREL" \in c THEN c \cup {"HEAD"} ELSE c
Sel(c, name, v) == IF name \in c THEN v ELSE None

\* ------------------------------------------------------------------ reader --
RInit == [left |-> 0, sub |-> 0, span |-> <<0, 0>>, text |-> <<>>, toks |-> <<>>, sents |-> <<>>, docs |-> <<>>, err |-> FALSE]
Fresh(st) == [RInit EXCEPT !.docs = st.docs]

WordPos(ln, c) ==
    IF {"UPOS", "XPOS", "FEATS"} \cap c = {} THEN None
    ELSE << [u |-> Sel(c, "UPOS", ln.upos), x |-> Sel(c, "XPOS", ln.xpos), f |-> Sel(c, "FEATS", ln.feats)] >>
WordHead(ln, c) == LET h == Sel(c, "HEAD", ln.head) IN IF h = None THEN None ELSE <<Get(h) - 1>>
WordTok(ln, c, s, e, sub, rep) ==
    [s |-> s, e |-> e, sub |-> sub, rep |-> rep, hd |-> None, hs |-> WordHead(ln, c), pos |-> WordPos(ln, c),
     lemma |-> Sel(c, "LEMMA", ln.lemma), deprel |-> Sel(c, "DEPREL", ln.deprel), ex |-> <<>>]
AddText(st, ln) == st.text \o ln.form \o (IF ln.sp THEN <<32>> ELSE <<>>)

Emit(st) == LET d == BuildValidated(st.text, st.toks, <<st.sents>>) IN
            IF st.toks = <<>> \/ ~d.ok THEN [st EXCEPT !.err = TRUE]
            ELSE [Fresh(st) EXCEPT !.docs = Append(@, [text |-> d.text, toks |-> d.toks, sents |-> d.sents])]
SentStart(st) == IF st.sents = <<>> THEN 0 ELSE Last(st.sents)[2]
EndSentence(st, limit) ==
    IF st.left > 0 \/ SentStart(st) = Len(st.toks) THEN [st EXCEPT !.err = TRUE]
    ELSE LET nx == [st EXCEPT !.sents = Append(@, <<SentStart(st), Len(st.toks)>>)] IN
         IF Len(nx.sents) >= limit THEN Emit(nx) ELSE nx
AddWord(st, ln, c) ==
    IF st.left > 0 THEN
        [st EXCEPT !.toks = Append(@, WordTok(ln, c, st.span[1], st.span[2], st.sub, <<ln.form>>)),
                   !.sub = @ + 1, !.left = @ - 1]
    ELSE [st EXCEPT !.toks = Append(@, WordTok(ln, c, Len(st.text), Len(st.text) + Len(ln.form), 0, None)),
                    !.text = AddText(st, ln)]
\* a range that ends before it begins is never finished
AddRange(st, ln) ==
    IF ln.n < 1 THEN [st EXCEPT !.err = TRUE] ELSE
    [st EXCEPT !.left = ln.n, !.sub = 0, !.span = <<Len(st.text), Len(st.text) + Len(ln.form)>>, !.text = AddText(st, ln)]

Step(st, ln, limit, c) ==
    IF st.err THEN st
    ELSE CASE ln.t \in {"comment", "empty"} -> st
           [] ln.t = "blank" -> EndSentence(st, limit)
           [] ln.t = "bad" -> [st EXCEPT !.err = TRUE]
           [] ln.t = "range" -> AddRange(st, ln)
           [] ln.t = "word" -> AddWord(st, ln, c)
Finish(st) ==
    IF st.err THEN st
    ELSE IF st.left > 0 THEN [st EXCEPT !.err = TRUE]
    ELSE IF st.text = <<>> /\ st.toks = <<>> THEN st
    ELSE IF SentStart(st) # Len(st.toks) THEN [st EXCEPT !.err = TRUE]
    ELSE Emit(st)
Read(lines, limit, c) == Finish(FoldLeft(LAMBDA st, ln : Step(st, ln, limit, Cols(c)), RInit, lines))

\* ------------------------------------------------- declarative description --
IsWord(ln) == ln.t = "word"
WordsOf(lines) == SelectSeq(lines, IsWord)
\* blocks of lines ended by a blank line; the remainder after the last blank
Blanks(lines) == { i \in DOMAIN lines : lines[i].t = "blank" }
Blocks(lines) == LET b == <<0>> \o SetToSortSeq(Blanks(lines), <) IN
                 [ k \in 1..(Len(b) - 1) |-> SubSeq(lines, b[k] + 1, b[k + 1] - 1) ]
Rest(lines) == IF Blanks(lines) = {} THEN lines ELSE SubSeq(lines, Max(Blanks(lines)) + 1, Len(lines))
Solid(lines) == SelectSeq(lines, LAMBDA ln : ln.t \notin {"comment", "empty"})
\* surface tokens of a block: words outside ranges, and ranges
InRange(b, i) == \E j \in 1..(i - 1) : b[j].t = "range" /\ i <= j + b[j].n
Surface(b) == LET w == Solid(b) IN [ k \in 1..Cardinality({ i \in DOMAIN w : ~InRange(w, i) }) |->
                w[SetToSortSeq({ i \in DOMAIN w : ~InRange(w, i) }, <)[k]] ]
BlockOk(b) ==
    LET w == Solid(b) IN
    /\ \E i \in DOMAIN w : IsWord(w[i])
    /\ \A i \in DOMAIN w : w[i].t \in {"word", "range"}
    /\ \A i \in DOMAIN w : w[i].t = "range" => w[i].n >= 1 /\ i + w[i].n <= Len(w) /\ \A k \in (i + 1)..(i + w[i].n) : IsWord(w[k])
SurfaceText(lines) == Concat(MapSeq(LAMBDA ln : ln.form \o (IF ln.sp THEN <<32>> ELSE <<>>), Surface(lines)))

\* ------------------------------------------------------------------ writer --
Shield(o) == IF o = None THEN "_" ELSE Get(o)
FeatStrings(f, order) ==      \* order: feature names sorted ignoring case
    MapSeq(LAMBDA k : k \o "=" \o DictGet(f, k), SelectSeq(order, LAMBDA k : k \in DictKeys(f)))
Misc(sp) == IF sp THEN "_" ELSE "SpaceAfter=No"
WordLine(d, t, i, c, spaces, order, inMwt) ==
    LET h == Sel(c, "HEAD", t.hs)
        p == IF t.pos = None THEN [u |-> None, x |-> None, f |-> <<>>] ELSE Get(t.pos)
        fs == IF "FEATS" \in c THEN FeatStrings(p.f, order) ELSE <<>>
    IN [id |-> ToString(i), form |-> TokText(d, t), lemma |-> Shield(Sel(c, "LEMMA", t.lemma)),
        upos |-> Shield(Sel(c, "UPOS", p.u)), xpos |-> Shield(Sel(c, "XPOS", p.x)),
        feats |-> IF fs = <<>> THEN <<"_">> ELSE fs,
        head |-> IF h = None THEN ToString(i - 1) ELSE ToString(Get(h) + 1),      \* headless: a chain, for the scorer
        deprel |-> IF h = None THEN "_" ELSE Shield(Sel(c, "DEPREL", t.deprel)), deps |-> "_",
        misc |-> IF inMwt THEN "_" ELSE Misc(SpaceAfter(d, t, spaces))]
RangeLine(d, t, a, b, spaces) ==
    [id |-> ToString(a) \o "-" \o ToString(b), form |-> DocText(d, t), lemma |-> "_", upos |-> "_", xpos |-> "_", feats |-> <<"_">>,
     head |-> "_", deprel |-> "_", deps |-> "_", misc |-> Misc(SpaceAfter(d, t, spaces))]
\* number of words of the multiword run starting at word i of sentence w
RunLen(w, i) == Max({ k \in 1..(Len(w) - i + 1) : \A m \in i..(i + k - 1) : w[m].rep # None /\ SameSpan(w[m], w[i]) })
StartsRun(w, i) == w[i].rep # None /\ (i = 1 \/ w[i - 1].rep = None \/ ~SameSpan(w[i - 1], w[i]))
WriteSentence(d, j, c, spaces, order) ==
    LET w == SentToks(d, j)
        Lines(i) == (IF StartsRun(w, i) THEN <<RangeLine(d, w[i], i, i + RunLen(w, i) - 1, spaces)>> ELSE <<>>)
                    \o <<WordLine(d, w[i], i, c, spaces, order, w[i].rep # None)>>
    IN Concat([ i \in DOMAIN w |-> Lines(i) ])
WriteDoc(d, c, spaces, order) == [ j \in DOMAIN d.sents |-> WriteSentence(d, j, Cols(c), spaces, order) ]

\* The written lines as reader input (the writer's output language is the reader's input language)
\* ("_" in a column stands for absence; feature strings are given back as pairs by the caller's table)
AsOpt(v) == IF v = "_" THEN None ELSE <<v>>
IsRangeId(l) == \E n \in 1..99, m \in 1..99 : l.id = ToString(n) \o "-" \o ToString(m)

\* -------------------------------------------------------------- round trip --
\* what re-reading a written document must preserve
SameAfterRoundTrip(d, q) ==
    /\ q.sents = d.sents
    /\ \/ q.text = d.text
       \/ q.text = d.text \o <<32>>          \* the end of the text counts as a space
    /\ Len(q.toks) = Len(d.toks)
    /\ \A i \in DOMAIN d.toks : LET a == d.toks[i]  b == q.toks[i] IN
         /\ TKeyOf(a) = TKeyOf(b) /\ a.rep = b.rep /\ a.lemma = b.lemma /\ a.pos = b.pos
         /\ (HasHead(a) => b.hs = a.hs /\ b.hd = a.hd /\ b.deprel = a.deprel)
=============================================================================

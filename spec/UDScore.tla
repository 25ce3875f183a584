------------------------------- MODULE UDScore -------------------------------
(* CoNLL 2017 UD scoring.                                                    *)
(* A treebank is a sequence of sentences; a sentence a sequence of items     *)
(*   [form |-> code points (no U+0020), mw |-> BOOLEAN, words |-> <<w, ..>>] *)
(* where a plain token has one word.  A word carries lf (its lower-cased     *)
(* form), the scored columns and head (0 = root, else index in sentence).    *)
EXTENDS Common

\* ------------------------------------------------------------- flattening --
ItemsOf(tb) == Concat(tb)
Chars(tb) == Concat(MapSeq(LAMBDA it : it.form, ItemsOf(tb)))
\* running starts
Starts(lens) == LET f == FoldLeft(LAMBDA acc, n : [at |-> acc.at + n, out |-> Append(acc.out, acc.at)], [at |-> 0, out |-> <<>>], lens) IN f.out
TokenSpans(tb) == LET it == ItemsOf(tb)  st == Starts(MapSeq(LAMBDA x : Len(x.form), it)) IN
                  [ i \in DOMAIN it |-> <<st[i], st[i] + Len(it[i].form)>> ]
SentChars(s) == SumSeq(MapSeq(LAMBDA x : Len(x.form), s))
SentWords(s) == SumSeq(MapSeq(LAMBDA x : Len(x.words), s))
SentSpans(tb) == LET st == Starts(MapSeq(SentChars, tb)) IN [ j \in DOMAIN tb |-> <<st[j], st[j] + SentChars(tb[j])>> ]
\* words with their span and the global index of their head (0 for roots)
WordsFlat(tb) ==
    LET base == Starts(MapSeq(SentWords, tb))
        spans == TokenSpans(tb)
        firstItem == Starts(MapSeq(Len, tb))
    IN Concat([ j \in DOMAIN tb |->
         Concat([ i \in DOMAIN tb[j] |->
           MapSeq(LAMBDA w : [s |-> spans[firstItem[j] + i][1], e |-> spans[firstItem[j] + i][2], mw |-> tb[j][i].mw,
                              lf |-> w.lf, lemma |-> w.lemma, upos |-> w.upos, xpos |-> w.xpos, feats |-> w.feats, rel |-> w.rel,
                              up |-> IF w.head = 0 THEN 0 ELSE base[j] + w.head],
                  tb[j][i].words) ]) ])

\* ------------------------------------------------------- alignment machine --
BeyondEnd(w, i, end) == IF i > Len(w) THEN TRUE ELSE IF w[i].mw THEN w[i].s >= end ELSE w[i].e > end
ExtendEnd(x, end) == IF x.mw /\ x.e > end THEN x.e ELSE end
RECURSIVE Grow(_, _, _, _, _)
Grow(G, S, gi, si, end) ==
    IF BeyondEnd(G, gi, end) /\ BeyondEnd(S, si, end) THEN <<gi, si>>
    ELSE IF gi <= Len(G) /\ (IF si > Len(S) THEN TRUE ELSE G[gi].s <= S[si].s)
         THEN Grow(G, S, gi + 1, si, ExtendEnd(G[gi], end))
         ELSE Grow(G, S, gi, si + 1, ExtendEnd(S[si], end))
MwSpan(G, S, gi, si) ==
    IF G[gi].mw
    THEN LET s0 == IF ~S[si].mw /\ S[si].s < G[gi].s THEN si + 1 ELSE si
         IN <<gi, s0>> \o Grow(G, S, gi, s0, G[gi].e)
    ELSE LET g0 == IF ~G[gi].mw /\ G[gi].s < S[si].s THEN gi + 1 ELSE gi
         IN <<g0, si>> \o Grow(G, S, g0, si, S[si].e)
\* longest common subsequence table of the forms, rows and columns 1-based, zero beyond
LcsRow(a, b, g, below) ==
    FoldLeft(LAMBDA acc, k :
        LET s == Len(b) + 1 - k
            right == IF acc = <<>> THEN 0 ELSE acc[1]
            down == IF below = <<>> THEN 0 ELSE below[s]
            diag == IF below = <<>> \/ s = Len(b) THEN 0 ELSE below[s + 1]
            here == IF a[g] = b[s] THEN 1 + diag ELSE 0
        IN <<Max2(here, Max2(right, down))>> \o acc, <<>>, [ k \in 1..Len(b) |-> k ])
LcsTable(a, b) ==
    FoldLeft(LAMBDA acc, k : LET g == Len(a) + 1 - k IN <<LcsRow(a, b, g, IF acc = <<>> THEN <<>> ELSE acc[1])>> \o acc, <<>>, [ k \in 1..Len(a) |-> k ])
LcsLen(a, b) == IF a = <<>> \/ b = <<>> THEN 0 ELSE LcsTable(a, b)[1][1]
RECURSIVE LcsWalk(_, _, _, _, _, _, _)
LcsWalk(a, b, t, g, s, off, acc) ==
    IF g > Len(a) \/ s > Len(b) THEN acc
    ELSE IF a[g] = b[s] THEN LcsWalk(a, b, t, g + 1, s + 1, off, Append(acc, <<off[1] + g, off[2] + s>>))
    ELSE IF t[g][s] = (IF g < Len(a) THEN t[g + 1][s] ELSE 0) THEN LcsWalk(a, b, t, g + 1, s, off, acc)
    ELSE LcsWalk(a, b, t, g, s + 1, off, acc)
Forms(w, from, to) == [ i \in 1..(to - from) |-> w[from + i - 1].lf ]     \* words from..to-1
RECURSIVE AlignFrom(_, _, _, _, _)
AlignFrom(G, S, gi, si, acc) ==
    IF gi > Len(G) \/ si > Len(S) THEN acc
    ELSE IF G[gi].mw \/ S[si].mw
    THEN LET m == MwSpan(G, S, gi, si)
             a == Forms(G, m[1], m[3])  b == Forms(S, m[2], m[4])
             new == IF a = <<>> \/ b = <<>> THEN acc ELSE LcsWalk(a, b, LcsTable(a, b), 1, 1, <<m[1] - 1, m[2] - 1>>, acc)
         IN AlignFrom(G, S, m[3], m[4], new)
    ELSE IF G[gi].s = S[si].s /\ G[gi].e = S[si].e THEN AlignFrom(G, S, gi + 1, si + 1, Append(acc, <<gi, si>>))
    ELSE IF G[gi].s <= S[si].s THEN AlignFrom(G, S, gi + 1, si, acc)
    ELSE AlignFrom(G, S, gi, si + 1, acc)
Align(G, S) == AlignFrom(G, S, 1, 1, <<>>)         \* pairs <<gold word, system word>>

\* ---------------------------------------------------------------- scoring --
Sc(gold, sys, correct, aligned) == [gold |-> gold, sys |-> sys, correct |-> correct, aligned |-> aligned]
SpanScore(g, s) == Sc(Len(g), Len(s), Cardinality(Range0(g) \cap Range0(s)), None)
Evaluate(gtb, stb, weights) ==      \* weights: function relation -> integer weight, or <<>>
    LET G == WordsFlat(gtb)  S == WordsFlat(stb)
        al == Align(G, S)
        \* gold word aligned to a system word (0: the root, -1: none)
        GoldOf(i) == IF i = 0 THEN 0 ELSE IF \E k \in DOMAIN al : al[k][2] = i THEN al[CHOOSE k \in DOMAIN al : al[k][2] = i][1] ELSE -1
        SameUp(p) == G[p[1]].up = GoldOf(S[p[2]].up)
        SameLab(p) == SameUp(p) /\ G[p[1]].rel = S[p[2]].rel
        Hits(P(_)) == Cardinality({ k \in DOMAIN al : P(al[k]) })
        Plain(P(_)) == Sc(Len(G), Len(S), Hits(P), <<Len(al)>>)
        W8(P(_), wt(_)) == Sc(SumSeq(MapSeq(LAMBDA w : wt(w.rel), G)), SumSeq(MapSeq(LAMBDA w : wt(w.rel), S)),
                              SumSeq(MapSeq(LAMBDA p : IF P(p) THEN wt(G[p[1]].rel) ELSE 0, al)),
                              <<SumSeq(MapSeq(LAMBDA p : wt(G[p[1]].rel), al))>>)
        Content(r) == IF r \in {"aux", "case", "cc", "clf", "cop", "det", "mark", "punct"} THEN 0 ELSE 1
        Given(r) == IF \E k \in DOMAIN weights : weights[k][1] = r THEN weights[CHOOSE k \in DOMAIN weights : weights[k][1] = r][2] ELSE 8
    IN [Tokens |-> SpanScore(TokenSpans(gtb), TokenSpans(stb)),
        Sentences |-> SpanScore(SentSpans(gtb), SentSpans(stb)),
        Words |-> Sc(Len(G), Len(S), Len(al), None),
        UPOS |-> Plain(LAMBDA p : G[p[1]].upos = S[p[2]].upos),
        XPOS |-> Plain(LAMBDA p : G[p[1]].xpos = S[p[2]].xpos),
        Feats |-> Plain(LAMBDA p : G[p[1]].feats = S[p[2]].feats),
        AllTags |-> Plain(LAMBDA p : G[p[1]].upos = S[p[2]].upos /\ G[p[1]].xpos = S[p[2]].xpos /\ G[p[1]].feats = S[p[2]].feats),
        Lemmas |-> Plain(LAMBDA p : G[p[1]].lemma = S[p[2]].lemma),
        UAS |-> Plain(SameUp), LAS |-> Plain(SameLab), CLAS |-> W8(SameLab, Content),
        WeightedLAS |-> W8(SameLab, Given)]
Metrics == {"Tokens", "Sentences", "Words", "UPOS", "XPOS", "Feats", "AllTags", "Lemmas", "UAS", "LAS", "CLAS"}
Comparable(gtb, stb) == Chars(gtb) = Chars(stb)

\* observed ratios are parts per million, rounded
NearBy(v, num, den, scale) == IF den = 0 THEN v = 0 ELSE v * den - num * scale \in -den..den
Near(ppm, num, den) == NearBy(ppm, num, den, 1000000)
ScoreAgrees(sc, o) ==
    /\ Near(o.p, sc.correct, sc.sys) /\ Near(o.r, sc.correct, sc.gold)
    /\ Near(o.f, 2 * sc.correct, sc.gold + sc.sys)
    /\ Len(o.a) = Len(sc.aligned) /\ (sc.aligned = None \/ Near(Get(o.a), sc.correct, Get(sc.aligned)))

\* -------------------------------------------------- declarative alignment --
\* multiword spans: maximal unions of overlapping multiword tokens of either side
MwIntervals(G, S) == { <<w.s, w.e>> : w \in { x \in Range0(G) \cup Range0(S) : x.mw } }
Joined(I) == { <<Min({ i[1] : i \in c }), Max({ i[2] : i \in c })>> : c \in
    LET Touch(i, j) == i[1] < j[2] /\ j[1] < i[2]
        RECURSIVE Close(_)
        Close(c) == LET d == c \cup { j \in I : \E i \in c : Touch(i, j) } IN IF d = c THEN c ELSE Close(d)
    IN { Close({i}) : i \in I } }
Inside(w, sp) == SelectSeq(w, LAMBDA x : x.s >= sp[1] /\ x.e <= sp[2])
DeclaredWords(G, S) ==
    LET J == Joined(MwIntervals(G, S))
        Free(w) == { <<x.s, x.e>> : x \in { y \in Range0(w) : \A sp \in J : y.e <= sp[1] \/ y.s >= sp[2] } }
    IN Cardinality(Free(G) \cap Free(S))
       + SumSeq(SetToSeq({ 1000 * sp[1] + LcsLen(MapSeq(LAMBDA x : x.lf, Inside(G, sp)), MapSeq(LAMBDA x : x.lf, Inside(S, sp))) : sp \in J }))
       - SumSeq(SetToSeq({ 1000 * sp[1] : sp \in J }))

\* ----------------------------------------------------------------- loader --
(* lines: comment, blank, empty (node), bad (wrong columns),                 *)
(* word [id, form, head] (id, head: optional integers, absent = unparsable), *)
(* range [n, form].                                                          *)
LInit == [open |-> FALSE, left |-> 0, words |-> <<>>, nsent |-> 0, nwords |-> 0, ntok |-> 0, err |-> FALSE]
Roots(ws) == { i \in DOMAIN ws : ws[i] = <<0>> }
RECURSIVE Climbs(_, _, _)
Climbs(ws, i, fuel) == IF fuel = 0 THEN FALSE ELSE IF ws[i] = <<0>> THEN TRUE ELSE Climbs(ws, Get(ws[i]), fuel - 1)
SentenceValid(ws) ==
    /\ \A i \in DOMAIN ws : ws[i] # None /\ Get(ws[i]) \in 0..Len(ws)
    /\ Cardinality(Roots(ws)) = 1
    /\ \A i \in DOMAIN ws : Climbs(ws, i, Len(ws) + 1)
Bad(st) == [st EXCEPT !.err = TRUE]
NoSp(form) == SelectSeq(form, LAMBDA c : c # 32)
LStep(st, ln) ==
    IF st.err THEN st
    ELSE IF st.left > 0 THEN
        IF ln.t = "word" THEN [st EXCEPT !.words = Append(@, ln.head), !.left = @ - 1] ELSE Bad(st)
    ELSE IF ~st.open /\ ln.t = "comment" THEN st
    ELSE IF ln.t = "blank" THEN
        IF SentenceValid(st.words) /\ st.open
        THEN [st EXCEPT !.open = FALSE, !.nsent = @ + 1, !.nwords = @ + Len(st.words), !.words = <<>>] ELSE Bad(st)
    ELSE IF ln.t = "empty" THEN [st EXCEPT !.open = TRUE]
    ELSE IF ln.t \in {"bad", "comment"} THEN Bad(st)
    ELSE IF NoSp(ln.form) = <<>> THEN Bad(st)
    ELSE IF ln.t = "range" THEN [st EXCEPT !.open = TRUE, !.left = ln.n, !.ntok = @ + 1]
    ELSE IF ln.id # <<Len(st.words) + 1>> \/ ln.head = None THEN Bad(st)
    ELSE IF Get(ln.head) < 0 THEN Bad(st)
    ELSE [st EXCEPT !.open = TRUE, !.words = Append(@, ln.head), !.ntok = @ + 1]
LFinish(st) == IF st.err \/ st.open \/ st.left > 0 THEN Bad(st) ELSE st
Load(lines) == LFinish(FoldLeft(LStep, LInit, lines))
=============================================================================

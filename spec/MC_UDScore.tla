------------------------------ MODULE MC_UDScore ------------------------------
(* Scoring of every pair of segmentations of one text, with multiword tokens *)
(* whose word forms need not occur in the text.                              *)
EXTENDS UDScore, Json, IOUtils
CONSTANTS NChars, Rich
VARIABLES gold, sys
vars == <<gold, sys>>
Text == [ i \in 1..NChars |-> 96 + i ]
Name(i) == <<"a", "b", "c", "d", "e">>[i]
W(lf, u) == [lf |-> lf, lemma |-> "l", upos |-> u, xpos |-> "x", feats |-> "_", rel |-> "dep", head |-> 1]
\* the words a token over Text[i..j] may have
Words(i, j) == { [form |-> SubSeq(Text, i, j), mw |-> FALSE, words |-> <<W(IF i = j THEN Name(i) ELSE "t" \o Name(i) \o Name(j), u)>>] : u \in {"N"} }
               \cup (IF i = j THEN {} ELSE
                     { [form |-> SubSeq(Text, i, j), mw |-> TRUE, words |-> <<W(p[1], "N"), W(p[2], "N")>>] :
                       p \in IF Rich THEN { <<Name(k), Name(m)>> : k, m \in 1..NChars } ELSE { <<Name(i), Name(j)>>, <<"q", Name(j)>> } })
\* one sentence covering the text from i on
RECURSIVE Covers(_)
Covers(i) == IF i > NChars THEN { <<>> } ELSE UNION { { <<t>> \o r : t \in Words(i, j), r \in Covers(j + 1) } : j \in i..NChars }
AllCovers(z) == Covers(z)
Fix(s) == <<s>>
Init == gold = <<>> /\ sys = <<>>
Next == /\ gold = <<>> /\ \E g \in AllCovers(1), s \in AllCovers(1) : gold' = Fix(g) /\ sys' = Fix(s)
Spec == Init /\ [][Next]_vars
Go == gold # <<>>
G == WordsFlat(gold)
S == WordsFlat(sys)
al == Align(G, S)
Ev == Evaluate(gold, sys, <<>>)
Monotone == Go => \A k \in 1..(Len(al) - 1) : al[k][1] < al[k + 1][1] /\ al[k][2] < al[k + 1][2]
AlignedPairsFit == Go => \A k \in DOMAIN al : LET g == G[al[k][1]]  s == S[al[k][2]] IN
    (g.s = s.s /\ g.e = s.e /\ ~g.mw /\ ~s.mw) \/ g.lf = s.lf
\* the official machine may look one token to the left of a multiword span (see DESIGN.md); elsewhere it
\* aligns exactly the declared number of words
Straddled == \E w \in Range0(G) \cup Range0(S) : ~w.mw /\ \E x \in Range0(G) \cup Range0(S) : x.mw /\ w.s < x.s /\ x.s <= w.e
                 /\ ~(\E a \in Range0(G), b \in Range0(S) : ~a.mw /\ ~b.mw /\ a.s = w.s /\ b.s = w.s /\ a.e = w.e /\ b.e = w.e)
AlignsWhatIsDeclared == (Go /\ ~Straddled) => Len(al) = DeclaredWords(G, S)
NeverFewerThanDeclared == Go => Len(al) >= DeclaredWords(G, S)
SelfIsPerfect == Go => LET e == Evaluate(gold, gold, <<>>) IN \A m \in Metrics : e[m].correct = e[m].gold /\ e[m].gold = e[m].sys
Symmetric == Go => LET e == Evaluate(sys, gold, <<>>) IN
    \A m \in {"Tokens", "Sentences"} : e[m].correct = Ev[m].correct /\ e[m].gold = Ev[m].sys /\ e[m].sys = Ev[m].gold
WordsSym == (Go /\ ~Straddled) => Evaluate(sys, gold, <<>>).Words.correct = Ev.Words.correct
Bounded == Go => \A m \in Metrics : Ev[m].correct <= Ev[m].gold /\ Ev[m].correct <= Ev[m].sys
                 /\ (Ev[m].aligned # None => Ev[m].correct <= Get(Ev[m].aligned))
\* replay: every pair of segmentations
Collect == IF Go THEN TLCSet(8, Append(TLCGet(8), <<gold, sys>>)) ELSE TRUE
CInit == Init /\ TLCSet(8, <<>>)
CSpec == CInit /\ [][Next]_vars
Write == JsonSerialize(IOEnv.OUT, TLCGet(8))
=============================================================================

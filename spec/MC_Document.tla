----------------------------- MODULE MC_Document -----------------------------
(* A caller collects tokens and sentences in any order and builds a document *)
(* (or asks for a syntax-validated one).  The invariants say that the code's *)
(* algorithms decide exactly the declared conditions, for every collection   *)
(* within the bounds; the same universes feed the replay (Scenarios).        *)
EXTENDS DataModel, Json, IOUtils

CONSTANTS Mode, MaxT

VARIABLES toks, sents, phase, doc
vars == <<toks, sents, phase, doc>>

Tok(s, e, sub, rep, hd, hs) == [s |-> s, e |-> e, sub |-> sub, rep |-> rep, hd |-> hd, hs |-> hs,
                                pos |-> None, lemma |-> None, deprel |-> None, ex |-> <<>>]
Plain(i) == Tok(i, i + 1, 0, None, None, None)
Text == [ i \in 1..6 |-> 96 + i ]

Spans == { p \in (0..2) \X (1..3) : p[1] < p[2] }
StructToks == { Tok(p[1], p[2], 0, None, None, None) : p \in Spans }
              \cup { Tok(p[1], p[2], k, <<<<120 + k>>>>, None, None) : p \in Spans, k \in 0..2 }
SentSpans == { p \in (0..4) \X (1..5) : p[1] < p[2] }

\* all ways to cut n tokens into consecutive sentences
Splits(n) == { LET c == SetToSortSeq(S \cup {0, n}, <) IN [ i \in 1..(Len(c) - 1) |-> <<c[i], c[i + 1]>> ]
               : S \in SUBSET (1..(n - 1)) }

HeadVals(n) == {-2} \cup (-1..(n + 1))
HeadOptions(n) == {<<None, None>>}
                  \cup { <<<<h>>, None>> : h \in HeadVals(n) }
                  \cup { <<None, <<h>>>> : h \in HeadVals(n) }
                  \cup { <<<<h>>, <<g>>>> : h \in HeadVals(n), g \in HeadVals(n) }
WithHead(t, o) == [t EXCEPT !.hd = o[1], !.hs = o[2]]
SynVals(n) == { None } \cup { <<h>> : h \in -1..n }

\* ------------------------------------------------------------ transitions --
Init == toks = <<>> /\ sents = None /\ phase = "edit" /\ doc = [ok |-> FALSE]

AddToken(t) == /\ phase = "edit" /\ Len(toks) < MaxT
               /\ toks' = Append(toks, t) /\ UNCHANGED <<sents, phase, doc>>
AddSentence(x) == /\ phase = "edit" /\ Len(EffSents(<<>>, sents)) < 3
                  /\ sents' = <<Append(IF sents = None THEN <<>> ELSE Get(sents), x)>>
                  /\ UNCHANGED <<toks, phase, doc>>
Cut(ss) == /\ phase = "edit" /\ sents = None /\ toks # <<>>
           /\ sents' = <<ss>> /\ UNCHANGED <<toks, phase, doc>>
BuildDoc == /\ phase = "edit"
            /\ doc' = Build(Text, toks, sents)
            /\ phase' = "built" /\ UNCHANGED <<toks, sents>>

NextToken == CASE Mode = "tokens" -> StructToks
               [] Mode = "sents" -> { Plain(Len(toks)) }
               [] Mode = "heads" -> { WithHead(Plain(Len(toks)), o) : o \in
                                        IF Len(toks) = 1 THEN HeadOptions(MaxT)
                                        ELSE {<<None, None>>, <<<<-1>>, None>>, <<None, <<0>>>>} }
               [] Mode = "syntax" -> { WithHead(Plain(Len(toks)), <<None, h>>) : h \in SynVals(MaxT) }
Next == \/ \E t \in NextToken : AddToken(t)
        \/ Mode = "sents" /\ \E x \in SentSpans : AddSentence(x)
        \/ Mode \in {"heads", "syntax"} /\ \E ss \in Splits(Len(toks)) : Cut(ss)
        \/ BuildDoc
Spec == Init /\ [][Next]_vars

\* -------------------------------------------------------------- properties --
Built == phase = "built"
AlgorithmDecidesStructure ==
    Built => /\ TokensOk(toks) = OpTokensOk(toks)
             /\ (toks # <<>> => SentsOk(Len(toks), EffSents(toks, sents)) = OpSentsOk(Len(toks), EffSents(toks, sents)))
AcceptedIffDeclared == Built => doc.ok = Accepts(toks, sents)
StripHead(t) == [t EXCEPT !.hd = None, !.hs = None]
NothingLost == Built /\ doc.ok => IsPerm(MapSeq(StripHead, doc.toks), MapSeq(StripHead, toks))
InOrder == Built /\ doc.ok => \A i \in 1..(Len(doc.toks) - 1) : LexLess(doc.toks[i], doc.toks[i + 1])
SentencesPartition == Built /\ doc.ok => SentsOk(Len(doc.toks), doc.sents)
Perms(n) == { f \in [1..n -> 1..n] : \A i, j \in 1..n : f[i] = f[j] => i = j }
OrderIndependent ==
    Built => \A f \in Perms(Len(toks)) : Build(Text, [i \in DOMAIN toks |-> toks[f[i]]], sents) = doc
HeadViewsAgree ==
    Built /\ doc.ok => \A i \in DOMAIN doc.toks : LET t == doc.toks[i] IN
        /\ (t.hd = None <=> t.hs = None)
        /\ (t.hd # None => \/ t.hd = <<Root>> /\ t.hs = <<Root>>
                           \/ Get(t.hs) >= 0 /\ Get(t.hd) = Get(t.hs) + doc.sents[SentOf(doc.sents, i - 1)][1])
GivenHeadKept ==
    Built /\ doc.ok => \A i \in DOMAIN toks : \E j \in DOMAIN doc.toks :
        /\ StripHead(toks[i]) = StripHead(doc.toks[j])
        /\ toks[i].hd # None => doc.toks[j].hd = toks[i].hd
        /\ toks[i].hs # None => doc.toks[j].hs = toks[i].hs
        /\ HasHead(toks[i]) = HasHead(doc.toks[j])
Rebuild == Built /\ doc.ok => Build(doc.text, doc.toks, <<doc.sents>>) = doc \/ doc.toks = <<>>
ReAnnotateSelf == Built /\ doc.ok => ReAnnotate(doc, doc.toks) = doc
\* token equality is an equivalence on every token universe reached here
EqualityIsEquivalence ==
    \A i, j, k \in DOMAIN toks : LET a == toks[i]  b == toks[j]  c == toks[k] IN
        /\ TokEq(a, a) /\ (TokEq(a, b) <=> TokEq(b, a)) /\ (TokEq(a, b) /\ TokEq(b, c) => TokEq(a, c))
WalkDecidesTree == Built /\ doc.ok /\ doc.toks # <<>> => OpSyntaxOk(doc) = SyntaxOk(doc)
=============================================================================

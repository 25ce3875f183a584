------------------------------ MODULE DataModel ------------------------------
(* The annotated-document data model: tokens, sentences, documents.          *)
(*                                                                           *)
(* A token value is a record                                                 *)
(*   [s, e, sub    : span and index inside a multiword token                 *)
(*    rep          : optional surface text of a multiword part               *)
(*    hd, hs       : optional head, document- and sentence-relative          *)
(*    pos, lemma, deprel : optional annotations                              *)
(*    ex           : extras, a sorted sequence of <<key, value>>]            *)
(* A sentence is <<first token, past-last token>>; a document value is       *)
(*   [text, toks, sents].                                                    *)
(*                                                                           *)
(* Every notion comes twice: the operational definition follows the code     *)
(* (sort, scan neighbours, fill heads sentence by sentence, mark visited     *)
(* tokens); the declarative one states what a caller may rely on.            *)
(* MC_Document checks that they agree.                                       *)
EXTENDS Common

Root == -1

\* ------------------------------------------------------------ structure ---
SameSpan(a, b) == a.s = b.s /\ a.e = b.e
Disjoint(a, b) == a.e <= b.s \/ b.e <= a.s

LexLess(a, b) == \/ a.s < b.s
                 \/ a.s = b.s /\ a.e < b.e
                 \/ SameSpan(a, b) /\ a.sub < b.sub
SentLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])

SortToks(ts) == SortSeq(ts, LexLess)
SortSents(ss) == SortSeq(ss, SentLess)

\* Token and sentence well-formedness (constructor preconditions)
TokenOk(t) == t.s >= 0 /\ t.s < t.e /\ (t.rep = None => t.sub = 0)
SentenceOk(x) == x[1] >= 0 /\ x[1] < x[2]

\* -- operational
Intersects(a, b) == IF Disjoint(a, b) THEN FALSE
                    ELSE IF SameSpan(a, b) THEN a.sub = b.sub ELSE TRUE
Skipped(a, b) == IF b.rep = None THEN FALSE
                 ELSE IF a.rep # None /\ SameSpan(a, b) THEN b.sub # a.sub + 1 ELSE b.sub # 0
OpTokensOk(ts) ==
    LET w == SortToks(ts) IN
    /\ \A i \in 1..(Len(w) - 1) : ~Intersects(w[i], w[i + 1]) /\ ~Skipped(w[i], w[i + 1])
    /\ (Len(w) > 0 => w[1].sub = 0)

\* -- declarative: no two tokens share text unless they are different words of
\*    one multiword token, and every multiword token has words 0..k-1
TokensOk(ts) ==
    /\ \A i, j \in DOMAIN ts : i < j =>
         \/ Disjoint(ts[i], ts[j])
         \/ SameSpan(ts[i], ts[j]) /\ ts[i].sub # ts[j].sub
                                   /\ ts[i].rep # None /\ ts[j].rep # None
    /\ \A i \in DOMAIN ts : \A m \in 0..(ts[i].sub - 1) :
         \E j \in DOMAIN ts : SameSpan(ts[i], ts[j]) /\ ts[j].sub = m

\* -- sentences cover the tokens exactly once
DefaultSents(ts) == IF ts = <<>> THEN <<>> ELSE <<<<0, Len(ts)>>>>
OpSentsOk(n, ss) ==
    LET w == SortSents(ss) IN
    /\ w # <<>>
    /\ w[Len(w)][2] = n
    /\ w[1][1] = 0
    /\ \A i \in 1..(Len(w) - 1) : w[i][2] = w[i + 1][1]
SentsOk(n, ss) ==
    /\ \A j \in DOMAIN ss : ss[j][2] <= n
    /\ \A i \in 0..(n - 1) : Cardinality({ j \in DOMAIN ss : ss[j][1] <= i /\ i < ss[j][2] }) = 1

\* ---------------------------------------------------------------- heads ---
HasHead(t) == t.hd # None \/ t.hs # None
IsRoot(t) == t.hd = <<Root>> \/ t.hs = <<Root>>

\* Given heads of a token in a sentence starting at token "from" are coherent
HeadOk(t, from) ==
    \/ ~HasHead(t)
    \/ t.hd \in {None, <<Root>>} /\ t.hs \in {None, <<Root>>}
    \/ /\ ~IsRoot(t)
       /\ (t.hd # None /\ t.hs # None => Get(t.hd) = Get(t.hs) + from)
       /\ (IF t.hs # None THEN Get(t.hs) ELSE Get(t.hd) - from) >= 0
FillHead(t, from) ==
    IF ~HasHead(t) THEN t
    ELSE IF IsRoot(t) THEN [t EXCEPT !.hd = <<Root>>, !.hs = <<Root>>]
    ELSE IF t.hd = None THEN [t EXCEPT !.hd = <<Get(t.hs) + from>>]
    ELSE [t EXCEPT !.hs = <<Get(t.hd) - from>>]

SentOf(ss, i) == CHOOSE j \in DOMAIN ss : ss[j][1] <= i /\ i < ss[j][2]
HeadsOk(w, ss) == \A i \in 0..(Len(w) - 1) : HeadOk(At(w, i), ss[SentOf(ss, i)][1])
Filled(w, ss) == [ i \in DOMAIN w |-> FillHead(w[i], ss[SentOf(ss, i - 1)][1]) ]

\* ---------------------------------------------------------- construction --
\* sents = None: one sentence over everything.
EffSents(ts, sents) == IF sents = None THEN DefaultSents(ts) ELSE Get(sents)
Accepts(ts, sents) ==
    ts # <<>> =>
      /\ TokensOk(ts)
      /\ SentsOk(Len(ts), EffSents(ts, sents))
      /\ HeadsOk(SortToks(ts), EffSents(ts, sents))
Build(text, ts, sents) ==
    IF ts = <<>> THEN [ok |-> TRUE, text |-> text, toks |-> <<>>, sents |-> <<>>]
    ELSE IF ~Accepts(ts, sents) THEN [ok |-> FALSE]
    ELSE LET ss == SortSents(EffSents(ts, sents)) IN
         [ok |-> TRUE, text |-> text, toks |-> Filled(SortToks(ts), ss), sents |-> ss]

\* ---------------------------------------------------------------- syntax --
\* Declarative: every sentence has no heads at all or is a tree.
SentToks(d, j) == Slice(d.toks, d.sents[j][1], d.sents[j][2])
RECURSIVE ReachesRoot(_, _, _)
ReachesRoot(w, i, fuel) ==
    IF IsRoot(At(w, i)) THEN TRUE
    ELSE IF fuel = 0 THEN FALSE
    ELSE ReachesRoot(w, Get(At(w, i).hs), fuel - 1)
IsTree(w) ==
    /\ \A i \in DOMAIN w : HasHead(w[i])
    /\ \A i \in DOMAIN w : IsRoot(w[i]) \/ Get(w[i].hs) \in 0..(Len(w) - 1)
    /\ Cardinality({ i \in DOMAIN w : IsRoot(w[i]) }) = 1
    /\ \A i \in DOMAIN w : ReachesRoot(w, i - 1, Len(w))
NoSyntax(w) == \A i \in DOMAIN w : ~HasHead(w[i])
SyntaxOk(d) == \A j \in DOMAIN d.sents : LET w == SentToks(d, j) IN NoSyntax(w) \/ IsTree(w)

\* Operational: the marking walk of the code.  vis[i] = the walk that first
\* met token i; meeting the current walk's own mark is a loop.
RECURSIVE WalkUp(_, _, _, _)
WalkUp(w, vis, i, cur) ==      \* cur: token index whose head is followed
    IF ~HasHead(At(w, cur)) \/ IsRoot(At(w, cur)) THEN [ok |-> TRUE, vis |-> vis]
    ELSE LET h == Get(At(w, cur).hs) IN
         IF h < 0 \/ h >= Len(w) THEN [ok |-> FALSE, vis |-> vis]
         ELSE IF vis[h] = -1 THEN WalkUp(w, [vis EXCEPT ![h] = i], i, h)
         ELSE IF vis[h] = i THEN [ok |-> FALSE, vis |-> vis]
         ELSE [ok |-> TRUE, vis |-> vis]
RECURSIVE ScanFrom(_, _, _, _)
ScanFrom(w, vis, roots, i) ==
    IF i = Len(w) THEN TRUE
    ELSE IF ~HasHead(At(w, i)) THEN FALSE
    ELSE IF IsRoot(At(w, i)) THEN
           IF roots > 0 THEN FALSE
           ELSE ScanFrom(w, IF vis[i] = -1 THEN [vis EXCEPT ![i] = i] ELSE vis, 1, i + 1)
    ELSE IF vis[i] # -1 THEN ScanFrom(w, vis, roots, i + 1)
    ELSE LET r == WalkUp(w, [vis EXCEPT ![i] = i], i, i) IN
         r.ok /\ ScanFrom(w, r.vis, roots, i + 1)
OpSentenceOk(w) == IF ~HasHead(w[1]) THEN NoSyntax(w)
                   ELSE ScanFrom(w, [k \in 0..(Len(w) - 1) |-> -1], 0, 0)
OpSyntaxOk(d) == \A j \in DOMAIN d.sents : OpSentenceOk(SentToks(d, j))

BuildValidated(text, ts, sents) ==
    LET d == Build(text, ts, sents) IN
    \* WalkDecidesTree (MC_Document) licenses the linear definition for large documents
    IF d.ok /\ d.toks # <<>> /\ ~(IF Len(d.toks) <= 24 THEN SyntaxOk(d) ELSE OpSyntaxOk(d)) THEN [ok |-> FALSE] ELSE d

\* ----------------------------------------------------------- derivations --
WithMorphology(t, pos, lemma) == [t EXCEPT !.pos = pos, !.lemma = lemma]
WithSyntax(t, deprel, hd, hs) == [t EXCEPT !.deprel = deprel, !.hd = hd, !.hs = hs]
WithExtras(t, ex) == [t EXCEPT !.ex = ex]
DictKeys(d) == { d[i][1] : i \in DOMAIN d }
DictGet(d, k) == d[CHOOSE i \in DOMAIN d : d[i][1] = k][2]
\* "old" updated with "new": same mapping as set of pairs (order is by key)
DictUpdated(old, new) == { p \in Range0(old) : p[1] \notin DictKeys(new) } \cup Range0(new)

ReAnnotate(d, ts) ==
    IF Len(ts) # Len(d.toks) THEN [ok |-> FALSE]
    ELSE LET w == SortToks(ts) IN
         IF \E i \in DOMAIN w : ~SameSpan(w[i], d.toks[i]) THEN [ok |-> FALSE]
         ELSE Build(d.text, w, <<d.sents>>)

\* ------------------------------------------------------------- equality ---
HeadKey(t) == IF t.hd # None THEN <<"doc", Get(t.hd)>>
              ELSE IF t.hs # None THEN <<"sent", Get(t.hs)>> ELSE <<"none", 0>>
TokEq(a, b) == /\ SameSpan(a, b) /\ a.sub = b.sub /\ a.rep = b.rep
               /\ a.pos = b.pos /\ a.lemma = b.lemma /\ a.deprel = b.deprel
               /\ a.ex = b.ex /\ HeadKey(a) = HeadKey(b)
DocEq(a, b) == /\ a.text = b.text /\ a.sents = b.sents /\ Len(a.toks) = Len(b.toks)
               /\ \A i \in DOMAIN a.toks : TokEq(a.toks[i], b.toks[i])

\* ------------------------------------------------------------ text views --
DocText(d, t) == Slice(d.text, Min2(t.s, Len(d.text)), Min2(t.e, Len(d.text)))
TokText(d, t) == IF t.rep # None THEN Get(t.rep) ELSE DocText(d, t)
SpaceAfter(d, t, spaces) == t.e = Len(d.text) \/ (t.e < Len(d.text) /\ d.text[t.e + 1] \in spaces)
SentText(d, j) == LET w == SentToks(d, j) IN
                  Slice(d.text, w[1].s, w[Len(w)].e)
\* Python index normalisation: None when out of range
NormIndex(i, n) == IF i >= 0 /\ i < n THEN <<i>> ELSE IF i < 0 /\ i >= -n THEN <<i + n>> ELSE None
=============================================================================

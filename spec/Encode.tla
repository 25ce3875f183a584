------------------------------- MODULE Encode -------------------------------
(* Numbers for the network: label dictionaries, vocabularies, padded batches *)
(* and minibatches.                                                          *)
EXTENDS Common
Padding == 0
Oov == 1
Start == 2
End == 3

\* ----------------------------------------------------- label dictionaries --
Most(s) == { x \in Range0(s) : \A y \in Range0(s) : Count(s, y) <= Count(s, x) }
\* operational: most frequent label first (ties: first seen), others follow in a fixed order
RECURSIVE FirstMost(_, _)
FirstMost(s, i) == IF s[i] \in Most(s) THEN s[i] ELSE FirstMost(s, i + 1)
Less(a, b) == IF a = None \/ b = None THEN a = None /\ b # None ELSE a[1] < b[1]
IdList(s, th) ==
    LET mf == FirstMost(s, 1)
        rest == { x \in Range0(s) : x # mf /\ Count(s, x) > th }
    IN <<mf>> \o SetToSortSeq(rest, Less)
IdOf(ids, x) == IF \E k \in DOMAIN ids : ids[k] = x THEN (CHOOSE k \in DOMAIN ids : ids[k] = x) - 1 ELSE 0
\* declarative: lab (numbers given to the labels s) is a dictionary of n labels with threshold th
MostZero(s, th, lab) == { mf \in Most(s) : \A k \in DOMAIN s : (lab[k] = 0) <=> (s[k] = mf \/ Count(s, s[k]) <= th) }
IsDictionary(s, th, lab, n) ==
    /\ MostZero(s, th, lab) # {}
    /\ \A k \in DOMAIN s : lab[k] \in 0..(n - 1)
    /\ \A j, k \in DOMAIN s : lab[j] # 0 /\ lab[k] # 0 => (lab[j] = lab[k] <=> s[j] = s[k])
    /\ n = 1 + Cardinality({ s[k] : k \in { j \in DOMAIN s : lab[j] # 0 } })
\* the label a number stands for
Meaning(s, mf, lab, i) == IF i = 0 THEN mf ELSE s[CHOOSE k \in DOMAIN s : lab[k] = i]

\* ------------------------------------------------------------ vocabularies --
\* units: the units (words, characters, ...) of the training tokens, one after another
Frequent(units, min) == { u \in Range0(units) : Count(units, u) >= min }
VocabIds(units, min, base) == [ u \in Frequent(units, min) |-> base + Cardinality({ v \in Frequent(units, min) : v < u }) ]
Num(ids, u) == IF u \in DOMAIN ids THEN ids[u] ELSE Oov
\* declarative: f gives known units different numbers base..rows-1
IsVocabulary(known, f, base, rows) ==
    /\ rows = Cardinality(known) + base
    /\ \A u \in known : f[u] \in base..(rows - 1)
    /\ \A u, v \in known : u # v => f[u] # f[v]
WordSeq(ids, seg) == <<Start>> \o MapSeq(LAMBDA u : Num(ids, u), seg) \o <<End>>
\* label characters: cut or filled to m
Fit(s, m) == IF Len(s) >= m THEN SubSeq(s, 1, m) ELSE s \o [ k \in 1..(m - Len(s)) |-> Padding ]
RECURSIVE ReadBack(_, _)
ReadBack(s, names) == IF s = <<>> THEN <<>>
                      ELSE IF s[1] = End THEN <<>>
                      ELSE (IF s[1] \in {Start, Oov, Padding} THEN <<>> ELSE names[s[1]]) \o ReadBack(Tail(s), names)

\* ----------------------------------------------------------------- padding --
\* trees: [leaf |-> TRUE, n |-> number, l |-> <<>>] or [leaf |-> FALSE, n |-> 0, l |-> children]
Leaf(x) == [leaf |-> TRUE, n |-> x, l |-> <<>>]
Node(s) == [leaf |-> FALSE, n |-> 0, l |-> s]
Kids(s) == Concat(MapSeq(LAMBDA t : t.l, s))
\* every level holds numbers only or lists only
RECURSIVE Homogeneous(_)
Homogeneous(s) == \/ \A k \in DOMAIN s : s[k].leaf
                  \/ (\A k \in DOMAIN s : ~s[k].leaf) /\ Homogeneous(Kids(s))
RECURSIVE Blank(_)
Blank(s) == IF \A k \in DOMAIN s : s[k].leaf THEN Leaf(Padding)
            ELSE LET b == Blank(Kids(s)) IN Node([ j \in 1..Max({ Len(s[k].l) : k \in DOMAIN s }) |-> b ])
\* operational: fill every list of a level with blanks of the level below
RECURSIVE PadWith(_, _)
PadWith(t, b) == IF t.leaf THEN t
                 ELSE Node([ j \in DOMAIN b.l |-> IF j <= Len(t.l) THEN PadWith(t.l[j], b.l[j]) ELSE b.l[j] ])
Pad(s) == LET b == Blank(s) IN MapSeq(LAMBDA t : PadWith(t, b), s)
\* declarative
RECURSIVE SameShape(_, _)
SameShape(a, b) == a.leaf = b.leaf /\ Len(a.l) = Len(b.l) /\ \A k \in DOMAIN a.l : SameShape(a.l[k], b.l[k])
RECURSIVE OnlyZeros(_)
OnlyZeros(p) == IF p.leaf THEN p.n = Padding ELSE \A k \in DOMAIN p.l : OnlyZeros(p.l[k])
RECURSIVE Extends0(_, _)
Extends0(p, t) == /\ p.leaf = t.leaf /\ (t.leaf => p.n = t.n) /\ Len(t.l) <= Len(p.l)
                  /\ \A k \in DOMAIN p.l : IF k <= Len(t.l) THEN Extends0(p.l[k], t.l[k]) ELSE OnlyZeros(p.l[k])

\* ------------------------------------------------------------- minibatches --
\* operational: collect until full
MbStep(st, x, size) == LET c == Append(st.cur, x) IN IF Len(c) >= size THEN [out |-> Append(st.out, c), cur |-> <<>>] ELSE [st EXCEPT !.cur = c]
Minibatches(s, size) == LET st == FoldLeft(LAMBDA a, x : MbStep(a, x, size), [out |-> <<>>, cur |-> <<>>], s)
                        IN IF st.cur = <<>> THEN st.out ELSE Append(st.out, st.cur)
=============================================================================

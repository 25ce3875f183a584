------------------------------ MODULE Pipeline ------------------------------
(* Document processors: chains of stages, the bridge to UDPipe, baselines.    *)
EXTENDS Common

\* ---------------------------------------------------------------- stages ----
\* what a stage k makes of a whole stream (declarative)
RECURSIVE Whole(_, _, _)
Whole(kind, k, s) ==
    CASE kind = "map" -> MapSeq(LAMBDA d : Append(d, k), s)
      [] kind = "drop" -> [ i \in 1..(Len(s) \div 2) |-> s[2 * i] ]
      [] kind = "dup" -> Concat(MapSeq(LAMBDA d : <<d, Append(d, k)>>, s))
      [] OTHER -> s
\* a stage is <<kind, processor>>: the same processor may stand at several places of a chain
RECURSIVE Composed(_, _, _)
Composed(stages, k, s) == IF k > Len(stages) THEN s ELSE Composed(stages, k + 1, Whole(stages[k][1], stages[k][2], s))
\* one document at a time (operational): a stage state is the number of documents seen and those held back
G0 == [n |-> 0, held |-> <<>>]
One(kind, k, g, d) ==
    LET h == Append(g.held, d) IN
    CASE kind = "map" -> [g |-> [g EXCEPT !.n = @ + 1], out |-> <<Append(d, k)>>]
      [] kind = "drop" -> [g |-> [g EXCEPT !.n = @ + 1], out |-> IF g.n % 2 = 1 THEN <<d>> ELSE <<>>]
      [] kind = "dup" -> [g |-> [g EXCEPT !.n = @ + 1], out |-> <<d, Append(d, k)>>]
      [] kind = "pair" -> IF Len(h) = 2 THEN [g |-> [n |-> g.n + 1, held |-> <<>>], out |-> h] ELSE [g |-> [n |-> g.n + 1, held |-> h], out |-> <<>>]
      [] kind = "all" -> [g |-> [n |-> g.n + 1, held |-> h], out |-> <<>>]
RECURSIVE Push(_, _, _, _)
\* a document enters stage j of the chain with states gs
Push(stages, gs, j, d) ==
    IF j > Len(stages) THEN [gs |-> gs, out |-> <<d>>]
    ELSE LET o == One(stages[j][1], stages[j][2], gs[j], d) IN
         FoldLeft(LAMBDA acc, x : LET p == Push(stages, acc.gs, j + 1, x) IN [gs |-> p.gs, out |-> acc.out \o p.out],
                  [gs |-> [gs EXCEPT ![j] = o.g], out |-> <<>>], o.out)
RECURSIVE Flush(_, _, _)
Flush(stages, gs, j) ==
    IF j > Len(stages) THEN <<>>
    ELSE LET a == FoldLeft(LAMBDA acc, x : LET p == Push(stages, acc.gs, j + 1, x) IN [gs |-> p.gs, out |-> acc.out \o p.out], [gs |-> gs, out |-> <<>>], gs[j].held)
         IN a.out \o Flush(stages, a.gs, j + 1)
Streamed(stages, s) == FoldLeft(LAMBDA acc, x : LET p == Push(stages, acc.gs, 1, x) IN [gs |-> p.gs, out |-> acc.out \o p.out],
                                [gs |-> [ j \in DOMAIN stages |-> G0 ], out |-> <<>>], s)
\* documents read before the j-th result can be given: the fewest that yield it
Needed(stages, s, j) == LET ks == { k \in 0..Len(s) : Len(Streamed(stages, SubSeq(s, 1, k)).out) >= j } IN IF ks = {} THEN Len(s) ELSE Min(ks)

\* ---------------------------------------------------------------- UDPipe ----
\* heads: -1 none, 0 root, k the k-th word  <->  None, -1, k - 1
ToUd(h) == IF h = None THEN -1 ELSE h[1] + 1
FromUd(h) == IF h < 0 THEN None ELSE <<h - 1>>
TextOr(x) == IF x = "" THEN None ELSE <<x>>
MorphOf(w) == [pos |-> IF w.u = "" /\ w.x = "" /\ w.f = <<>> THEN None ELSE <<[u |-> TextOr(w.u), x |-> TextOr(w.x), f |-> w.f]>>,
               lemma |-> IF w.lemma = <<>> THEN None ELSE <<w.lemma>>]
WordOf(t) == [form |-> t.form, lemma |-> GetOr(t.lemma, <<>>), u |-> IF t.pos = None THEN "" ELSE GetOr(t.pos[1].u, ""),
              x |-> IF t.pos = None THEN "" ELSE GetOr(t.pos[1].x, ""), f |-> IF t.pos = None THEN <<>> ELSE t.pos[1].f]
=============================================================================

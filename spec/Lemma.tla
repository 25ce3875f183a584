------------------------------- MODULE Lemma -------------------------------
(* Lemma transformation rules, the suffix index over them, and the rule      *)
(* vocabulary.  Text is a sequence of letters.                               *)
(* A rule is [ws, ls, ex]: word suffix, lemma suffix, whole-word rule.       *)
EXTENDS Common
RECURSIVE CommonLen(_, _)
CommonLen(w, l) == IF w = <<>> \/ l = <<>> THEN 0
                   ELSE IF w[1] # l[1] THEN 0 ELSE 1 + CommonLen(Tail(w), Tail(l))
GetRule(w, l) == LET n == CommonLen(w, l) IN [ws |-> SubSeq(w, n + 1, Len(w)), ls |-> SubSeq(l, n + 1, Len(l)), ex |-> n = 0]
EndsWith(w, s) == Len(s) <= Len(w) /\ SubSeq(w, Len(w) - Len(s) + 1, Len(w)) = s
Matches(r, w) == EndsWith(w, r.ws)
Transform(r, w) == SubSeq(w, 1, Len(w) - Len(r.ws)) \o r.ls

\* ---------------------------------------------------------- suffix index --
\* declarative: whole-word rules for exactly their word, others for words that
\* keep at least one letter
Reported(r, w) == IF r.ex THEN w = r.ws ELSE Len(r.ws) < Len(w) /\ EndsWith(w, r.ws)
\* operational: walk from the end of the word along stored suffixes
LastN(w, n) == SubSeq(w, Len(w) - n + 1, Len(w))
HasNode(rules, s) == \E r \in rules : EndsWith(r.ws, s)
RECURSIVE WalkFrom(_, _, _)
WalkFrom(rules, w, n) ==
    LET here == { r \in rules : r.ws = LastN(w, n) } IN
    IF n = Len(w) THEN { r \in here : r.ex }
    ELSE { r \in here : ~r.ex } \cup (IF HasNode(rules, LastN(w, n + 1)) THEN WalkFrom(rules, w, n + 1) ELSE {})
Walk(rules, w) == WalkFrom(rules, w, 0)

\* --------------------------------------------------------- rule vocabulary --
\* train: sequence of <<word, lemma>>.  A rule is kept when it occurs more than
\* th times; one most frequent rule is always kept and has number 0.
RulesOf(train) == MapSeq(LAMBDA p : GetRule(p[1], p[2]), train)
MostFrequent(s) == { x \in Range0(s) : \A y \in Range0(s) : Count(s, y) <= Count(s, x) }
KeptWith(s, th, mf) == { x \in Range0(s) : Count(s, x) > th } \cup { mf }
\* the lemma a predicted rule gives
Apply(r, w) == IF Matches(r, w) THEN Transform(r, w) ELSE w
=============================================================================

------------------------------- MODULE Common -------------------------------
(* Shared vocabulary of every babylondigger specification module.           *)
(* Conventions:                                                             *)
(*   - an optional value is <<>> (absent) or <<v>> (present);               *)
(*   - text is a sequence of code points;                                   *)
(*   - a dictionary is a sequence of <<key, value>> pairs sorted by key;    *)
(*   - an outcome of an operation is a record with field "ok".              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

None == <<>>
Some(x) == <<x>>
IsSome(o) == Len(o) = 1
Get(o) == o[1]
GetOr(o, d) == IF o = <<>> THEN d ELSE o[1]

Range0(s) == { s[i] : i \in DOMAIN s }
TKeyOf(t) == <<t.s, t.e, t.sub>>
Slice(s, a, b) == SubSeq(s, a + 1, b)            \* Python s[a:b], 0 <= a <= b <= Len(s)
At(s, i) == s[i + 1]                             \* Python s[i]
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Count(s, x) == Cardinality({ i \in DOMAIN s : s[i] = x })
SumSeq(s) == FoldSeq(LAMBDA x, acc : x + acc, 0, s)
MapSeq(f(_), s) == [ i \in DOMAIN s |-> f(s[i]) ]
IsPerm(s, t) == /\ Len(s) = Len(t)
                /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(t, s[i])
Concat(ss) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, ss)

\* All sequences over S of length lo..hi.
SeqsOf(S, lo, hi) == UNION { [1..n -> S] : n \in lo..hi }

\* clause name if the condition fails (building block of total verdicts)
Clause(name, cond) == IF cond THEN {} ELSE {name}
=============================================================================

------------------------------- MODULE T_Lemma -------------------------------
(* C21: lemma rules recorded from the code *)
EXTENDS Lemma, Trace
NoState == 0
Keep(s, b) == [st |-> s, bad |-> b]
RuleBad(r) ==
    Clause("rule-of-word-and-lemma", r.rule = GetRule(r.w, r.l))
    \cup Clause("rule-restores-lemma", r.back = r.l)
    \cup Clause("applicable-to-words-with-the-suffix", \A k \in DOMAIN r.apps :
            LET a == r.apps[k] IN (r.rule.ex /\ a.q # r.rule.ws) \/ a.is = Matches(r.rule, a.q))
    \cup Clause("never-applicable-without-the-suffix", \A k \in DOMAIN r.apps : r.apps[k].is => Matches(r.rule, r.apps[k].q))
    \cup Clause("transformation", \A k \in DOMAIN r.apps :
            LET a == r.apps[k] IN IF a.is THEN a.exc = "" /\ a.out = Transform(r.rule, a.q) ELSE a.exc = "ValueError")
OrderBad(r) ==
    LET n == DOMAIN r.rules IN
    Clause("equality-is-by-value", \A i, j \in n : r.eq[i][j] = (r.rules[i] = r.rules[j]))
    \cup Clause("equal-rules-hash-alike", \A i, j \in n : r.rules[i] = r.rules[j] => r.hash[i][j])
    \cup Clause("order-is-total", \A i, j \in n : IF r.rules[i] = r.rules[j] THEN ~r.lt[i][j] ELSE r.lt[i][j] # r.lt[j][i])
    \cup Clause("order-is-transitive", \A i, j, k \in n : r.lt[i][j] /\ r.lt[j][k] => r.lt[i][k])
    \cup Clause("other-types", r.foreign)
TrieBad(r) == UNION { Clause("reports-exactly-the-applicable-rules",
                             IsPerm(r.qs[k].got, SelectSeq(r.rules, LAMBDA x : Reported(x[1], r.qs[k].q)))) : k \in DOMAIN r.qs }
\* labels of a training set: train (lower-cased word and lemma), th, lab, size
EncBad(r) ==
    LET rs == RulesOf(r.train)
        kept(mf) == KeptWith(rs, r.th, mf)
        zeroOk(mf) == \A k \in DOMAIN rs : (r.lab[k] = 0) <=> (rs[k] = mf \/ rs[k] \notin kept(mf))
        cands == { mf \in MostFrequent(rs) : zeroOk(mf) }
        meaning(mf, i) == IF i = 0 THEN mf ELSE rs[CHOOSE k \in DOMAIN rs : r.lab[k] = i]
        used == { r.lab[k] : k \in DOMAIN rs } \cup {0}
        answers(mf) == /\ \A k \in DOMAIN r.back : r.back[k] = Apply(meaning(mf, r.lab[k]), r.train[k][1])
                       /\ \A k \in DOMAIN r.qs : r.qs[k].id \in used => r.qs[k].lemma = Apply(meaning(mf, r.qs[k].id), r.qs[k].w)
        marks(mf) == /\ \A k \in DOMAIN r.apps : /\ Len(r.apps[k].v) = r.size
                                                 /\ \A i \in 0..(r.size - 1) : i \in used => r.apps[k].v[i + 1] = Reported(meaning(mf, i), r.apps[k].w)
    IN IF cands = {} THEN {"number-zero-is-a-most-frequent-rule"}
       ELSE Clause("one-number-per-rule", \A j, k \in DOMAIN rs : r.lab[j] # 0 /\ r.lab[k] # 0 => (r.lab[j] = r.lab[k] <=> rs[j] = rs[k]))
            \cup Clause("numbers-in-range", \A k \in DOMAIN rs : r.lab[k] \in 0..(r.size - 1))
            \cup Clause("frequent-rules-kept", \A mf \in cands : r.size = Cardinality(kept(mf)))
            \cup Clause("shapes", r.appsize = r.size)
            \cup Clause("predicted-rule-gives-the-lemma", \E mf \in cands : answers(mf))
            \cup Clause("applicability-marks", \E mf \in cands : marks(mf))
            \cup Clause("kept-rules-lossless", \E mf \in cands : \A k \in DOMAIN rs : rs[k] \in kept(mf) => r.back[k] = r.train[k][2])
            \cup Clause("own-rule-marked", \E mf \in cands : \A k \in DOMAIN rs : rs[k] \in kept(mf) => r.apps[k].v[r.lab[k] + 1])
            \cup Clause("other-annotations-kept", r.keeps)
JudgeC21(s, r) == Keep(s, CASE r.k = "rule" -> RuleBad(r) [] r.k = "order" -> OrderBad(r) [] r.k = "trie" -> TrieBad(r) [] r.k = "enc" -> EncBad(r))
=============================================================================

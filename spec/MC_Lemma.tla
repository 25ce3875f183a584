------------------------------ MODULE MC_Lemma ------------------------------
EXTENDS Lemma, Json, IOUtils
CONSTANTS MaxPairs, MaxWord, MaxLemma, Th
VARIABLES train
vars == <<train>>
Words == SeqsOf({1, 2}, 1, MaxWord)
Lemmas == SeqsOf({1, 2}, 0, MaxLemma)
Init == train = <<>>
Next == Len(train) < MaxPairs /\ \E w \in Words, l \in Lemmas : train' = Append(train, <<w, l>>)
Spec == Init /\ [][Next]_vars
RulesNow == Range0(RulesOf(train))
RuleRestoresLemma == \A k \in DOMAIN train : LET r == GetRule(train[k][1], train[k][2]) IN Matches(r, train[k][1]) /\ Transform(r, train[k][1]) = train[k][2]
RuleIsShortest == \A k \in DOMAIN train : LET r == GetRule(train[k][1], train[k][2]) IN
                     (r.ws # <<>> /\ r.ls # <<>>) => r.ws[1] # r.ls[1]
WalkIsDeclared == \A q \in Words : Walk(RulesNow, q) = { r \in RulesNow : Reported(r, q) }
ReportedApplies == \A q \in Words : \A r \in RulesNow : Reported(r, q) => Matches(r, q)
GoldIsReported == \A k \in DOMAIN train : Reported(GetRule(train[k][1], train[k][2]), train[k][1])
\* a kept rule gives the lemma back, whatever the most frequent rule
KeptIsLossless == \A mf \in MostFrequent(RulesOf(train)) : \A k \in DOMAIN train :
                     LET r == GetRule(train[k][1], train[k][2])
                         label == IF r \in KeptWith(RulesOf(train), Th, mf) THEN r ELSE mf IN
                     r \in KeptWith(RulesOf(train), Th, mf) => Apply(label, train[k][1]) = train[k][2]
Collect == IF train # <<>> THEN TLCSet(8, Append(TLCGet(8), train)) ELSE TRUE
CInit == Init /\ TLCSet(8, <<>>)
CSpec == CInit /\ [][Next]_vars
Write == JsonSerialize(IOEnv.OUT, TLCGet(8))
=============================================================================

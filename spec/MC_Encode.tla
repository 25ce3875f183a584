----------------------------- MODULE MC_Encode -----------------------------
(* Mode "labels": training labels; "pad": nested features; "batch": minibatches *)
EXTENDS Encode, Json, IOUtils
CONSTANTS Mode, N, M
VARIABLES s, k
vars == <<s, k>>
Labels == { None, <<1>>, <<2>>, <<3>> }
Trees1 == { Leaf(1), Leaf(2) }
Trees2 == { Node(x) : x \in SeqsOf({ Leaf(1) }, 0, M) }
Trees3 == { Node(x) : x \in SeqsOf(Trees2, 0, M) }
Choose0 == IF Mode = "labels" THEN Labels ELSE IF Mode = "pad" THEN Trees1 \cup Trees2 \cup Trees3 ELSE 1..1
Init == s = <<>> /\ k \in (IF Mode = "pad" THEN {0} ELSE 0..M)
Next == Len(s) < N /\ UNCHANGED k /\ (IF Mode = "batch" THEN s' = Append(s, Len(s) + 1) ELSE \E x \in Choose0 : s' = Append(s, x))
Spec == Init /\ [][Next]_vars
\* labels (k is the threshold)
Ids == IdList(s, k)
Lab == MapSeq(LAMBDA x : IdOf(Ids, x), s)
LabelsAreDictionary == Mode = "labels" /\ s # <<>> => IsDictionary(s, k, Lab, Len(Ids))
LabelsLossless == Mode = "labels" /\ s # <<>> => \A mf \in MostZero(s, k, Lab) : \A j \in DOMAIN s :
                     Meaning(s, mf, Lab, Lab[j]) = (IF Count(s, s[j]) > k \/ s[j] = mf THEN s[j] ELSE mf)
OneMeaning == Mode = "labels" /\ s # <<>> /\ Len(Ids) > 1 => Cardinality(MostZero(s, k, Lab)) = 1
\* vocabulary of numbers (k = minimal frequency)
Units == MapSeq(LAMBDA x : IF x = None THEN 0 ELSE x[1], s)
VocabularyIsInjective == Mode = "labels" => \A base \in {2, 4} :
    LET ids == VocabIds(Units, k, base) IN IsVocabulary(Frequent(Units, k), ids, base, Cardinality(Frequent(Units, k)) + base)
\* characters: reading back gives the known letters that fit
Letters == VocabIds(Units, k, 4)
Letter == [ i \in { Letters[u] : u \in DOMAIN Letters } |-> << CHOOSE u \in DOMAIN Letters : Letters[u] = i >> ]
CharsReadBack == Mode = "labels" => \A m \in 1..(N + 2) :
    ReadBack(Fit(WordSeq(Letters, Units), m), Letter) = SelectSeq(SubSeq(Units, 1, Min2(Len(Units), m - 1)), LAMBDA u : u \in DOMAIN Letters)
FitHasLength == Mode = "labels" => \A m \in 1..(N + 2) : Len(Fit(WordSeq(Letters, Units), m)) = m
\* padding
PadIsRectangular == Mode = "pad" /\ Homogeneous(s) => \A i, j \in DOMAIN s : SameShape(Pad(s)[i], Pad(s)[j])
PadKeepsValues == Mode = "pad" /\ Homogeneous(s) => Len(Pad(s)) = Len(s) /\ \A i \in DOMAIN s : Extends0(Pad(s)[i], s[i])
PadIsIdempotent == Mode = "pad" /\ Homogeneous(s) => Pad(Pad(s)) = Pad(s)
\* minibatches (k + 1 = size)
B == Minibatches(s, k + 1)
BatchesCover == Mode = "batch" => Concat(B) = s /\ \A i \in DOMAIN B : Len(B[i]) = k + 1 \/ (i = Len(B) /\ Len(B[i]) \in 1..k)
Collect == IF s # <<>> /\ (Mode # "batch") THEN TLCSet(8, Append(TLCGet(8), <<s, k>>)) ELSE TRUE
CInit == Init /\ TLCSet(8, <<>>)
CSpec == CInit /\ [][Next]_vars
Write == JsonSerialize(IOEnv.OUT, TLCGet(8))
=============================================================================

------------------------------- MODULE MC_Train -------------------------------
(* Mode "accs": every sequence of development scores; "shapes": every way of  *)
(* splitting sentences into documents, every order of the documents.          *)
EXTENDS Train, Json, IOUtils
CONSTANTS Mode, Epochs, Top, Size
VARIABLES a, st, order
vars == <<a, st, order>>
Init == a = <<>> /\ st = SInit /\ order = <<>>
Score == Mode = "accs" /\ Len(a) < Epochs /\ \E x \in 0..Top : a' = Append(a, x) /\ st' = Scored(st, x) /\ UNCHANGED order
Doc == Mode = "shapes" /\ order = <<>> /\ Len(a) < Epochs /\ \E n \in 0..Top : a' = Append(a, n) /\ UNCHANGED <<st, order>>
Order == Mode = "shapes" /\ order = <<>> /\ a # <<>> /\ \E p \in Permutations(DOMAIN a) : order' = [ k \in DOMAIN a |-> p[k] - 1 ] /\ UNCHANGED <<a, st>>
Next == Score \/ Doc \/ Order
Spec == Init /\ [][Next]_vars
ScheduleIsDeclared == st.cuts = (IF Mode = "accs" THEN DeclaredCuts(a) ELSE 0) /\ (Mode = "accs" => st.epoch = Len(a))
\* a model that gets better every time is never slowed down
RisingNeverCut == Mode = "accs" /\ (\A e \in DOMAIN a : AccAt(a, e) > AccAt(a, e - 1)) => st.cuts = 0
\* five equal scores after a first one that is no better end in a cut
LevelIsCut == Mode = "accs" /\ Len(a) >= 6 /\ (\A k \in 0..5 : a[Len(a) - k] = a[Len(a)]) => CutAfter(a, Len(a))
\* a single drop below the recent mean cuts, a score above the last one never does
AtMostOnePerEpoch == st.cuts <= st.epoch
NeverAfterRise == [][Mode = "accs" /\ AccAt(a', Len(a')) > AccAt(a', Len(a') - 1) => st'.cuts = st.cuts]_vars
\* batches of an epoch: every sentence of every document once, in the order of the documents
Docs == [ d \in DOMAIN a |-> [ k \in 1..a[d] |-> SumSeq(SubSeq(a, 1, d - 1)) + k - 1 ] ]
Batches == Minibatches(Flatten(order, Docs), Size)
EpochCovers == Mode = "shapes" => /\ Concat(Batches) = Flatten(order, Docs)
                                  /\ \A i \in DOMAIN Batches : Len(Batches[i]) = Size \/ (i = Len(Batches) /\ Len(Batches[i]) \in 1..Size)
                                  /\ Len(order) = Len(a) => IsPerm(Concat(Batches), Concat(Docs))
Collect == IF a # <<>> /\ order = <<>> THEN TLCSet(8, Append(TLCGet(8), a)) ELSE TRUE
CInit == Init /\ TLCSet(8, <<>>)
CSpec == CInit /\ [][Next]_vars
Write == JsonSerialize(IOEnv.OUT, TLCGet(8))
=============================================================================

-------------------------------- MODULE Train --------------------------------
(* Training of the neural tagger: epochs of minibatches, the learning rate    *)
(* between them, the model left after each epoch.                             *)
(* Scores are integers; the learning rate is decay steps and cuts.            *)
EXTENDS Encode

Window == 5
\* ------------------------------------------------ operational: the schedule --
\* epoch: number of the running epoch; win: the last scores, zeros before the first; cuts: how often the rate was divided
SInit == [epoch |-> 0, win |-> [ k \in 1..Window |-> 0 ], cuts |-> 0]
Stagnates(st, acc) == acc <= st.win[Window] /\ acc * Window <= SumSeq(st.win)
Scored(st, acc) == [epoch |-> st.epoch + 1, win |-> Append(Tail(st.win), acc), cuts |-> IF Stagnates(st, acc) THEN st.cuts + 1 ELSE st.cuts]
\* ------------------------------------------------------------- declaration --
AccAt(a, e) == IF e <= 0 THEN 0 ELSE a[e]
CutAfter(a, e) == /\ AccAt(a, e) <= AccAt(a, e - 1)
                  /\ Window * AccAt(a, e) <= SumSeq([ k \in 1..Window |-> AccAt(a, e - k) ])
DeclaredCuts(a) == Cardinality({ e \in DOMAIN a : CutAfter(a, e) })

\* -------------------------------------------------- operational: the epochs --
\* one epoch: read the data in its present order, train on the batches, save
Flatten(order, docs) == Concat([ k \in DOMAIN order |-> docs[order[k] + 1] ])
=============================================================================

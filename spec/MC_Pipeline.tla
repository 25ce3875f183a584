----------------------------- MODULE MC_Pipeline -----------------------------
(* Mode "chains": every chain of stages over a stream; "heads": every head vector *)
EXTENDS Pipeline, Json, IOUtils
CONSTANTS Mode, MaxStages, MaxDocs
VARIABLES stages, n
vars == <<stages, n>>
Kinds == {"map", "drop", "dup", "pair", "all"}
Init == stages = <<>> /\ n \in (IF Mode = "chains" THEN 0..MaxDocs ELSE {0})
Next == Len(stages) < MaxStages /\ UNCHANGED n
        /\ (\/ Mode = "chains" /\ \E k \in Kinds : stages' = Append(stages, <<k, Len(stages)>>)
            \/ Mode = "chains" /\ \E j \in DOMAIN stages : stages' = Append(stages, stages[j])
            \/ Mode = "heads" /\ \E k \in -1..MaxDocs : stages' = Append(stages, k))
Spec == Init /\ [][Next]_vars
S == [ i \in 1..n |-> <<99 + i>> ]
All == Composed(stages, 1, S)
St == Streamed(stages, S)
StreamingIsComposition == Mode = "chains" => St.out \o Flush(stages, St.gs, 1) = All
StreamingIsPrefix == Mode = "chains" => Len(St.out) <= Len(All) /\ St.out = SubSeq(All, 1, Len(St.out))
NeededGrows == Mode = "chains" => \A j \in 1..(Len(All) - 1) : Needed(stages, S, j) <= Needed(stages, S, j + 1)
HeadsRoundTrip == Mode = "heads" => \A k \in DOMAIN stages : ToUd(FromUd(stages[k])) = stages[k]
MorphRoundTrip == \A w \in [form : {<<1>>}, u : {"", "N"}, x : {"", "x"}, f : { <<>>, << <<"A", "p">> >> }, lemma : { <<>>, <<5>> }] :
                      LET m == MorphOf(w) IN WordOf([form |-> w.form, pos |-> m.pos, lemma |-> m.lemma]) = w
Collect == IF Mode = "chains" THEN TLCSet(8, Append(TLCGet(8), <<stages, n>>))
           ELSE IF \A k \in DOMAIN stages : stages[k] <= Len(stages) THEN TLCSet(8, Append(TLCGet(8), stages)) ELSE TRUE
CInit == Init /\ TLCSet(8, <<>>)
CSpec == CInit /\ [][Next]_vars
Write == JsonSerialize(IOEnv.OUT, TLCGet(8))
=============================================================================

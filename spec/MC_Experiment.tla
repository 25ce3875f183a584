---------------------------- MODULE MC_Experiment ----------------------------
EXTENDS Experiment, Json, IOUtils
CONSTANTS NP, NS, NE, Top, Dispose
VARIABLES x, dev, pc
vars == <<x, dev, pc>>
Init == x = StartSeed(XInit) /\ dev = <<>> /\ pc = "train"
Train == pc = "train" /\ \E sc \in 0..Top : dev' = dev @@ (<<x.p, x.s, x.e>> :> sc) /\ x' = Trained(x) /\ pc' = "decide"
Choose1 == pc = "decide" /\ LET st == Decide(x, dev[<<x.p, x.s, x.e>>], Dispose) IN
          x' = st /\ pc' = (IF st.e = NE THEN "seed" ELSE "train") /\ UNCHANGED dev
Seed == pc = "seed" /\ LET st == EndSeed(x) IN
        IF Len(st.done) = NS THEN x' = st /\ pc' = "params" /\ UNCHANGED dev ELSE x' = StartSeed(st) /\ pc' = "train" /\ UNCHANGED dev
Params == pc = "params" /\ LET st == EndParams(x, Dispose) IN
          IF st.p = NP THEN x' = st /\ pc' = "test" /\ UNCHANGED dev ELSE x' = StartSeed(st) /\ pc' = "train" /\ UNCHANGED dev
Next == Train \/ Choose1 \/ Seed \/ Params
Spec == Init /\ [][Next]_vars
\* at every point (so also after a crash there) everything that can still win is on disk
NothingNeededIsLost == Winners(x) \cup RunningBests(x) \subseteq x.disk
NothingElseKept == Dispose => x.disk \subseteq Winners(x) \cup RunningBests(x) \cup (IF pc = "decide" THEN { <<x.p, x.s, x.e>> } ELSE {})
KeepsAll == ~Dispose => x.disk = { m \in DOMAIN dev : TRUE }
WinnerIsDeclared == pc = "test" => Winners(x) = DeclaredWinners(dev, NP, NS, NE)
\* replay: every table of development scores
Table == [ p \in 1..NP |-> [ s \in 1..NS |-> [ e \in 1..NE |-> dev[<<p - 1, s - 1, e - 1>>] ] ] ]
Collect == IF pc = "test" THEN TLCSet(8, Append(TLCGet(8), Table)) ELSE TRUE
CInit == Init /\ TLCSet(8, <<>>)
CSpec == CInit /\ [][Next]_vars
Write == JsonSerialize(IOEnv.OUT, TLCGet(8))
=============================================================================

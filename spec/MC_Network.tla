------------------------------ MODULE MC_Network ------------------------------
(* Mode "conf": every configuration over small sets; "life": every history of *)
(* models and saved copies of at most N operations; "again": a place is used  *)
(* for one network and then for another.                                      *)
EXTENDS Network, Json, IOUtils
CONSTANTS Mode, N
VARIABLES c, s, ops
vars == <<c, s, ops>>
Kernels == { <<>>, <<<<3, 4, 1>>>>, <<<<2, 4, 1>>>>, <<<<3, 4, 2>>>>, <<<<3, 2, 1>>, <<3, 6, 2>>>>, <<<<2, 6, 3>>>>, <<<<3, 1, 4>>>> }
Subs == { <<>>, <<"cnn">>, <<"average">>, <<"rnn">>, <<"self-attention">> }
Froms == {"word_features", "bilstm", "bilstm_and_word_features", "bilstm_cnn", "dilated_cnn", "dilated_cnn_and_word_features"}
Small == N < 3
Confs == [shared : Builders, layers : IF Small THEN {1, 2} ELSE {0, 1, 2}, skip : {"", "sum", "concat"} \cup (IF Small THEN {} ELSE {"other"}), cell : {2}, kernels : Kernels,
          word : {0, 1, 4}, sub : Subs, highway : {FALSE}, from : Froms, opt : {"GD"} \cup (IF Small THEN {} ELSE {"AdaGrad"}), tasks : {<<<<"pos_dense", "pos_UXF">>>>} \cup (IF Small THEN {} ELSE {<<>>})]
NoConf == [shared |-> "none"]
\* two seeds of one network, and another network
Seeds == {1, 2, 3}
Ops == { [op |-> "new", m |-> 0, x |-> x, p |-> ""] : x \in Seeds }
       \cup { [op |-> "load", m |-> 0, x |-> 0, p |-> p] : p \in {"a", "b"} }
       \cup { [op |-> "train", m |-> m, x |-> x, p |-> ""] : m \in DOMAIN s.ver, x \in {11, 12} }
       \cup { [op |-> o, m |-> m, x |-> 0, p |-> ""] : m \in DOMAIN s.ver, o \in {"still", "predict", "close"} }
       \cup { [op |-> "save", m |-> m, x |-> 0, p |-> p] : m \in DOMAIN s.ver, p \in {"a", "b"} }
Init == /\ s = LifeInit /\ ops = <<>>
        /\ c = NoConf
\* "again": one network after another is saved at a place from which the first one was loaded
Order == <<"new", "save", "load", "train", "new", "save", "load", "predict">>
NetOf(m) == s.ver[m][1] = 3
Again(o) == LET k == Len(ops) + 1 IN
    /\ o.op = Order[k]
    /\ k \in {3, 7} => o.p = ops[k - 1].p
    /\ k = 6 => o.p = ops[2].p /\ NetOf(o.m) # NetOf(1)
    /\ k = 8 => o.m = Len(s.ver)
Allowed(o) == IF Mode = "life" THEN Len(ops) < N /\ (Len(s.ver) >= 3 => o.op \notin {"new", "load"})
              ELSE Mode = "again" /\ Len(ops) < Len(Order) /\ Again(o)
Do == Mode \in {"life", "again"} /\ \E o \in Ops : Enabled(s, o) /\ Allowed(o) /\ s' = LifeStep(s, o) /\ ops' = Append(ops, o) /\ UNCHANGED c
Pick == Mode = "conf" /\ c = NoConf /\ c' \in Confs /\ UNCHANGED <<s, ops>>
Next == Do \/ Pick
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------- conf ---
IsConf == Mode = "conf" /\ c # NoConf /\ Buildable(c)
ReachIsWindow == IsConf => \A n \in 1..5 : \A i, j \in 1..n : (i \in Reach(n, c)[j] => InWindow(c, i, j))
\* without holes between the taps the window is filled
DenseKernels == \A k \in DOMAIN c.kernels : c.kernels[k][3] = 1
WindowIsReach == IsConf /\ DenseKernels => \A n \in 1..5 : \A i, j \in 1..n : (InWindow(c, i, j) => i \in Reach(n, c)[j])
SeesItself == IsConf => \A n \in 1..4 : \A j \in 1..n : (c.from = "dilated_cnn" /\ \E k \in DOMAIN c.kernels : 0 \notin Taps(c.kernels[k])) \/ j \in Reach(n, c)[j]
SumKeepsWidth == IsConf /\ c.skip = "sum" /\ c.shared # "WE_charCNN" => MiddleWidth(c) = WordWidth(c)
\* ------------------------------------------------------------------- life ---
IsPre(v, w) == Len(v) <= Len(w) /\ SubSeq(w, 1, Len(v)) = v
\* every version comes from a seed, and its steps were made with some model in that order
VersionsFromSeeds == \A m \in DOMAIN s.ver : Len(s.ver[m]) > 0 /\ s.ver[m][1] \in Seeds /\ \A k \in 2..Len(s.ver[m]) : s.ver[m][k] \in {11, 12}
FilesAreVersions == \A k \in DOMAIN s.files : s.files[k][2][1] \in Seeds
OneFilePerName == \A j, k \in DOMAIN s.files : s.files[j][1] = s.files[k][1] => j = k
\* declarative: the version of a model is determined by the operations on it and on the file it was loaded from
RECURSIVE VersionOf(_, _), FileOf(_, _)
\* the m-th model after the first t operations
Births(t) == { k \in 1..t : ops[k].op \in {"new", "load"} }
BirthOf(m) == CHOOSE k \in DOMAIN ops : ops[k].op \in {"new", "load"} /\ Cardinality(Births(k)) = m
VersionOf(m, t) == LET b == BirthOf(m)
                       start == IF ops[b].op = "new" THEN <<ops[b].x>> ELSE FileOf(ops[b].p, b - 1)
                       steps == SelectSeq(SubSeq(ops, b + 1, t), LAMBDA o : o.op = "train" /\ o.m = m)
                   IN start \o MapSeq(LAMBDA o : o.x, steps)
FileOf(p, t) == LET last == Max({ k \in 1..t : ops[k].op = "save" /\ ops[k].p = p }) IN VersionOf(ops[last].m, last - 1)
VersionsAreDeclared == /\ \A m \in DOMAIN s.ver : s.ver[m] = VersionOf(m, Len(ops))
                       /\ \A k \in DOMAIN s.files : s.files[k][2] = FileOf(s.files[k][1], Len(ops))
OthersUntouched == [][\A m \in DOMAIN s.ver : s'.ver[m] # s.ver[m] => ops'[Len(ops')].m = m /\ IsPre(s.ver[m], s'.ver[m]) /\ s'.files = s.files]_vars

Interesting == Len(ops) = N /\ \E j, k \in DOMAIN ops : j < k /\ ops[j].op = "save" /\ ops[k].op = "load"
Collect == CASE Mode = "conf" -> IF c # NoConf /\ Cardinality(Faults(c)) <= 1 THEN TLCSet(8, Append(TLCGet(8), [c |-> c, f |-> SetToSeq(Faults(c))])) ELSE TRUE
             [] Mode = "again" -> IF Len(ops) = Len(Order) THEN TLCSet(8, Append(TLCGet(8), ops)) ELSE TRUE
             [] OTHER -> IF Interesting THEN TLCSet(8, Append(TLCGet(8), ops)) ELSE TRUE
CInit == Init /\ TLCSet(8, <<>>)
CSpec == CInit /\ [][Next]_vars
Write == JsonSerialize(IOEnv.OUT, TLCGet(8))
=============================================================================

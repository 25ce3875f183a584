------------------------------- MODULE Network -------------------------------
(* The network behind the tagger: which configurations make a network, what  *)
(* a word's scores may depend on, how the loss is made up, what a training   *)
(* step does, and the life of models and saved copies.                       *)
EXTENDS Encode

\* ========================================================= configurations ===
\* c: shared builder, layers, skip, cell, kernels <<<<size, count, dilation>>, ...>>, word (size of the trained word embedding, 0: none),
\*    sub (aggregators of the subword features), highway, from (the shared output the tasks read), opt, tasks
EmbedSize == 3
LastCount(c) == IF c.kernels = <<>> THEN 0 ELSE c.kernels[Len(c.kernels)][2]
SubKernel == <<3, 4, 1>>                                        \* the subword CNN of all configurations
SubCell == 2
SubWidth(a) == CASE a = "cnn" -> SubKernel[2] [] a = "rnn" -> 2 * SubCell [] OTHER -> EmbedSize
WordWidth(c) == c.word + SumSeq(MapSeq(SubWidth, c.sub))
Recurrent(c) == c.shared \in {"BiLSTM", "BiLSTM_CNN"}
Middle(c) == IF Recurrent(c) THEN "bilstm" ELSE "dilated_cnn"
MiddleWidth(c) == IF Recurrent(c) THEN 2 * c.cell ELSE LastCount(c)
Builders == {"WE_charCNN", "BiLSTM", "BiLSTM_CNN", "Dilated_CNN"}
Outputs(c) == {"word_features"} \cup (IF c.shared = "WE_charCNN" THEN {} ELSE {Middle(c)})
              \cup (IF c.shared # "WE_charCNN" /\ c.skip # "" THEN {Middle(c) \o "_and_word_features"} ELSE {})
              \cup (IF c.shared = "BiLSTM_CNN" THEN {"bilstm_cnn"} ELSE {})
\* the reasons why a configuration makes no network
Faults(c) ==
    LET Why(name, ok) == IF ok THEN {} ELSE {name} IN
    Why("builder", c.shared \in Builders)
    \cup Why("no-features", WordWidth(c) > 0)
    \cup Why("layers", Recurrent(c) => c.layers > 0)
    \cup Why("kernels", c.shared \in {"Dilated_CNN", "BiLSTM_CNN"} => c.kernels # <<>>)
    \cup Why("skip", c.shared # "WE_charCNN" => c.skip \in {"", "sum", "concat"})
    \cup Why("sum-of-widths", c.shared # "WE_charCNN" /\ c.skip = "sum" => MiddleWidth(c) = WordWidth(c))
    \cup Why("tasks", c.tasks # <<>>)
    \cup Why("shared-output", c.from \in Outputs(c))
    \cup Why("optimizer", c.opt \in {"GD", "Adam", "RMSProp"})
Buildable(c) == Faults(c) = {}

\* ================================================================== reach ===
\* operational: which words of a sentence of n words a layer lets word j see
Local(n) == [ j \in 1..n |-> {j} ]
All(n) == [ j \in 1..n |-> 1..n ]
Taps(k) == LET total == (k[1] - 1) * k[3]
               left == total \div 2                              \* the odd one is on the right
           IN { i * k[3] - left : i \in 0..(k[1] - 1) }
ConvReach(n, seen, k) == [ j \in 1..n |-> UNION { seen[j + o] : o \in { o \in Taps(k) : j + o \in 1..n } } ]
Reach(n, c) ==
    CASE c.from = "word_features" -> Local(n)
      [] Recurrent(c) -> All(n)
      [] OTHER -> LET conv == FoldLeft(LAMBDA seen, k : ConvReach(n, seen, k), Local(n), c.kernels)
                  IN IF c.from = "dilated_cnn" THEN conv ELSE [ j \in 1..n |-> conv[j] \cup {j} ]
\* declarative: a window
WindowLeft(c) == SumSeq(MapSeq(LAMBDA k : ((k[1] - 1) * k[3]) \div 2, c.kernels))
WindowRight(c) == SumSeq(MapSeq(LAMBDA k : (k[1] - 1) * k[3] - (((k[1] - 1) * k[3]) \div 2), c.kernels))
InWindow(c, i, j) == IF c.from = "word_features" THEN i = j
                     ELSE IF Recurrent(c) THEN TRUE ELSE (i >= j - WindowLeft(c) /\ i <= j + WindowRight(c)) \/ i = j
\* nothing of other sentences of the batch can be seen: convolutions and maxima see the filling
Independent(c) == (\A k \in DOMAIN c.sub : c.sub[k] = "average") /\ (c.shared # "Dilated_CNN" \/ c.from = "word_features")

\* =================================================================== loss ===
\* weights are thousandths; the default applies to parts without a weight of their own; no weights at all: 1
PartWeight(ws, p) == IF ws = <<>> THEN 1000
                     ELSE IF \E k \in DOMAIN ws : ws[k][1] = p THEN ws[CHOOSE k \in DOMAIN ws : ws[k][1] = p][2]
                     ELSE ws[CHOOSE k \in DOMAIN ws : ws[k][1] = "default"][2]
\* loss of a batch = sum over its units (task, sentence, word, part, character position) of  weight * own loss / divisor
Divisor(task, tokens, maxlen) == SumSeq(tokens) * (IF task = "lemma_combo" THEN maxlen ELSE 1)

\* ================================================================== steps ===
ClipNorm == 5000                                                 \* thousandths
RECURSIVE Root(_, _)
Root(x, r) == LET s == (r + x \div r) \div 2 IN IF s >= r THEN r ELSE Root(x, s)
Sqrt(x) == IF x = 0 THEN 0 ELSE Root(x, x)

\* =================================================================== life ===
\* A version is what has been done to the parameters: <<seed>> \o the training steps that change something.
\* state: ver (versions of the models), open, files (pairs of name and version)
LifeInit == [ver |-> <<>>, open |-> <<>>, files |-> <<>>]
FileAt(s, p) == { k \in DOMAIN s.files : s.files[k][1] = p }
FileVer(s, p) == s.files[CHOOSE k \in FileAt(s, p) : TRUE][2]
Opened(s, v) == [s EXCEPT !.ver = Append(@, v), !.open = Append(@, TRUE)]
Enabled(s, o) == CASE o.op = "new" -> TRUE
                   [] o.op = "load" -> FileAt(s, o.p) # {}
                   [] OTHER -> o.m \in DOMAIN s.ver /\ s.open[o.m]
LifeStep(s, o) ==
    CASE o.op = "new" -> Opened(s, <<o.x>>)
      [] o.op = "load" -> Opened(s, FileVer(s, o.p))
      [] o.op = "train" -> [s EXCEPT !.ver[o.m] = Append(@, o.x)]
      [] o.op = "still" -> s                                    \* a step with learning rate 0
      [] o.op = "predict" -> s
      [] o.op = "save" -> [s EXCEPT !.files = Append(SelectSeq(@, LAMBDA f : f[1] # o.p), <<o.p, s.ver[o.m]>>)]
      [] o.op = "close" -> [s EXCEPT !.open[o.m] = FALSE]
=============================================================================

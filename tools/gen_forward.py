import math
U=40000
sig=[round(U/(1+math.exp(-k/16))) for k in range(195)]
ex=[round(U*math.exp(-k/16)) for k in range(195)]
def seq(xs):
    out=[];line='    '
    for x in xs:
        t='%d, '%x
        if len(line)+len(t)>150: out.append(line.rstrip());line='    '
        line+=t
    out.append(line.rstrip().rstrip(','))
    return '<<\n'+'\n'.join(out)+' >>'
body=r'''------------------------------ MODULE Forward ------------------------------
(* What the network computes: embeddings, subword layers, sentence layers,    *)
(* task layers.  Numbers are integers in units of 1/40000; the weights are    *)
(* small whole numbers.  Weights are known by their shape: all variables of   *)
(* one shape have the same value, so that names and order of creation do not  *)
(* matter.                                                                    *)
EXTENDS Network

U == 40000
SigTab == %s
ExpTab == %s
\* between entries (steps of 1/16) the function is taken as a parabola
Inter(tab, a) == LET k == (16 * a) \div U
                     rest == 16 * a - k * U
                     d1 == tab[k + 2] - tab[k + 1]
                     d2 == tab[k + 3] - 2 * tab[k + 2] + tab[k + 1]
                 IN tab[k + 1] + (d1 * rest + U \div 2) \div U - (d2 * ((rest * (U - rest)) \div U) + U) \div (2 * U)
Sig(z) == LET a == Abs0(z)
              v == IF a >= 12 * U THEN U ELSE Inter(SigTab, a)
          IN IF z >= 0 THEN v ELSE U - v
Tanh(z) == 2 * Sig(IF Abs0(z) > 10 * U THEN (IF z > 0 THEN 20 * U ELSE -20 * U) ELSE 2 * z) - U
ExpNeg(a) == IF a >= 12 * U THEN 0 ELSE Inter(ExpTab, a)       \* e to the power -a
Times(g, y) == (y \div U) * g + ((y %% U) * g + U \div 2) \div U        \* g from -U to U
Relu(z) == IF z > 0 THEN z ELSE 0

\* weights: sequence of [sh |-> shape, v |-> values in row-major order]
Has(w, sh) == \E k \in DOMAIN w : w[k].sh = sh
Val(w, sh) == w[CHOOSE k \in DOMAIN w : w[k].sh = sh].v
Row(w, sh, i) == LET v == Val(w, sh) IN [ x \in 1..sh[2] |-> v[i * sh[2] + x] * U ]
VAdd(x, y) == [ i \in DOMAIN x |-> x[i] + y[i] ]
VMax(xs) == [ i \in DOMAIN xs[1] |-> Max({ xs[k][i] : k \in DOMAIN xs }) ]

\* ----------------------------------------------------------------- layers ---
Affine(w, x, m) == TLCEval(LET sh == <<Len(x), m>>
                               v == Val(w, sh)
                               b == Val(w, <<m>>)
                           IN [ j \in 1..m |-> SumSeq([ i \in DOMAIN x |-> x[i] * v[(i - 1) * m + j] ]) + b[j] * U ])
DenseRelu(w, x, m) == TLCEval(MapSeq(Relu, Affine(w, x, m)))
\* one convolution over a sequence of vectors, filled with zeros outside, followed by relu
Conv(w, xs, k) == TLCEval(LET in == Len(xs[1])
                              v == Val(w, <<1, k[1], in, k[2]>>)
                              left == ((k[1] - 1) * k[3]) \div 2
                              At0(t) == IF t \in DOMAIN xs THEN xs[t] ELSE <<>>
                          IN [ t \in DOMAIN xs |-> [ o \in 1..k[2] |->
                                 Relu(SumSeq([ a \in 1..k[1] |-> LET x == At0(t + (a - 1) * k[3] - left)
                                                                 IN SumSeq([ i \in DOMAIN x |-> x[i] * v[((a - 1) * in + i - 1) * k[2] + o] ]) ])) ] ])
Convs(w, xs, ks) == FoldLeft(LAMBDA acc, k : Conv(w, acc, k), xs, ks)
\* one step of a cell with n units; the gates stand in the order input, new value, forget (with bias one), output
CellStep(w, st, x, n) ==
    TLCEval(LET z == Affine(w, x \o st.h, 4 * n)
                c == [ i \in 1..n |-> Times(Sig(z[2 * n + i] + U), st.c[i]) + Times(Sig(z[i]), Tanh(z[n + i])) ]
            IN [c |-> c, h |-> [ i \in 1..n |-> Times(Sig(z[3 * n + i]), Tanh(c[i])) ]])
Zero(n) == [ i \in 1..n |-> 0 ]
RunCell(w, xs, n) == TLCEval(FoldLeft(LAMBDA acc, x : LET s == CellStep(w, acc.s, x, n) IN [s |-> s, out |-> Append(acc.out, s.h)],
                                      [s |-> [c |-> Zero(n), h |-> Zero(n)], out |-> <<>>], xs).out)
\* both directions; fb: the forward direction stands first
BiCell(w, xs, n, fb) == LET f == RunCell(w, xs, n)
                            b == Reverse(RunCell(w, Reverse(xs), n))
                        IN TLCEval([ t \in DOMAIN xs |-> IF fb THEN f[t] \o b[t] ELSE b[t] \o f[t] ])
\* later layers add to what they are given
BiLayers(w, xs, n, layers, fb) ==
    FoldLeft(LAMBDA acc, i : LET y == BiCell(w, acc, n, fb) IN IF i = 1 THEN y ELSE TLCEval([ t \in DOMAIN y |-> VAdd(acc[t], y[t]) ]), xs, [ i \in 1..layers |-> i ])
\* the gate decides between the new value and the old one (the gate's weights have the shape of those of the new value)
Highway(w, x, y) == TLCEval(LET g == Affine(w, x, Len(x)) IN [ i \in DOMAIN x |-> Times(Sig(g[i]), y[i]) + Times(U - Sig(g[i]), x[i]) ])

\* ------------------------------------------------------------ aggregators ---
Attention(xs, e) ==
    TLCEval(LET sum == [ i \in 1..e |-> SumSeq([ t \in DOMAIN xs |-> xs[t][i] \div U ]) ]
                dot == [ t \in DOMAIN xs |-> Sqrt(e) * SumSeq([ i \in 1..e |-> (xs[t][i] \div U) * sum[i] ]) ]
                top == Max(Range0(dot))
                p == [ t \in DOMAIN xs |-> IF top - dot[t] > 12 THEN 0 ELSE ExpNeg((top - dot[t]) * U) ]
                all == SumSeq(p)
            IN [ i \in 1..e |-> SumSeq([ t \in DOMAIN xs |-> ((xs[t][i] \div U) * p[t] * 10000) \div all ]) * (U \div 10000) ])
\* ids: the numbers of the subwords of one word, filled up
SubVector(w, sub, rows, ids, fb) ==
    LET xs == TLCEval([ t \in DOMAIN ids |-> Row(w, <<rows, sub.e>>, ids[t]) ])
        real == { t \in DOMAIN ids : ids[t] # Padding }
        plain == CASE sub.agg = "cnn" -> VMax(Convs(w, xs, sub.kernels))
                   [] sub.agg = "average" -> [ i \in 1..sub.e |-> IF real = {} THEN 0 ELSE SumSeq([ t \in DOMAIN ids |-> IF t \in real THEN xs[t][i] ELSE 0 ]) \div Cardinality(real) ]
                   [] sub.agg = "self-attention" -> Attention(xs, sub.e)
                   [] sub.agg = "rnn" -> LET h == BiLayers(w, xs, sub.cell, sub.layers, fb) IN VMax([ t \in DOMAIN h |-> DenseRelu(w, h[t], 2 * sub.cell) ])
        v == TLCEval(plain)
    IN IF sub.highway THEN Highway(w, v, DenseRelu(w, v, Len(v))) ELSE v

\* ----------------------------------------------------------------- shared ---
\* a layout fixes the order in which vectors are put together, which a network may choose as it likes
Layouts(r) == LET n == Len(r.c.subs) + (IF r.c.word > 0 THEN 1 ELSE 0) + (IF r.c.pre # <<>> THEN 1 ELSE 0)
              IN [perm |-> { p \in [1..n -> 1..n] : \A i, j \in 1..n : p[i] = p[j] => i = j }, skip |-> BOOLEAN, fb |-> BOOLEAN, ce |-> IF r.c.combo = <<>> THEN {TRUE} ELSE BOOLEAN]
Blocks(r, s, j, l) ==
    (IF r.c.pre = <<>> THEN <<>> ELSE <<LET v == Row(r.w, <<r.rows.pre, r.c.pre[1]>>, r.in.pre[s][j]) IN IF r.c.pre[2] = 0 THEN v ELSE DenseRelu(r.w, v, r.c.pre[2])>>)
    \o (IF r.c.word = 0 THEN <<>> ELSE <<Row(r.w, <<r.rows.word, r.c.word>>, r.in.word[s][j])>>)
    \o [ k \in DOMAIN r.c.subs |-> SubVector(r.w, r.c.subs[k], r.rows.subs[k], r.in.subs[k][s][j], l.fb) ]
WordVector(r, s, j, l) == TLCEval(LET b == TLCEval(Blocks(r, s, j, l)) IN Concat([ k \in DOMAIN b |-> b[l.perm[k]] ]))
Skip(r, l, x, y) == CASE r.c.skip = "sum" -> VAdd(x, y) [] OTHER -> IF l.skip THEN x \o y ELSE y \o x
\* what the tasks are given for the words of sentence s; every sentence is filled up to the longest
SharedVectors(r, s, l) ==
    LET c == r.c
        n == r.lens[s]
        full == Max(Range0(r.lens))
        word == TLCEval([ j \in 1..full |-> WordVector(r, s, j, l) ])
        real == SubSeq(word, 1, n)
        mid == TLCEval(IF Recurrent(c) THEN BiLayers(r.w, real, c.cell, c.layers, l.fb) ELSE IF c.shared = "Dilated_CNN" THEN Convs(r.w, word, c.kernels) ELSE word)
        both == TLCEval([ j \in 1..n |-> IF c.skip = "" THEN mid[j] ELSE Skip(r, l, mid[j], word[j]) ])
        One(x) == VMax(Convs(r.w, [ i \in DOMAIN x |-> <<x[i]>> ], c.kernels))        \* a convolution over the numbers of one word
    IN CASE c.from = "word_features" -> real
         [] c.from = Middle(c) -> SubSeq(mid, 1, n)
         [] c.from = Middle(c) \o "_and_word_features" -> both
         [] c.from = "bilstm_cnn" -> TLCEval([ j \in 1..n |-> One(both[j]) ])

\* ------------------------------------------------------------------ tasks ---
DenseScores(r, x, labels) == Affine(r.w, DenseRelu(r.w, x, r.c.dense), labels)
\* the characters of one word: what the word is given stands beside every character
ComboScores(r, s, j, x, labels, l) ==
    LET cb == r.c.combo[1]
        d == TLCEval(MapSeq(Tanh, Affine(r.w, x, cb.d)))
        ids == r.in.combo[s][j]
        ce == TLCEval([ t \in 1..r.maxlen |-> IF t <= Len(ids) THEN Row(r.w, <<r.rows.combo, cb.e>>, ids[t]) ELSE Zero(cb.e) ])
        conv == Convs(r.w, [ t \in 1..r.maxlen |-> IF l.ce THEN d \o ce[t] ELSE ce[t] \o d ], cb.kernels)
        top == TLCEval([ t \in 1..r.maxlen |-> IF cb.highway THEN Highway(r.w, ce[t], conv[t]) ELSE conv[t] ])
        v == Val(r.w, <<1, 1, Len(top[1]), labels>>)
    IN TLCEval([ t \in 1..r.maxlen |-> [ o \in 1..labels |-> SumSeq([ i \in DOMAIN top[t] |-> top[t][i] * v[(i - 1) * labels + o] ]) ] ])
\* scores count from that of the first label
FromFirst(x) == [ i \in DOMAIN x |-> x[i] - x[1] ]
=============================================================================
''' % (seq(sig), seq(ex))
body=body.replace("EXTENDS Network\n","EXTENDS Network\nAbs0(x) == IF x < 0 THEN -x ELSE x\n")
open('/verif/spec/Forward.tla','w').write(body)

------------------------------ MODULE MC_Forward ------------------------------
(* The layers on every sequence of at most N vectors of two small whole       *)
(* numbers, with some weights.                                                *)
EXTENDS Forward
CONSTANT N
VARIABLES xs, salt
vars == <<xs, salt>>
Vals == {-1, 0, 2}
W(shapes, m) == [ k \in DOMAIN shapes |-> [sh |-> shapes[k], v |-> [ i \in 1..FoldLeft(LAMBDA a, x : a * x, 1, shapes[k]) |-> ((i * 7 + m * i * i + k) % 4) - 1 ]] ]
Kern == {<<1, 2, 1>>, <<2, 2, 1>>, <<3, 2, 1>>, <<3, 2, 2>>, <<2, 2, 3>>}
WS == [ m \in 0..2 |-> W(<< <<1, 1, 2, 2>>, <<1, 2, 2, 2>>, <<1, 3, 2, 2>>, <<4, 8>>, <<8>>, <<2, 2>>, <<2>>, <<6, 8>>, <<4, 4>>, <<4>> >>, m) ]
ws == WS[salt]
Init == xs = <<>> /\ salt \in 0..2
Next == Len(xs) < N /\ \E x, y \in Vals : xs' = Append(xs, <<x * U, y * U>>) /\ UNCHANGED salt
Spec == Init /\ [][Next]_vars
Some0 == xs # <<>>
\* a convolution of size 1 is the same affine map for every vector
OneByOne == Some0 => \A t \in DOMAIN xs : Conv(ws, xs, <<1, 2, 1>>)[t] = MapSeq(Relu, [ o \in 1..2 |-> SumSeq([ i \in 1..2 |-> xs[t][i] * Val(ws, <<1, 1, 2, 2>>)[(i - 1) * 2 + o] ]) ])
\* what a convolution sees is what the specification of reach says
Changed(t) == [xs EXCEPT ![t] = <<3 * U, -2 * U>>]
ConvSees == Some0 => \A k \in Kern, t \in DOMAIN xs : LET a == Conv(ws, xs, k) b == Conv(ws, Changed(t), k)
                IN \A j \in DOMAIN xs : a[j] # b[j] => t \in ConvReach(Len(xs), Local(Len(xs)), k)[j]
CellsSeeThePast == Some0 => \A t \in DOMAIN xs : LET a == RunCell(ws, xs, 2) b == RunCell(ws, Changed(t), 2) IN \A j \in DOMAIN xs : j < t => a[j] = b[j]
Bounded == Some0 => \A t \in DOMAIN xs : \A i \in 1..2 : LET h == RunCell(ws, xs, 2)[t][i] IN Abs0(h) <= U
\* reading backwards turns both directions round
Mirrored == Some0 => Reverse(BiCell(ws, Reverse(xs), 2, TRUE)) = BiCell(ws, xs, 2, FALSE)
LayersAdd == Some0 => LET one == BiLayers(ws, xs, 2, 1, TRUE) two == BiLayers(ws, xs, 2, 2, TRUE) more == BiCell(ws, one, 2, TRUE)
                      IN \A t \in DOMAIN xs : two[t] = VAdd(one[t], more[t])
GateBetween == Some0 => LET y == DenseRelu(ws, xs[1], 2) h == Highway(ws, xs[1], y) IN \A i \in 1..2 : h[i] >= Min2(xs[1][i], y[i]) - 2 /\ h[i] <= Max2(xs[1][i], y[i]) + 2
AttentionIsMean == Some0 => LET a == Attention(xs, 2) IN \A i \in 1..2 : /\ a[i] >= Min({ xs[t][i] : t \in DOMAIN xs }) - U \div 1000
                                                                        /\ a[i] <= Max({ xs[t][i] : t \in DOMAIN xs }) + U \div 1000
                                                                        /\ Abs0(a[i] - Attention(Reverse(xs), 2)[i]) <= U \div 1000
Curves == Some0 => \A i \in 1..2 : LET z == xs[1][i] * 2 + SumSeq([ t \in DOMAIN xs |-> xs[t][3 - i] ]) \div 16 IN
                /\ Sig(z) + Sig(-z) = U /\ Tanh(z) = -Tanh(-z) /\ Sig(z) <= Sig(z + 1000) /\ (z >= 0 => ExpNeg(z + 1000) <= ExpNeg(z))
=============================================================================

------------------------------ MODULE MC_Dataset ------------------------------
(* Two data sets with the same seed, each with several interleaved passes.   *)
(* plan[k] is what the seed determines for the k-th pass (chosen on first    *)
(* use, the same for both data sets).                                        *)
EXTENDS Dataset
CONSTANTS N, M, Passes
VARIABLES plan, pass, cnt
vars == <<plan, pass, cnt>>
Data == [ i \in 1..N |-> 10 * i ]
Perms(n) == { f \in [1..n -> 1..n] : \A i, j \in 1..n : f[i] = f[j] => i = j }
Init == plan = [ k \in 1..Passes |-> <<>> ] /\ pass = [ d \in 1..2 |-> <<>> ] /\ cnt = [ d \in 1..2 |-> <<>> ]
Start(d) == /\ Len(pass[d]) < Passes
            /\ pass' = [pass EXCEPT ![d] = Append(@, Pass0)]
            /\ cnt' = [cnt EXCEPT ![d] = Append(@, 0)]
            /\ UNCHANGED plan
Fetch(d, k) ==
    LET p == pass[d][k]  b == cnt[d][k] + 1 IN
    /\ p.taken < N
    /\ IF b <= Len(plan[k])
       THEN /\ UNCHANGED plan
            /\ pass' = [pass EXCEPT ![d][k] = TakeBatch(Data, p, plan[k][b].size, plan[k][b].perm)]
       ELSE \E size \in ((M \div 2) + 1)..M : LET real == Min2(size, N - p.taken) IN \E perm \in Perms(real) :
            /\ plan' = [plan EXCEPT ![k] = Append(@, [size |-> real, perm |-> perm])]
            /\ pass' = [pass EXCEPT ![d][k] = TakeBatch(Data, p, real, perm)]
    /\ cnt' = [cnt EXCEPT ![d][k] = b]
Next == \E d \in 1..2 : Start(d) \/ \E k \in DOMAIN pass[d] : Fetch(d, k)
Spec == Init /\ [][Next]_vars
Done(p) == p.taken = N
EveryItemOnceNearby == \A d \in 1..2 : \A k \in DOMAIN pass[d] : Done(pass[d][k]) => WindowShuffle(Data, pass[d][k].out, M)
SameSeedSameOrder == \A k \in DOMAIN pass[1] \cap DOMAIN pass[2] :
    LET a == pass[1][k].out  b == pass[2][k].out IN IsPrefix(a, b) \/ IsPrefix(b, a)
=============================================================================

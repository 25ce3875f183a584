------------------------------- MODULE MC_Grid -------------------------------
EXTENDS Grid, Json, IOUtils
CONSTANTS MaxAxes, MaxLen
VARIABLES tree, grid
vars == <<tree, grid>>
Base == { << <<"a">>, "0">>, << <<"b", "c">>, "0">>, << <<"b", "d">>, "0">> }
Paths == { <<"a">>, <<"b">>, <<"b", "c">>, <<"b", "d">>, <<"a", "x">>, <<"z">>, <<"b", "z">> }
Axes == UNION { { [ i \in 1..n |-> <<ps[i], ToString(vs[i])>> ] : ps \in [1..n -> Paths], vs \in [1..n -> 1..2] } : n \in 0..MaxLen }
Init == tree = Base /\ grid = <<>>
Next == Len(grid) < MaxAxes /\ \E a \in Axes : grid' = Append(grid, a) /\ UNCHANGED tree
Spec == Init /\ [][Next]_vars
Good == GridValid(grid) /\ GridDefined(tree, grid) /\ Unrelated(grid)
E == Expand(tree, grid)
CountIsProduct == Good => Len(E) = FoldLeft(LAMBDA n, a : n * Len(a), 1, grid)
\* every result has the chosen values and nothing else changed
EachIsTheChoice == Good => \A k \in DOMAIN E :
    /\ \A a \in DOMAIN grid : \E i \in DOMAIN grid[a] : grid[a][i] \in E[k]
    /\ \A l \in E[k] : l \in tree \/ \E a \in DOMAIN grid : l \in Range0(grid[a])
    /\ \A l \in tree : l \in E[k] \/ \E a \in DOMAIN grid : \E q \in AxisPaths(grid[a]) : Prefix(q, l[1]) \/ Prefix(l[1], q)
EveryCombination == Good => \A c \in { f \in [DOMAIN grid -> 1..MaxLen] : \A a \in DOMAIN grid : f[a] \in DOMAIN grid[a] } :
    \E k \in DOMAIN E : E[k] = ApplyChoice(tree, grid, c)
OneValuePerPlace == Good => \A k \in DOMAIN E : \A l, m \in E[k] : l # m => ~Prefix(l[1], m[1])
Collect == IF Unrelated(grid) THEN TLCSet(8, Append(TLCGet(8), grid)) ELSE TRUE
CInit == Init /\ TLCSet(8, <<>>)
CSpec == CInit /\ [][Next]_vars
Write == JsonSerialize(IOEnv.OUT, TLCGet(8))
=============================================================================

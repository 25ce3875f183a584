-------------------------------- MODULE Grid --------------------------------
(* Grid expansion.  A parameter tree is a set of leaves <<path, value>>; a    *)
(* grid is a sequence of axes, an axis a sequence of single leaves.           *)
EXTENDS Common
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Proper(p, q) == Prefix(p, q) /\ p # q
\* the parameter exists: something lies at or below the path, or a plain value lies above it
DefinedIn(tree, path) == \E l \in tree : Prefix(path, l[1]) \/ Proper(l[1], path)
\* what was at, below or (as a plain value) above the path gives way
Substitute(tree, leaf) == { l \in tree : ~Prefix(leaf[1], l[1]) /\ ~Proper(l[1], leaf[1]) } \cup {leaf}
AxisPaths(axis) == { axis[i][1] : i \in DOMAIN axis }
GridValid(grid) ==
    /\ \A a \in DOMAIN grid : Cardinality(AxisPaths(grid[a])) = 1
    /\ Cardinality(UNION { AxisPaths(grid[a]) : a \in DOMAIN grid }) = Len(grid)
GridDefined(tree, grid) == \A a \in DOMAIN grid : \A i \in DOMAIN grid[a] : DefinedIn(tree, grid[a][i][1])
\* all choices, as sequences of positions; the first axis varies slowest
GridChoices(grid) ==
    FoldLeft(LAMBDA acc, axis : Concat(MapSeq(LAMBDA c : [ i \in DOMAIN axis |-> Append(c, i) ], acc)), << <<>> >>, grid)
ApplyChoice(tree, grid, c) == FoldLeft(LAMBDA t, a : Substitute(t, grid[a][c[a]]), tree, [ a \in DOMAIN grid |-> a ])
Expand(tree, grid) == MapSeq(LAMBDA c : ApplyChoice(tree, grid, c), GridChoices(grid))
\* axes that touch unrelated parts commute; others are not specified
Unrelated(grid) == \A a, b \in DOMAIN grid : a # b => \A p \in AxisPaths(grid[a]), q \in AxisPaths(grid[b]) : ~Proper(p, q) /\ ~Proper(q, p)
=============================================================================

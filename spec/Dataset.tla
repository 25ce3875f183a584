------------------------------- MODULE Dataset -------------------------------
(* Data sets: re-iterable sources, and shuffling.  A shuffled pass cuts the  *)
(* source into consecutive windows of at most m items and permutes each.     *)
EXTENDS Common

\* prefixes of out that are permutations of the same prefix of data
Cuts(data, out) == { n \in 0..Len(data) : Range0(SubSeq(out, 1, n)) = Range0(SubSeq(data, 1, n)) }      \* items are distinct
\* positions reachable from 0 by windows of at most m items
ReachCuts(data, out, m) ==
    FoldLeft(LAMBDA acc, n : IF n \in Cuts(data, out) /\ (\E c \in acc : n - c <= m) THEN acc \cup {n} ELSE acc,
             {0}, [ n \in 1..Len(data) |-> n ])
WindowShuffle(data, out, m) ==
    /\ IsPerm(data, out)
    /\ Len(data) \in ReachCuts(data, out, m)

(* The shuffling machine: one pass fetches a batch, permutes it, delivers it *)
Pass0 == [taken |-> 0, out |-> <<>>]
TakeBatch(data, p, size, perm) ==       \* perm: permutation of 1..size
    [taken |-> p.taken + size, out |-> p.out \o [ i \in 1..size |-> data[p.taken + perm[i]] ]]
=============================================================================

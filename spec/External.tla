------------------------------ MODULE External ------------------------------
(* The wrapper of an external parser or tagger: a session that is open only   *)
(* inside the context manager; sentences are stored by the network's          *)
(* vocabularies, predicted in batches of any composition and order, collected *)
(* in a cache, and given back in the order of the documents.                  *)
EXTENDS Common

X0 == [on |-> FALSE, store |-> <<>>, cache |-> <<>>, todo |-> {}, busy |-> FALSE, calls |-> 0, done |-> <<>>]
Enter(x) == [x EXCEPT !.on = TRUE]
Leave(x) == [x EXCEPT !.on = FALSE]
\* a call on n sentences: what earlier calls left is forgotten first
Begin(x, n) == [x EXCEPT !.busy = TRUE, !.calls = @ + 1, !.store = [ i \in 1..n |-> <<x.calls + 1, i>> ], !.cache = <<>>, !.todo = 1..n]
\* a batch: some of the sentences that are left, in any order
Batch(x, b) == [x EXCEPT !.todo = @ \ Range0(b), !.cache = @ \o MapSeq(LAMBDA i : <<i, x.store[i]>>, b)]
Fail(x) == [x EXCEPT !.busy = FALSE, !.todo = {}]
InOrder(cache) == LET is == SetToSortSeq({ e[1] : e \in Range0(cache) }, LAMBDA a, b : a < b) IN
                  MapSeq(LAMBDA i : (CHOOSE e \in Range0(cache) : e[1] = i)[2], is)
Finish(x) == [x EXCEPT !.busy = FALSE, !.done = Append(@, <<x.calls, InOrder(x.cache)>>)]

\* what the stand-in for the network says about the j-th word of a sentence with the given forms: a number
Mix(forms, j) == SumSeq(forms[j]) + 5 * j + (IF j > 1 THEN 3 * SumSeq(forms[j - 1]) ELSE 0)
Said(forms, j, w, off, size) == (Mix(forms, j) + w + off) % size
=============================================================================

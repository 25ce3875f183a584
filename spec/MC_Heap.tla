------------------------------- MODULE MC_Heap -------------------------------
(* Exhaustive/simulated exploration of the caller's histories over Heap.     *)
EXTENDS Heap, Json, IOUtils
CONSTANTS MaxObjs, MaxCells, MaxOps, Mode, Keep
VARIABLES h, hist
hvars == <<h, hist>>
\* a caller that already holds one value of every kind, every field set
Prefix == << [n |-> "NewF", d |-> << <<"k1", "v1">>, <<"k3", "v3">> >>],
             [n |-> "NewX", d |-> << <<"k1", <<"a">>>>, <<"k3", <<"z", "y">>>> >>],
             [n |-> "NewX", d |-> << <<"k2", <<"q">>>>, <<"k3", Falsy>>, <<"k4", Falsy>> >>],
             [n |-> "MkPos", u |-> <<"N">>, x |-> <<"x">>, c |-> 1],
             [n |-> "MkPos", u |-> <<"V">>, x |-> None, c |-> 0],
             [n |-> "MkExt", c |-> 2],
             [n |-> "MkTok", slot |-> 0, mw |-> 0, p |-> 1, x |-> 3, lemma |-> <<"l">>],
             [n |-> "WithS", o |-> 4, deprel |-> <<"dep">>, hd |-> <<0>>, hs |-> None],
             [n |-> "MkTok", slot |-> 1, mw |-> 1, p |-> 2, x |-> 3, lemma |-> <<"m">>],
             [n |-> "MkTok", slot |-> 1, mw |-> 2, p |-> 1, x |-> 0, lemma |-> None],
             [n |-> "WithS", o |-> 7, deprel |-> <<"x">>, hd |-> None, hs |-> <<-1>>],
             [n |-> "MkTok", slot |-> 2, mw |-> 0, p |-> 0, x |-> 3, lemma |-> <<"n">>],
             [n |-> "NewX", d |-> <<>>],
             [n |-> "NewL", l |-> <<9, 5, 8, 6>>],
             [n |-> "MkDoc", c |-> 5, cut |-> 1],
             [n |-> "DocTok", o |-> 10, i |-> 1],
             [n |-> "DocTok", o |-> 10, i |-> 2],
             [n |-> "DocTok", o |-> 10, i |-> 3] >>
Rich == Mode \in {"rich", "derive"}
Init == /\ h = IF Rich THEN FoldLeft(Apply, HeapInit, Prefix) ELSE HeapInit
        /\ hist = IF Rich THEN Prefix ELSE <<>>
Pick(S) == LET n == RandomElement({ o.n : o \in S }) IN RandomElement({ o \in S : o.n = n })
\* restricted alphabets keep the exhaustive search finite and quick
Moves == CASE Mode = "pos" -> { op \in Ops(h) : op.n \in {"NewF", "SetF", "DelF", "MkPos", "ReadF"} }
           [] Mode = "ext" -> { op \in Ops(h) : op.n \in {"NewX", "SetX", "DelX", "PushX", "MkExt", "ReadX", "ReadItem", "UpdExt"} }
           [] Mode = "doc" -> { op \in Ops(h) : op.n \in {"MkTok", "WithS", "NewL", "PushL", "PopL", "RevL", "MkDoc", "ReAnn", "DocTok"}
                                                /\ (op.n = "MkTok" => op.lemma = None /\ (op.mw = 0 \/ op.slot = 0)) }
           [] Mode = "derive" -> { op \in Ops(h) : op.n \in {"WithM", "WithS", "WithX", "UpdX", "UpdExt", "ReadF", "ReadX", "ReadItem", "Poke"} }
           [] OTHER -> Ops(h)
Next == /\ Len(hist) < MaxOps
        /\ \E op \in IF Mode \in {"all", "rich"} THEN { Pick(Moves) } ELSE Moves :
             /\ h' = Apply(h, op)
             /\ hist' = Append(hist, op)
Small == Len(h.objs) <= MaxObjs /\ Len(h.cells) <= MaxCells
Spec == Init /\ [][Next]_hvars
ValuesNeverChange == [][ IsPrefix(h.objs, h'.objs) ]_hvars
DocsWellFormed == \A i \in OfKind(h.objs, "doc") : LET d == OV(h, i) IN
                    d.toks # <<>> => TokensOk(d.toks) /\ SentsOk(Len(d.toks), d.sents) /\ HeadsOk(d.toks, d.sents)
\* simulation: remember finished histories
Collect == IF Len(hist) = MaxOps THEN TLCSet(8, Append(TLCGet(8), hist)) ELSE TRUE
CInit == Init /\ TLCSet(8, <<>>)
CSpec == CInit /\ [][Next]_hvars
Write == JsonSerialize(IOEnv.OUT, TLCGet(8))
HView == h
=============================================================================
